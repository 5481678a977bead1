//! The choice tape: every decision of a run is drawn here and recorded. Replaying the recorded
//! outcomes reproduces the run; editing them is how a failing run is minimised. The value 0 is
//! always the tamest choice.

#[derive(Clone)]
pub struct Rng(u64, u64, u64, u64);

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
	z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64) -> Rng {
		let a = mix(seed);
		let b = mix(a);
		let c = mix(b);
		let d = mix(c);
		Rng(a, b, c, d | 1)
	}
	pub fn next(&mut self) -> u64 {
		let r = self.1.wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.1 << 17;
		self.2 ^= self.0;
		self.3 ^= self.1;
		self.1 ^= self.2;
		self.0 ^= self.3;
		self.2 ^= t;
		self.3 = self.3.rotate_left(45);
		r
	}
	pub fn below(&mut self, n: u64) -> u64 {
		if n <= 1 {
			0
		} else {
			((self.next() as u128 * n as u128) >> 64) as u64
		}
	}
}

pub enum Source {
	Rng(Rng),
	Replay(Vec<u64>, usize),
}

pub struct Tape {
	src: Source,
	log: Vec<u64>,
	/// Mirror of the log in shared memory, so that a run that kills its process leaves its tape behind.
	mirror: Option<(*mut u64, usize)>,
	limit: usize,
}

unsafe impl Send for Tape {}

const CAP: usize = 1 << 16;

impl Tape {
	pub fn record(seed: u64) -> Tape {
		Tape { src: Source::Rng(Rng::new(seed)), log: Vec::with_capacity(CAP), mirror: None, limit: usize::MAX }
	}
	pub fn replay(vals: Vec<u64>) -> Tape {
		Tape { src: Source::Replay(vals, 0), log: Vec::with_capacity(CAP), mirror: None, limit: usize::MAX }
	}
	/// `mem[0]` receives the number of choices, `mem[1..]` the choices.
	pub fn set_mirror(&mut self, mem: *mut u64, words: usize) {
		self.mirror = Some((mem, words));
	}
	pub fn log(&self) -> &[u64] {
		&self.log
	}
	pub fn into_log(self) -> Vec<u64> {
		self.log
	}
	pub fn len(&self) -> usize {
		self.log.len()
	}
	pub fn is_empty(&self) -> bool {
		self.log.is_empty()
	}
	pub fn over_limit(&self) -> bool {
		self.log.len() > self.limit
	}
	fn push(&mut self, v: u64) {
		crate::rt(|| {
			self.log.push(v);
			if let Some((m, n)) = self.mirror {
				let len = self.log.len();
				if len < n {
					unsafe {
						*m.add(len) = v;
						*m = len as u64;
					}
				}
			}
		})
	}
	/// Uniform in `0..n`.
	pub fn below(&mut self, n: u64) -> u64 {
		let n = n.max(1);
		let v = match &mut self.src {
			Source::Rng(r) => r.below(n),
			Source::Replay(v, i) => {
				let x = v.get(*i).copied().unwrap_or(0);
				*i += 1;
				if x < n {
					x
				} else {
					n - 1
				}
			}
		};
		self.push(v);
		v
	}
	/// Uniform in `lo..=hi`.
	pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
		lo + self.below(hi - lo + 1)
	}
	/// True with probability num/den.
	pub fn chance(&mut self, num: u64, den: u64) -> bool {
		let v = match &mut self.src {
			Source::Rng(r) => (r.below(den) < num) as u64,
			Source::Replay(v, i) => {
				let x = v.get(*i).copied().unwrap_or(0);
				*i += 1;
				(x != 0) as u64
			}
		};
		self.push(v);
		v == 1
	}
	/// A raw 64-bit value (0 is tame).
	pub fn word(&mut self) -> u64 {
		let v = match &mut self.src {
			Source::Rng(r) => r.next(),
			Source::Replay(v, i) => {
				let x = v.get(*i).copied().unwrap_or(0);
				*i += 1;
				x
			}
		};
		self.push(v);
		v
	}
	/// Index drawn by weight; weights of 0 never occur, in a replay neither.
	pub fn weighted(&mut self, w: &[u64]) -> usize {
		let total: u64 = w.iter().sum();
		let v = match &mut self.src {
			Source::Rng(r) => {
				let mut x = r.below(total.max(1));
				let mut k = 0;
				for (i, wi) in w.iter().enumerate() {
					if x < *wi {
						k = i;
						break;
					}
					x -= *wi;
				}
				k as u64
			}
			Source::Replay(v, i) => {
				let x = v.get(*i).copied().unwrap_or(0);
				*i += 1;
				let x = x.min(w.len() as u64 - 1);
				if w[x as usize] == 0 {
					w.iter().position(|v| *v > 0).unwrap_or(0) as u64
				} else {
					x
				}
			}
		};
		self.push(v);
		v as usize
	}
	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		let i = self.below(xs.len() as u64) as usize;
		&xs[i]
	}
	/// `n` bytes from one recorded word: 0 gives zeros.
	pub fn bytes(&mut self, n: usize) -> Vec<u8> {
		let s = self.word();
		let mut out = vec![0u8; n];
		if s != 0 {
			let mut r = Rng::new(s);
			let mode = r.below(4);
			for b in out.iter_mut() {
				*b = match mode {
					0 => r.next() as u8,
					1 => [0u8, 0xff, 1, 0x80][r.below(4) as usize],
					2 => r.below(3) as u8,
					_ => r.next() as u8,
				};
			}
		}
		out
	}
	pub fn shuffle<T>(&mut self, xs: &mut [T]) {
		for i in (1..xs.len()).rev() {
			// 0 keeps the order
			let k = self.below(i as u64 + 1) as usize;
			xs.swap(i, i - k);
		}
	}
}
