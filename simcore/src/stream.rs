//! Simulated byte streams: readers and writers that split, interrupt and fail as planned.
use simrt::tape::Rng;
use simrt::{Ctx, Tape};
use std::io::{self, ErrorKind, Read, Write};

#[derive(Clone, Debug)]
pub enum Chunks {
	Whole,
	Fixed(usize),
	Random(u64, usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Then {
	/// The stream goes on where it was.
	Resume,
	/// Every later read fails the same way.
	Again,
	/// Every later read reports the end.
	Eof,
}

/// How an error is made: with a text of its own, of a kind alone, or with a number from the system.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
	Custom(ErrorKind),
	Bare(ErrorKind),
	Os(i32),
}

impl Fault {
	pub fn draw(t: &mut Tape) -> Fault {
		match t.weighted(&[6, 1, 1]) {
			0 => Fault::Custom(*t.pick(KINDS)),
			1 => Fault::Bare(*t.pick(KINDS)),
			_ => Fault::Os(*t.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::ECONNRESET, libc::ETIMEDOUT, libc::EAGAIN, libc::EISDIR, libc::EFBIG, libc::ESTALE])),
		}
	}
	pub fn error(&self, marker: &str) -> io::Error {
		match self {
			Fault::Custom(k) => io::Error::new(*k, marker.to_string()),
			Fault::Bare(k) => (*k).into(),
			Fault::Os(n) => io::Error::from_raw_os_error(*n),
		}
	}
	/// What the error says of itself.
	pub fn text(&self, marker: &str) -> String {
		self.error(marker).to_string()
	}
}

#[derive(Clone, Debug)]
pub struct ReadPlan {
	pub chunks: Chunks,
	/// Interrupted reads: seed (0: none) and rate in 16.
	pub eintr: (u64, u64),
	/// How many interruptions may follow one another.
	pub burst: u32,
	/// Error at this position.
	pub fail: Option<(usize, Fault, Then)>,
	/// The stream ends here.
	pub eof: Option<usize>,
	/// Wrapped in a buffered reader of this capacity.
	pub buffered: Option<usize>,
}

pub const KINDS: &[ErrorKind] = &[
	ErrorKind::Other,
	ErrorKind::TimedOut,
	ErrorKind::ConnectionReset,
	ErrorKind::UnexpectedEof,
	ErrorKind::BrokenPipe,
	ErrorKind::PermissionDenied,
	ErrorKind::WouldBlock,
	ErrorKind::InvalidData,
	ErrorKind::NotFound,
	ErrorKind::InvalidInput,
	ErrorKind::WriteZero,
	ErrorKind::OutOfMemory,
	ErrorKind::NotConnected,
	ErrorKind::ConnectionAborted,
	ErrorKind::ConnectionRefused,
	ErrorKind::Unsupported,
	ErrorKind::AlreadyExists,
	ErrorKind::AddrInUse,
	ErrorKind::AddrNotAvailable,
];

impl ReadPlan {
	pub fn whole() -> ReadPlan {
		ReadPlan { chunks: Chunks::Whole, eintr: (0, 0), burst: 5, fail: None, eof: None, buffered: None }
	}
	/// A plan without errors: only how the bytes arrive varies.
	pub fn arrival(t: &mut Tape) -> ReadPlan {
		let chunks = match t.weighted(&[2, 3, 3, 4]) {
			0 => Chunks::Whole,
			1 => Chunks::Fixed(1),
			2 => Chunks::Fixed([2usize, 3, 7, 16, 64, 511, 512, 1024, 4096, 8192][t.below(10) as usize]),
			_ => Chunks::Random(t.word(), [4usize, 64, 1000][t.below(3) as usize]),
		};
		let eintr = if t.chance(1, 2) { (t.word(), [1u64, 4, 12, 15][t.below(4) as usize]) } else { (0, 0) };
		let buffered = match t.weighted(&[3, 2, 2]) {
			0 => None,
			1 => Some(8192),
			_ => Some([1usize, 2, 5, 16, 100, 1024, 65536][t.below(7) as usize]),
		};
		let burst = if eintr.0 != 0 && t.chance(1, 8) { 200 } else { 5 };
		ReadPlan { chunks, eintr, burst, fail: None, eof: None, buffered }
	}
}

#[derive(Default, Clone, Debug)]
pub struct Fired {
	pub reads: u64,
	pub short: u64,
	pub eintr: u64,
	pub errors: u64,
	pub early_eof: u64,
	pub retried_after_error: u64,
}

impl Fired {
	pub fn count(&self, c: &mut Ctx) {
		let mut f = |k: &'static str, n: u64| {
			if n > 0 {
				*c.faults.entry(k).or_insert(0) += n;
			}
		};
		f("short_read", self.short);
		f("interrupted_read", self.eintr);
		f("read_error", self.errors);
		f("premature_end", self.early_eof);
	}
}

pub struct SimReader<'a> {
	data: &'a [u8],
	pos: usize,
	plan: ReadPlan,
	crng: Rng,
	erng: Rng,
	intr_run: u32,
	failed: bool,
	pub marker: String,
	pub fired: &'a mut Fired,
}

impl<'a> SimReader<'a> {
	pub fn new(data: &'a [u8], plan: ReadPlan, marker: &str, fired: &'a mut Fired) -> SimReader<'a> {
		let crng = Rng::new(if let Chunks::Random(s, _) = plan.chunks { s } else { 0 });
		let erng = Rng::new(plan.eintr.0);
		SimReader { data, pos: 0, plan, crng, erng, intr_run: 0, failed: false, marker: marker.into(), fired }
	}
	fn step(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		self.fired.reads += 1;
		if self.plan.eintr.0 != 0 && self.intr_run < self.plan.burst && self.erng.below(16) < self.plan.eintr.1 {
			self.intr_run += 1;
			self.fired.eintr += 1;
			return Err(ErrorKind::Interrupted.into());
		}
		self.intr_run = 0;
		let mut end = self.data.len();
		if let Some((at, kind, then)) = &self.plan.fail {
			if self.failed {
				self.fired.retried_after_error += 1;
				match then {
					Then::Resume => {}
					Then::Again => {
						self.fired.errors += 1;
						return Err(kind.error(&self.marker));
					}
					Then::Eof => return Ok(0),
				}
			} else if self.pos >= *at {
				self.failed = true;
				self.fired.errors += 1;
				return Err(kind.error(&self.marker));
			} else {
				end = end.min(*at);
			}
		}
		if let Some(e) = self.plan.eof {
			end = end.min(e);
		}
		let left = end - self.pos;
		if left == 0 {
			if self.pos < self.data.len() {
				self.fired.early_eof += 1;
			}
			return Ok(0);
		}
		let cap = match self.plan.chunks {
			Chunks::Whole => usize::MAX,
			Chunks::Fixed(n) => n,
			Chunks::Random(_, m) => 1 + self.crng.below(m as u64) as usize,
		};
		let n = left.min(buf.len()).min(cap);
		if n < left.min(buf.len()) {
			self.fired.short += 1;
		}
		buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
		self.pos += n;
		Ok(n)
	}
}

impl<'a> Read for SimReader<'a> {
	fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
		if buf.is_empty() {
			return Ok(0);
		}
		simrt::rt(|| self.step(buf))
	}
}

/// One load of `data` through a simulated stream. The outer error is a panic.
pub fn load(data: &[u8], plan: &ReadPlan, marker: &str) -> (Result<Result<ethabi::Contract, ethabi::Error>, String>, Fired) {
	let mut fired = Fired::default();
	let r = {
		let mut rd = SimReader::new(data, plan.clone(), marker, &mut fired);
		match plan.buffered {
			None => simrt::lib(|| bridge::load(&mut rd)),
			Some(n) => simrt::lib(|| bridge::load_buffered(&mut rd, n)),
		}
	};
	(r, fired)
}

/// The error, with everything reachable from it, as text.
pub fn error_text(e: &(dyn std::error::Error + 'static)) -> String {
	let mut s = format!("{} | {:?}", e, e);
	let mut src = e.source();
	while let Some(x) = src {
		s.push_str(&format!(" | {} | {:?}", x, x));
		src = x.source();
	}
	s
}

#[derive(Clone, Debug)]
pub struct WritePlan {
	pub cap: Option<usize>,
	pub eintr: (u64, u64),
	/// After this many bytes: an error, or (None) a full sink that accepts zero bytes.
	pub fail: Option<(usize, Option<Fault>)>,
	/// The failure happens once; later writes succeed.
	pub once: bool,
}

impl WritePlan {
	pub fn good(t: &mut Tape) -> WritePlan {
		let cap = if t.chance(1, 2) { Some([1usize, 2, 3, 7, 32, 512][t.below(6) as usize]) } else { None };
		let eintr = if t.chance(1, 3) { (t.word(), [1u64, 6][t.below(2) as usize]) } else { (0, 0) };
		WritePlan { cap, eintr, fail: None, once: false }
	}
}

pub struct SimWriter {
	pub out: Vec<u8>,
	plan: WritePlan,
	rng: Rng,
	intr_run: u32,
	pub failed: bool,
	pub short: u64,
	pub eintr: u64,
	pub errors: u64,
	pub marker: String,
}

impl SimWriter {
	pub fn new(plan: WritePlan, marker: &str) -> SimWriter {
		let rng = Rng::new(plan.eintr.0);
		SimWriter { out: vec![], plan, rng, intr_run: 0, failed: false, short: 0, eintr: 0, errors: 0, marker: marker.into() }
	}
	pub fn count(&self, c: &mut Ctx) {
		for (k, n) in [("short_write", self.short), ("interrupted_write", self.eintr), ("write_error", self.errors)] {
			if n > 0 {
				*c.faults.entry(k).or_insert(0) += n;
			}
		}
	}
	fn step(&mut self, b: &[u8]) -> io::Result<usize> {
		if self.plan.eintr.0 != 0 && self.intr_run < 5 && self.rng.below(16) < self.plan.eintr.1 {
			self.intr_run += 1;
			self.eintr += 1;
			return Err(ErrorKind::Interrupted.into());
		}
		self.intr_run = 0;
		let mut n = b.len();
		if let Some((at, kind)) = self.plan.fail {
			if !(self.failed && self.plan.once) {
				if self.out.len() >= at {
					self.failed = true;
					self.errors += 1;
					return match kind {
						Some(k) => Err(k.error(&self.marker)),
						None => Ok(0),
					};
				}
				n = n.min(at - self.out.len());
			}
		}
		if let Some(c) = self.plan.cap {
			n = n.min(c);
		}
		if n < b.len() {
			self.short += 1;
		}
		self.out.extend_from_slice(&b[..n]);
		Ok(n)
	}
}

impl Write for SimWriter {
	fn write(&mut self, b: &[u8]) -> io::Result<usize> {
		if b.is_empty() {
			return Ok(0);
		}
		simrt::rt(|| self.step(b))
	}
	fn flush(&mut self) -> io::Result<()> {
		Ok(())
	}
}
