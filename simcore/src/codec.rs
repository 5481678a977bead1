//! Reference encoder, decoder and indexed-topic encoder, from the Solidity ABI specification.
use crate::keccak::keccak256;
use crate::mty::{MType, MVal};

fn num(n: usize) -> [u8; 32] {
	let mut w = [0u8; 32];
	w[24..].copy_from_slice(&(n as u64).to_be_bytes());
	w
}

fn padded(b: &[u8]) -> Vec<u8> {
	let mut v = b.to_vec();
	while v.len() % 32 != 0 {
		v.push(0);
	}
	v
}

fn dynamic(v: &MVal) -> bool {
	match v {
		MVal::Bytes(_) | MVal::Str(_) | MVal::Array(_) => true,
		MVal::FixedArray(x) | MVal::Tuple(x) => x.iter().any(dynamic),
		_ => false,
	}
}

fn body(v: &MVal) -> Vec<u8> {
	match v {
		MVal::Address(a) => {
			let mut w = vec![0u8; 12];
			w.extend_from_slice(a);
			w
		}
		MVal::Int(w) | MVal::Uint(w) => w.to_vec(),
		MVal::Bool(b) => num(*b as usize).to_vec(),
		MVal::FixedBytes(b) => padded(b),
		MVal::Bytes(b) | MVal::Str(b) => {
			let mut v = num(b.len()).to_vec();
			v.extend(padded(b));
			v
		}
		MVal::Array(x) => {
			let mut v = num(x.len()).to_vec();
			v.extend(encode(x));
			v
		}
		MVal::FixedArray(x) | MVal::Tuple(x) => encode(x),
	}
}

/// enc(X1..Xn) of the specification.
pub fn encode(vals: &[MVal]) -> Vec<u8> {
	let parts: Vec<(bool, Vec<u8>)> = vals.iter().map(|v| (dynamic(v), body(v))).collect();
	let head_len: usize = parts.iter().map(|(d, b)| if *d { 32 } else { b.len() }).sum();
	let mut head = vec![];
	let mut tail = vec![];
	for (d, b) in parts {
		if d {
			head.extend_from_slice(&num(head_len + tail.len()));
			tail.extend(b);
		} else {
			head.extend(b);
		}
	}
	head.extend(tail);
	head
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum DecErr {
	/// The bytes do not hold what they announce.
	Invalid,
	/// More elements than the model is willing to expand.
	TooBig,
}

/// What a decoder has to hold: elements and bytes of contents found before it finished or failed.
#[derive(Clone, Copy, Debug, Default)]
pub struct Present {
	pub elems: u64,
	pub bytes: u64,
}

struct Dec {
	fuel: u64,
	bytes: u64,
}

fn word(d: &[u8], at: usize) -> Result<[u8; 32], DecErr> {
	let end = at.checked_add(32).ok_or(DecErr::Invalid)?;
	if end > d.len() {
		return Err(DecErr::Invalid);
	}
	Ok(d[at..end].try_into().unwrap())
}

fn size(d: &[u8], at: usize) -> Result<usize, DecErr> {
	let w = word(d, at)?;
	if w[..24].iter().any(|b| *b != 0) {
		return Err(DecErr::Invalid);
	}
	let n = u64::from_be_bytes(w[24..].try_into().unwrap());
	if n > usize::MAX as u64 / 2 {
		return Err(DecErr::Invalid);
	}
	Ok(n as usize)
}

impl Dec {
	fn seq<'a>(&mut self, types: impl Iterator<Item = &'a MType>, d: &[u8], mut at: usize) -> Result<(Vec<MVal>, usize), DecErr> {
		let mut out = vec![];
		for t in types {
			if self.fuel == 0 {
				return Err(DecErr::TooBig);
			}
			self.fuel -= 1;
			let v = self.one(t, d, at)?;
			at = at.checked_add(t.head()).ok_or(DecErr::Invalid)?;
			out.push(v);
		}
		Ok((out, at))
	}
	/// Decodes the value whose head lies at `at` in the frame `d`.
	fn one(&mut self, t: &MType, d: &[u8], at: usize) -> Result<MVal, DecErr> {
		if t.is_dynamic() {
			let off = size(d, at)?;
			if off > d.len() {
				return Err(DecErr::Invalid);
			}
			let f = &d[off..];
			return Ok(match t {
				MType::Bytes | MType::Str => {
					let n = size(f, 0)?;
					let end = n.checked_add(32).ok_or(DecErr::Invalid)?;
					if end > f.len() {
						return Err(DecErr::Invalid);
					}
					let b = f[32..end].to_vec();
					self.bytes += b.len() as u64;
					if *t == MType::Bytes {
						MVal::Bytes(b)
					} else {
						MVal::Str(b)
					}
				}
				MType::Array(e) => {
					let n = size(f, 0)?;
					MVal::Array(self.seq(std::iter::repeat(&**e).take(n), &f[32..], 0)?.0)
				}
				MType::FixedArray(e, n) => MVal::FixedArray(self.seq(std::iter::repeat(&**e).take(*n), f, 0)?.0),
				MType::Tuple(ts) => MVal::Tuple(self.seq(ts.iter(), f, 0)?.0),
				_ => unreachable!(),
			});
		}
		Ok(match t {
			MType::FixedArray(e, n) => MVal::FixedArray(self.seq(std::iter::repeat(&**e).take(*n), d, at)?.0),
			MType::Tuple(ts) => MVal::Tuple(self.seq(ts.iter(), d, at)?.0),
			MType::Address => MVal::Address(word(d, at)?[12..].try_into().unwrap()),
			MType::Int(_) => MVal::Int(word(d, at)?),
			MType::Uint(_) => MVal::Uint(word(d, at)?),
			MType::Bool => {
				let w = word(d, at)?;
				if w[..31].iter().any(|b| *b != 0) || w[31] > 1 {
					return Err(DecErr::Invalid);
				}
				MVal::Bool(w[31] == 1)
			}
			MType::FixedBytes(n) => {
				// the value is its n bytes; a missing padding is tolerated
				let end = at.checked_add(*n).ok_or(DecErr::Invalid)?;
				if end > d.len() {
					return Err(DecErr::Invalid);
				}
				MVal::FixedBytes(d[at..end].to_vec())
			}
			_ => unreachable!(),
		})
	}
}

/// What the ABI layout assigns to `data`, and what was found on the way.
pub fn decode(types: &[MType], data: &[u8], fuel: u64) -> (Result<Vec<MVal>, DecErr>, Present) {
	let mut d = Dec { fuel, bytes: 0 };
	let r = d.seq(types.iter(), data, 0).map(|x| x.0);
	(r, Present { elems: fuel - d.fuel, bytes: d.bytes })
}

/// Encoding of an indexed event parameter, as the specification's "Encoding of Indexed Event Parameters".
pub fn topic(v: &MVal) -> [u8; 32] {
	fn in_place(v: &MVal) -> Vec<u8> {
		match v {
			MVal::Bytes(b) | MVal::Str(b) => padded(b),
			MVal::Array(x) | MVal::FixedArray(x) | MVal::Tuple(x) => x.iter().flat_map(in_place).collect(),
			v => body(v),
		}
	}
	match v {
		MVal::Bytes(b) | MVal::Str(b) => keccak256(b),
		MVal::Array(_) | MVal::FixedArray(_) | MVal::Tuple(_) => keccak256(&in_place(v)),
		v => body(v).try_into().unwrap(),
	}
}

pub fn selector(sig: &str) -> [u8; 4] {
	keccak256(sig.as_bytes())[..4].try_into().unwrap()
}
