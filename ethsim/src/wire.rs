//! Messages on a faulty link: damage, and what a receiver may make of the bytes it gets.
use simcore::codec::{self, DecErr};
use simcore::mty::*;
use simrt::ctx::violation;
use simrt::{Ctx, Tape, Violation};

pub type Res = Result<(), Violation>;

/// Elements the model is willing to expand.
pub const FUEL: u64 = 80_000;

fn put_word(d: &mut [u8], w: usize, v: u128) {
	let at = w * 32;
	for b in d[at..at + 32].iter_mut() {
		*b = 0;
	}
	d[at + 16..at + 32].copy_from_slice(&v.to_be_bytes());
}

fn word_val(d: &[u8], w: usize) -> Option<u64> {
	let s = &d[w * 32..w * 32 + 32];
	if s[..24].iter().any(|b| *b != 0) {
		return None;
	}
	Some(u64::from_be_bytes(s[24..].try_into().unwrap()))
}

/// A number that is awkward as a length or an offset into `n` bytes.
pub fn awkward(t: &mut Tape, n: usize) -> u128 {
	let n = n as u128;
	match t.weighted(&[3, 3, 3, 3, 4, 2, 2]) {
		0 => t.below(n as u64 + 40) as u128,
		1 => (t.below(n as u64 / 32 + 3) * 32) as u128,
		2 => [n, n + 1, n.saturating_sub(1), n.saturating_sub(32), n.saturating_sub(31), n + 32][t.below(6) as usize],
		3 => [0u128, 1, 2, 31, 32, 33, 64][t.below(7) as usize],
		4 => [
			1u128 << 31,
			(1 << 32) - 1,
			1 << 32,
			(1 << 32) - 32,
			(1 << 32) - 31,
			(1 << 32) + 32,
			(1 << 31) - 1,
			1 << 16,
			1 << 24,
			100_000_000,
		][t.below(10) as usize],
		5 => [(1u128 << 63) - 1, 1 << 63, (1 << 64) - 1, (1 << 64) - 32, (1 << 64) - 31, 1 << 64, (1 << 64) + 32][t.below(7) as usize],
		_ => [u128::MAX, u128::MAX - 31, 1 << 100][t.below(3) as usize],
	}
}

/// One act of damage. Gives its kind.
pub fn damage_once(t: &mut Tape, d: &mut Vec<u8>, base: usize) -> &'static str {
	// `base`: bytes before the first word (a selector)
	let body = d.len().saturating_sub(base);
	let words = body / 32;
	match t.weighted(&[4, 5, 2, 2, 2, 2, 1, 1, 1]) {
		0 => {
			let k = if t.chance(1, 2) || words == 0 { t.below(d.len() as u64) as usize } else { base + t.below(words as u64) as usize * 32 };
			d.truncate(k);
			"truncated"
		}
		1 if words > 0 => {
			// a length or offset word, if there is one
			let cand: Vec<usize> = (0..words).filter(|w| matches!(word_val(&d[base..], *w), Some(v) if v < 1 << 20)).collect();
			let w = if cand.is_empty() || t.chance(1, 4) { t.below(words as u64) as usize } else { *t.pick(&cand) };
			let v = awkward(t, body);
			put_word(&mut d[base..], w, v);
			"length_or_offset"
		}
		2 if !d.is_empty() => {
			let k = t.below(d.len() as u64) as usize;
			d[k] ^= 1 << t.below(8);
			"bit_flip"
		}
		3 if !d.is_empty() => {
			let k = t.below(d.len() as u64) as usize;
			d[k] = t.below(256) as u8;
			"byte_changed"
		}
		4 => {
			let n = 1 + t.below(70) as usize;
			let b = t.bytes(n);
			d.extend(b);
			"extended"
		}
		5 if words > 1 => {
			let (a, b) = (t.below(words as u64) as usize, t.below(words as u64) as usize);
			for i in 0..32 {
				d.swap(base + a * 32 + i, base + b * 32 + i);
			}
			"words_swapped"
		}
		6 if words > 0 => {
			let a = base + t.below(words as u64) as usize * 32;
			d.drain(a..a + 32);
			"word_lost"
		}
		7 if words > 0 => {
			let a = base + t.below(words as u64) as usize * 32;
			let w: Vec<u8> = d[a..a + 32].to_vec();
			for (i, b) in w.into_iter().enumerate() {
				d.insert(a + i, b);
			}
			"word_repeated"
		}
		_ => {
			if words > 0 {
				let a = base + t.below(words as u64) as usize * 32;
				let hi = t.chance(1, 2);
				for b in d[a..a + 32].iter_mut() {
					*b = if hi { 0xff } else { 0 };
				}
				"word_blanked"
			} else {
				d.push(0);
				"extended"
			}
		}
	}
}

pub fn damage(c: &mut Ctx, d: &mut Vec<u8>, base: usize) {
	let n = 1 + c.tape.weighted(&[5, 3, 1]);
	for _ in 0..n {
		let k = damage_once(&mut c.tape, d, base);
		c.fault(k);
	}
}

/// The receiver's reading `got` of `data` against `types`. `intact`: the bytes the sender encoded,
/// with the values that went in.
pub fn judge(
	types: &[MType],
	data: &[u8],
	intact: Option<&[MVal]>,
	got: Result<Result<Vec<ethabi::Token>, ethabi::Error>, String>,
	what: &str,
) -> Res {
	judge_vals(types, data, intact, got.map(|g| g.map(|v| simcore::adapt::from_tokens(&v)).map_err(|e| e.to_string())), what)
}

pub fn judge_vals(types: &[MType], data: &[u8], intact: Option<&[MVal]>, got: Result<Result<Vec<MVal>, String>, String>, what: &str) -> Res {
	let show = || format!("{} of ({}) from {}", what, types.iter().map(|t| t.canonical()).collect::<Vec<_>>().join(","), clip_hex(data));
	let got = match got {
		Err(p) => return violation("panic", format!("{} panicked: {}", show(), p)),
		Ok(g) => g,
	};
	if let Some(v) = intact {
		return match got {
			Err(e) => violation("refused", format!("undamaged {} refused: {}; sent {}", show(), e, show_all(v))),
			Ok(g) if all_match(&g, v) => Ok(()),
			Ok(g) => violation("wrong-value", format!("undamaged {} read as {} instead of {}", show(), show_all(&g), show_all(v))),
		};
	}
	let Ok(g) = got else { return Ok(()) };
	match codec::decode(types, data, FUEL).0 {
		Ok(v) if all_match(&g, &v) => Ok(()),
		Ok(v) => violation("wrong-value", format!("damaged {} read as {} instead of {}", show(), show_all(&g), show_all(&v))),
		Err(DecErr::Invalid) => violation("accepted", format!("damaged {} read as {} although the bytes do not hold it", show(), show_all(&g))),
		Err(DecErr::TooBig) => Ok(()),
	}
}

/// Whether decoding would expand more elements than the simulation is willing to wait for.
pub fn too_big(types: &[MType], data: &[u8]) -> bool {
	codec::decode(types, data, FUEL).0 == Err(DecErr::TooBig)
}

pub fn clip_hex(d: &[u8]) -> String {
	if d.len() <= 640 {
		hex(d)
	} else {
		format!("{}… ({} bytes)", hex(&d[..640]), d.len())
	}
}

/// Argument lists that are not of the given types: wrong number, kind or size.
pub fn wrong_args(t: &mut Tape, types: &[MType], vals: &[MVal]) -> Option<Vec<MVal>> {
	let mut v = vals.to_vec();
	match t.weighted(&[2, 2, 6]) {
		0 => {
			v.pop()?;
		}
		1 => v.push(if vals.is_empty() || t.chance(1, 2) { MVal::Bool(true) } else { vals[vals.len() - 1].clone() }),
		_ => {
			if v.is_empty() {
				return None;
			}
			let k = t.below(v.len() as u64) as usize;
			v[k] = wrong_val(t, &types[k], &v[k], 0)?;
		}
	}
	let fits = v.len() == types.len() && v.iter().zip(types).all(|(v, t)| lax_inhabits(v, t));
	if fits {
		None
	} else {
		Some(v)
	}
}

/// A value with one bytesN shortened, and the same padded again: the short form may be refused, or
/// sent as the padded one.
pub fn shortened(t: &mut Tape, v: &MVal) -> Option<(MVal, MVal)> {
	let inside = |t: &mut Tape, x: &Vec<MVal>| {
		let all: Vec<usize> = (0..x.len().min(40)).filter(|k| has_fixed(&x[*k])).collect();
		if all.is_empty() {
			return None;
		}
		let k = *t.pick(&all);
		let (a, b) = shortened(t, &x[k])?;
		let (mut y, mut z) = (x.clone(), x.clone());
		y[k] = a;
		z[k] = b;
		Some((y, z))
	};
	Some(match v {
		MVal::FixedBytes(b) => {
			let k = t.below(b.len() as u64) as usize;
			let mut p = b[..k].to_vec();
			let s = p.clone();
			p.resize(b.len(), 0);
			(MVal::FixedBytes(s), MVal::FixedBytes(p))
		}
		MVal::Array(x) => inside(t, x).map(|(y, z)| (MVal::Array(y), MVal::Array(z)))?,
		MVal::FixedArray(x) => inside(t, x).map(|(y, z)| (MVal::FixedArray(y), MVal::FixedArray(z)))?,
		MVal::Tuple(x) => inside(t, x).map(|(y, z)| (MVal::Tuple(y), MVal::Tuple(z)))?,
		_ => return None,
	})
}

fn has_fixed(v: &MVal) -> bool {
	match v {
		MVal::FixedBytes(b) => !b.is_empty(),
		MVal::Array(x) | MVal::FixedArray(x) | MVal::Tuple(x) => x.iter().take(40).any(has_fixed),
		_ => false,
	}
}

/// Also true of byte strings shorter than a bytesN, which are padded rather than refused.
fn lax_inhabits(v: &MVal, t: &MType) -> bool {
	match (v, t) {
		(MVal::FixedBytes(b), MType::FixedBytes(n)) => b.len() <= *n,
		(MVal::Array(x), MType::Array(e)) => x.iter().all(|v| lax_inhabits(v, e)),
		(MVal::FixedArray(x), MType::FixedArray(e, n)) => x.len() == *n && x.iter().all(|v| lax_inhabits(v, e)),
		(MVal::Tuple(x), MType::Tuple(ts)) => x.len() == ts.len() && x.iter().zip(ts).all(|(v, t)| lax_inhabits(v, t)),
		_ => inhabits(v, t),
	}
}

fn wrong_val(t: &mut Tape, ty: &MType, v: &MVal, d: u32) -> Option<MVal> {
	// deep inside a composite value, if there is one
	if d < 6 && t.chance(2, 3) {
		match (v, ty) {
			(MVal::Array(x), MType::Array(e)) if !x.is_empty() => {
				let k = t.below(x.len() as u64) as usize;
				let mut y = x.clone();
				y[k] = wrong_val(t, e, &x[k], d + 1)?;
				return Some(MVal::Array(y));
			}
			(MVal::FixedArray(x), MType::FixedArray(e, _)) if !x.is_empty() => {
				let k = t.below(x.len() as u64) as usize;
				let mut y = x.clone();
				y[k] = wrong_val(t, e, &x[k], d + 1)?;
				return Some(MVal::FixedArray(y));
			}
			(MVal::Tuple(x), MType::Tuple(ts)) if !x.is_empty() => {
				let k = t.below(x.len() as u64) as usize;
				let mut y = x.clone();
				y[k] = wrong_val(t, &ts[k], &x[k], d + 1)?;
				return Some(MVal::Tuple(y));
			}
			_ => {}
		}
	}
	Some(match (v, t.below(3)) {
		(MVal::FixedArray(x), 0) => {
			let mut y = x.clone();
			y.pop();
			MVal::FixedArray(y)
		}
		(MVal::FixedArray(x), 1) => {
			let mut y = x.clone();
			y.push(x.first().cloned().unwrap_or(MVal::Bool(false)));
			MVal::FixedArray(y)
		}
		(MVal::FixedArray(x), _) => MVal::Array(x.clone()),
		(MVal::Tuple(x), 0) => {
			let mut y = x.clone();
			y.pop();
			MVal::Tuple(y)
		}
		(MVal::Tuple(x), 1) => {
			let mut y = x.clone();
			y.push(MVal::Bool(false));
			MVal::Tuple(y)
		}
		(MVal::Tuple(x), _) => MVal::FixedArray(x.clone()),
		(MVal::Array(x), 0) => MVal::FixedArray(x.clone()),
		(MVal::Array(x), 1) => MVal::Tuple(x.clone()),
		(MVal::FixedBytes(b), 0) => {
			let mut y = b.clone();
			y.push(7);
			MVal::FixedBytes(y)
		}
		(MVal::FixedBytes(b), _) => MVal::Bytes(b.clone()),
		(MVal::Bytes(b), 0) => MVal::FixedBytes(b.clone()),
		(MVal::Bytes(_), _) => MVal::Str(b"text".to_vec()),
		(MVal::Str(b), _) => MVal::Bytes(b.clone()),
		(MVal::Uint(w), 0) => MVal::Int(*w),
		(MVal::Int(w), 0) => MVal::Uint(*w),
		(MVal::Address(_), 0) => MVal::Uint([0; 32]),
		(MVal::Bool(b), 0) => MVal::Uint({
			let mut w = [0; 32];
			w[31] = *b as u8;
			w
		}),
		(MVal::Bool(_), _) => MVal::Str(b"true".to_vec()),
		_ => MVal::Bool(true),
	})
}
