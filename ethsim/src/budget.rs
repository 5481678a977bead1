//! C07: hostile payloads under a memory and step budget.
use crate::calls::reload;
use crate::load::{draw_doc_with, ev_doc, Need};
use crate::ops::hash_of;
use crate::wire::{self, Res};
use simcore::codec::{self, DecErr};
use simcore::doc::*;
use simcore::mty::*;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Tape};

/// How often over the memory allowed at once may be used in the course of one decoding.
const WORK: u64 = 4;

fn num(n: u128) -> [u8; 32] {
	let mut w = [0u8; 32];
	w[16..].copy_from_slice(&n.to_be_bytes());
	w
}

/// A payload built to announce more than it holds: every word of the head and of the frames it leads
/// to is an awkward length or offset, with some contents in between.
fn hostile(t: &mut Tape, words: usize) -> Vec<u8> {
	let n = words * 32;
	let mut d = vec![];
	for i in 0..words {
		let v = match t.weighted(&[4, 4, 3, 2, 2]) {
			0 => (t.below(words as u64 + 1) * 32) as u128,
			1 => wire::awkward(t, n),
			2 => t.below(4) as u128,
			3 => ((words - i) as u128).saturating_sub(t.below(3) as u128),
			_ => t.below(1 << 20) as u128,
		};
		d.extend(num(v));
	}
	if t.chance(1, 3) {
		let k = t.below(32) as usize;
		d.truncate(d.len().saturating_sub(k));
	}
	d
}

/// Frames that point back at themselves or at each other.
fn looping(t: &mut Tape, words: usize) -> Vec<u8> {
	let len = t.range(1, 6) as u128;
	let mut d = vec![];
	for i in 0..words {
		d.extend(match t.weighted(&[3, 3, 1]) {
			0 => num(len),
			1 => num((t.below(i as u64 + 1) * 32) as u128),
			_ => num(0x20),
		});
	}
	d
}

pub fn c07(c: &mut Ctx) -> Res {
	let logs = c.tape.chance(1, 3);
	let (m, text) = draw_doc_with(c, if logs { Need::Event } else { Need::Func });
	ev!(c, "document {} entries", m.entries.len());
	ev_doc(c, &text);
	let k = reload(c, text.as_bytes(), &m)?;
	let rounds = 2 + c.tape.below(4);
	let mut judged = 0;
	for _ in 0..rounds {
		let evs: Vec<&MEvent> = m.events().collect();
		let fs: Vec<&MFunc> = m.funcs().collect();
		let (types, what): (Vec<MType>, String);
		let pick;
		if logs {
			pick = c.tape.below(evs.len() as u64) as usize;
			types = evs[pick].inputs.iter().filter(|p| !p.ix()).map(|p| p.ty.clone()).collect();
			what = format!("a log of {}", evs[pick].sig());
		} else {
			pick = c.tape.below(fs.len() as u64) as usize;
			types = fs[pick].out_types();
			what = format!("a result of {}", fs[pick].full_sig());
		}
		let mut data = match c.tape.weighted(&[4, 3, 2]) {
			0 => {
				let v = gen_vals(&mut c.tape, &types, &mut 150);
				let mut d = codec::encode(&v);
				wire::damage(c, &mut d, 0);
				d
			}
			1 => {
				let n = c.tape.range(1, 60) as usize;
				c.fault("hostile_lengths");
				hostile(&mut c.tape, n)
			}
			_ => {
				let n = c.tape.range(1, 60) as usize;
				c.fault("looping_offsets");
				looping(&mut c.tape, n)
			}
		};
		if c.tape.chance(1, 30) {
			// a large honest payload with a hostile tail
			data.resize(data.len() + 32 * c.tape.below(4000) as usize, 0);
			c.fault("large_payload");
		}
		let len = data.len() as u64;
		let (r, seen) = codec::decode(&types, &data, wire::FUEL);
		if r == Err(DecErr::TooBig) {
			c.probe("amplified_beyond_model");
			continue;
		}
		let announced = data.chunks(32).any(|w| w.len() == 32 && w[..28].iter().all(|b| *b == 0) && u32::from_be_bytes(w[28..].try_into().unwrap()) > 1 << 16);
		if announced {
			c.probe("announced_much");
		}
		// Per element a token (and its room in a growing vector), per byte of contents the copy and a
		// lossy string up to three times as long; per byte received a little slack.
		let present = seen.elems + types.len() as u64 + if logs { evs[pick].inputs.len() as u64 } else { 0 };
		// a log is handled by the types and names of all the event's parameters, indexed ones too
		let tsize: u64 = if logs {
			evs[pick].inputs.iter().map(|p| (p.ty.canonical().len() + p.name.len()) as u64).sum()
		} else {
			types.iter().map(|t| t.canonical().len() as u64).sum()
		};
		let budget = 32_768 + 32 * len + 640 * present + 12 * seen.bytes + 64 * tsize;
		let depth: u64 = types.iter().map(depth).max().unwrap_or(0) + 2;
		let steps = 100_000 + 60 * len + 4_000 * (present + 1) * depth + 40 * seen.bytes + 400 * tsize;
		let hoard = len < 3000 && present < 200 && c.tape.chance(1, 60);
		simrt::edge::limit_steps(steps);
		let s0 = simrt::edge::steps();
		ev!(c, "{}: {} bytes, {} elements and {} bytes present", what, len, seen.elems, seen.bytes);
		let (got, acct) = if logs {
			let e = evs[pick];
			let n = evs[..pick].iter().filter(|x| x.name == e.name).count();
			let le = match k.events_by_name(&e.name) {
				Ok(v) if n < v.len() => &v[n],
				_ => return violation("wrong-contract", format!("event {:?} is missing", e.name)),
			};
			let mut topics = vec![];
			if !e.anonymous {
				topics.push(hash_of(&e.topic0()));
			}
			for _ in e.inputs.iter().filter(|p| p.ix()) {
				let b = c.tape.bytes(32);
				topics.push(ethabi::Hash::from_slice(&b));
			}
			let raw = ethabi::RawLog { topics, data: data.clone() };
			if hoard {
				simrt::edge::limit_steps(u64::MAX);
				hoarded(c, &what, || drop(le.parse_log(raw.clone())))?;
				simrt::edge::limit_steps(steps);
			}
			let (r, a) = simrt::alloc::measured(budget as i64, || simrt::lib(|| le.parse_log(raw)));
			(r.map(|x| x.is_ok()), a)
		} else {
			let f = fs[pick];
			let n = fs[..pick].iter().filter(|x| x.name == f.name).count();
			let lf = match k.functions_by_name(&f.name) {
				Ok(v) if n < v.len() => &v[n],
				_ => return violation("wrong-contract", format!("function {:?} is missing", f.name)),
			};
			if hoard {
				simrt::edge::limit_steps(u64::MAX);
				hoarded(c, &what, || drop(lf.decode_output(&data)))?;
				simrt::edge::limit_steps(steps);
			}
			let (r, a) = simrt::alloc::measured(budget as i64, || simrt::lib(|| lf.decode_output(&data)));
			let ok = r.as_ref().map(|x| x.is_ok()).map_err(|e| e.clone());
			simrt::edge::limit_steps(u64::MAX);
			if let Ok(x) = r {
				wire::judge(&types, &data, None, Ok(x), "a hostile result")?;
			}
			(ok, a)
		};
		simrt::edge::limit_steps(u64::MAX);
		judged += 1;
		if std::env::var_os("C07_CALIBRATE").is_some() {
			let used = simrt::edge::steps() - s0;
			if acct.peak as u64 * 2 > budget || used * 4 > steps || acct.total > budget {
				eprintln!("peak {} total {} of {}  steps {} of {}  len {} elems {} bytes {} {}", acct.peak, acct.total, budget, used, steps, len, seen.elems, seen.bytes, what);
			}
		}
		if let Err(p) = got {
			return violation("panic", format!("decoding {} panicked: {} on {}", what, p, wire::clip_hex(&data)));
		}
		if acct.total > WORK * budget {
			return violation("work", format!("decoding {} of {} bytes ({} elements present) allocated {} bytes in all, one after the other, against {} allowed", what, len, seen.elems, acct.total, WORK * budget));
		}
		ev!(c, "accepted {:?}: peak {} of {}, {} allocations", got, acct.peak, budget, acct.count);
	}
	c.trivial = judged == 0;
	if c.want_sample {
		c.sample = Some(format!("{} payloads judged against {}", judged, if logs { "events" } else { "functions" }));
	}
	Ok(())
}

/// The same payload time and again: what was allocated for it is given back.
fn hoarded(c: &mut Ctx, what: &str, mut f: impl FnMut()) -> Res {
	const TIMES: usize = 400;
	c.probe("decoded_many_times");
	let r = simrt::lib(|| (0..20).for_each(|_| f()));
	let (r2, a) = simrt::alloc::measured(i64::MAX, || simrt::lib(|| (0..TIMES).for_each(|_| f())));
	if let Err(p) = r.and(r2) {
		return violation("panic", format!("decoding {} panicked: {}", what, p));
	}
	if a.cur > 4096 {
		return violation("hoard", format!("decoding {} another {} times left {} bytes allocated", what, TIMES, a.cur));
	}
	Ok(())
}

fn depth(t: &MType) -> u64 {
	match t {
		MType::Array(e) | MType::FixedArray(e, _) => 1 + depth(e),
		MType::Tuple(ts) => 1 + ts.iter().map(depth).max().unwrap_or(0),
		_ => 1,
	}
}
