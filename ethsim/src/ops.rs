//! Calls on a loaded contract, with what the specification says they return.
use crate::wire::{self, Res};
use ethabi::{Contract, Hash, RawLog, RawTopicFilter, Token, Topic};
use simcore::adapt::*;
use simcore::codec;
use simcore::doc::*;
use simcore::keccak::keccak256;
use simcore::mty::*;
use simcore::stream::ReadPlan;
use simrt::ctx::violation;
use simrt::tape::Rng;
use simrt::{ev, Ctx, Tape};

#[derive(Clone, Debug)]
pub enum Want {
	Bytes(Vec<u8>),
	Text(String),
	Vals(Vec<MVal>),
	/// Parsed log: names and values.
	Log(Vec<(String, MVal)>),
	Contract,
	Refused,
	/// Damaged data: refused or exactly what the bytes say.
	Judge(Vec<MType>, Vec<u8>),
}

#[derive(Clone, Debug)]
pub enum Call {
	Encode(String, usize, Vec<Token>),
	DecodeOut(String, usize, Vec<u8>),
	DecodeIn(String, usize, Vec<u8>),
	FuncSig(String, usize),
	EventSig(String, usize),
	ParseLog(String, usize, Vec<Hash>, Vec<u8>),
	Filter(String, usize, [Criterion; 3]),
	Construct(Vec<u8>, Vec<Token>),
	Save,
	Load(Vec<u8>, ReadPlan),
	/// Another contract is loaded, used for one call and dropped.
	Elsewhere(Vec<u8>, Box<Call>),
	FreeEncode(Vec<Token>),
	FreeDecode(Vec<ethabi::ParamType>, Vec<u8>),
	Tokenize(ethabi::ParamType, String, bool),
	Lookup(String, bool),
}

#[derive(Clone, Debug)]
pub enum Criterion {
	Any,
	This(Token),
	OneOf(Vec<Token>),
}

impl Criterion {
	pub fn topic(&self) -> Topic<Token> {
		match self {
			Criterion::Any => Topic::from(None).map(|t| t),
			Criterion::This(t) => Topic::from(Some(t.clone())).map(|t| t),
			Criterion::OneOf(v) => Topic::from(v.clone()).map(|t| t),
		}
	}
}

pub enum Got {
	Bytes(Vec<u8>),
	Text(String),
	Toks(Vec<Token>),
	Log(Vec<(String, Token)>),
	Contract(Box<Contract>),
	Refused(String),
	Panic(String),
}

impl Call {
	pub fn name(&self) -> &'static str {
		match self {
			Call::Encode(..) => "encode_input",
			Call::DecodeOut(..) => "decode_output",
			Call::DecodeIn(..) => "decode_input",
			Call::FuncSig(..) => "Function::signature",
			Call::EventSig(..) => "Event::signature",
			Call::ParseLog(..) => "parse_log",
			Call::Filter(..) => "filter",
			Call::Construct(..) => "Constructor::encode_input",
			Call::Save => "serialise",
			Call::Load(..) => "load",
			Call::Elsewhere(_, c) => c.name(),
			Call::FreeEncode(..) => "encode",
			Call::FreeDecode(..) => "decode",
			Call::Tokenize(..) => "tokenize",
			Call::Lookup(..) => "lookup",
		}
	}
	/// Executes the call in the code under test.
	pub fn run(&self, k: &Contract) -> Got {
		fn go<T>(r: Result<Result<T, String>, String>, f: impl FnOnce(T) -> Got) -> Got {
			match r {
				Err(p) => Got::Panic(p),
				Ok(Err(e)) => Got::Refused(e),
				Ok(Ok(v)) => f(v),
			}
		}
		let es = |e: ethabi::Error| e.to_string();
		match self {
			Call::Encode(n, i, v) => go(
				simrt::lib(|| k.functions_by_name(n).map_err(es).and_then(|f| f[*i].encode_input(v).map_err(es))),
				Got::Bytes,
			),
			Call::DecodeOut(n, i, d) => go(
				simrt::lib(|| k.functions_by_name(n).map_err(es).and_then(|f| f[*i].decode_output(d).map_err(es))),
				Got::Toks,
			),
			Call::DecodeIn(n, i, d) => go(
				simrt::lib(|| k.functions_by_name(n).map_err(es).and_then(|f| f[*i].decode_input(d).map_err(es))),
				Got::Toks,
			),
			Call::FuncSig(n, i) => {
				go(simrt::lib(|| k.functions_by_name(n).map_err(es).map(|f| f[*i].signature())), Got::Text)
			}
			Call::EventSig(n, i) => go(
				simrt::lib(|| k.events_by_name(n).map_err(es).map(|f| f[*i].signature())),
				|h| Got::Bytes(h.as_bytes().to_vec()),
			),
			Call::ParseLog(n, i, t, d) => {
				let raw = RawLog { topics: t.clone(), data: d.clone() };
				go(
					simrt::lib(|| k.events_by_name(n).map_err(es).and_then(|f| f[*i].parse_log(raw).map_err(es))),
					|l| Got::Log(l.params.into_iter().map(|p| (p.name, p.value)).collect()),
				)
			}
			Call::Filter(n, i, c) => {
				let raw = RawTopicFilter { topic0: c[0].topic(), topic1: c[1].topic(), topic2: c[2].topic() };
				go(
					simrt::lib(|| {
						k.events_by_name(n)
							.map_err(es)
							.and_then(|f| f[*i].filter(raw).map_err(es))
							.and_then(|f| bridge::filter_json(&f).map_err(|e| e.to_string()))
					}),
					Got::Text,
				)
			}
			Call::Construct(code, v) => go(
				simrt::lib(|| {
					let c = k.constructor().ok_or("no constructor".to_string())?;
					c.encode_input(code.clone(), v).map_err(es)
				}),
				Got::Bytes,
			),
			Call::Save => go(simrt::lib(|| bridge::save_vec(k).map_err(|e| e.to_string())), Got::Bytes),
			Call::Load(b, plan) => match simcore::stream::load(b, plan, "").0 {
				Err(p) => Got::Panic(p),
				Ok(Err(e)) => Got::Refused(e.to_string()),
				Ok(Ok(c)) => Got::Contract(Box::new(c)),
			},
			Call::Elsewhere(b, call) => match simcore::stream::load(b, &ReadPlan::whole(), "").0 {
				Err(p) => Got::Panic(p),
				Ok(Err(e)) => Got::Refused(e.to_string()),
				Ok(Ok(c)) => call.run(&c),
			},
			Call::FreeEncode(v) => go(simrt::lib(|| Ok(ethabi::encode(v))), Got::Bytes),
			Call::FreeDecode(t, d) => go(simrt::lib(|| ethabi::decode(t, d).map_err(es)), Got::Toks),
			Call::Tokenize(t, s, l) => {
				go(simrt::lib(|| bridge::tokenize(t, s, *l).map_err(es)), |t| Got::Toks(vec![t]))
			}
			Call::Lookup(n, ev) => go(
				simrt::lib(|| {
					if *ev {
						k.events_by_name(n).map(|x| x.len()).map_err(es)
					} else {
						k.functions_by_name(n).map(|x| x.len()).map_err(es)
					}
				}),
				|n| Got::Text(n.to_string()),
			),
		}
	}
	pub fn check(&self, k: &Contract, m: &MContract, want: &Want, got: Got) -> Res {
		let what = self.name();
		match (want, got) {
			(_, Got::Panic(p)) => violation("panic", format!("{} panicked: {} in {:?}", what, p, self)),
			(Want::Refused, Got::Refused(_)) => Ok(()),
			(Want::Refused, _) => violation("accepted", format!("{} was not refused: {:?}", what, self)),
			(Want::Judge(t, d), Got::Toks(v)) => wire::judge(t, d, None, Ok(Ok(v)), what),
			(Want::Judge(..), Got::Refused(_)) => Ok(()),
			(_, Got::Refused(e)) => violation("refused", format!("{} was refused: {} in {:?}", what, e, self)),
			(Want::Bytes(w), Got::Bytes(g)) if *w == g => Ok(()),
			(Want::Bytes(w), Got::Bytes(g)) => {
				violation("wrong-value", format!("{} gave {} instead of {} in {:?}", what, wire::clip_hex(&g), wire::clip_hex(w), self))
			}
			(Want::Text(w), Got::Text(g)) if *w == g => Ok(()),
			(Want::Text(w), Got::Text(g)) => violation("wrong-value", format!("{} gave {} instead of {} in {:?}", what, g, w, self)),
			(Want::Vals(w), Got::Toks(g)) => {
				let g = from_tokens(&g);
				if all_match(&g, w) {
					Ok(())
				} else {
					violation("wrong-value", format!("{} gave {} instead of {} in {:?}", what, show_all(&g), show_all(w), self))
				}
			}
			(Want::Log(w), Got::Log(g)) => {
				let same = w.len() == g.len() && w.iter().zip(&g).all(|(w, g)| w.0 == g.0 && matches(&from_token(&g.1), &w.1));
				if same {
					Ok(())
				} else {
					violation("wrong-value", format!("{} gave {:?} instead of {:?}", what, g, w))
				}
			}
			(Want::Contract, Got::Contract(c)) => match compare(&c, m) {
				Ok(()) if *c == *k => Ok(()),
				Ok(()) => violation("wrong-value", "a load gave an unequal contract"),
				Err(e) => violation("wrong-value", format!("a load gave the wrong contract: {}", e)),
			},
			(Want::Contract, Got::Bytes(b)) => match simrt::lib(|| bridge::from_slice(&b)) {
				Ok(Ok(c)) if c == *k => Ok(()),
				Ok(Ok(c)) => violation("wrong-value", format!("serialising gave another contract: {:?}", compare(&c, m).err())),
				Ok(Err(e)) => violation("wrong-value", format!("serialising gave an unreadable document: {}", e)),
				Err(p) => violation("panic", p),
			},
			_ => violation("harness", format!("{} gave an unexpected kind of result", what)),
		}
	}
}

/// What a node logs for the event: topics and data.
pub fn emit(e: &MEvent, vals: &[MVal]) -> (Vec<[u8; 32]>, Vec<u8>) {
	let mut topics = vec![];
	if !e.anonymous {
		topics.push(e.topic0());
	}
	let mut data = vec![];
	for (p, v) in e.inputs.iter().zip(vals) {
		if p.ix() {
			topics.push(codec::topic(v));
		} else {
			data.push(v.clone());
		}
	}
	(topics, codec::encode(&data))
}

/// What reading that log gives.
pub fn log_vals(e: &MEvent, vals: &[MVal]) -> Vec<(String, MVal)> {
	e.inputs
		.iter()
		.zip(vals)
		.map(|(p, v)| {
			let v = if p.ix() && !p.ty.is_value_type() { MVal::FixedBytes(codec::topic(v).to_vec()) } else { v.clone() };
			(p.name.clone(), v)
		})
		.collect()
}

pub fn hash_of(t: &[u8; 32]) -> Hash {
	Hash::from_slice(t)
}

/// The JSON form of a filter by the specification.
pub fn filter_text(e: &MEvent, crit: &[Vec<MVal>; 3], kinds: &[u8; 3]) -> String {
	let mut out: Vec<String> = vec![];
	if !e.anonymous {
		out.push(format!("\"0x{}\"", hex(&e.topic0())));
	}
	for (vals, kind) in crit.iter().zip(kinds) {
		let one = |v: &MVal| format!("\"0x{}\"", hex(&codec::topic(v)));
		out.push(match kind {
			0 => "null".into(),
			1 => one(&vals[0]),
			_ => format!("[{}]", vals.iter().map(one).collect::<Vec<_>>().join(",")),
		});
	}
	if e.anonymous {
		out.push("null".into());
	}
	format!("[{}]", out.join(","))
}

fn pick_func<'a>(t: &mut Tape, m: &'a MContract) -> Option<(&'a MFunc, usize)> {
	let v: Vec<&MFunc> = m.funcs().collect();
	if v.is_empty() {
		return None;
	}
	let k = t.below(v.len() as u64) as usize;
	let i = v[..k].iter().filter(|f| f.name == v[k].name).count();
	Some((v[k], i))
}

fn pick_event<'a>(t: &mut Tape, m: &'a MContract) -> Option<(&'a MEvent, usize)> {
	let v: Vec<&MEvent> = m.events().collect();
	if v.is_empty() {
		return None;
	}
	let k = t.below(v.len() as u64) as usize;
	let i = v[..k].iter().filter(|f| f.name == v[k].name).count();
	Some((v[k], i))
}

/// Another contract with entries of the same names, types changed in places.
fn relative(c: &mut Ctx, m: &MContract) -> (MContract, String) {
	let t = &mut c.tape;
	let cfg = DocCfg::draw(t);
	let mut m2 = m.clone();
	for e in m2.entries.iter_mut() {
		if t.chance(1, 2) {
			continue;
		}
		match e {
			Entry::Func(f) => *f = gen_func(t, &cfg, f.name.clone()),
			Entry::Event(v) => {
				// the same parameters, other types; or another event of the name
				if t.chance(1, 2) {
					v.inputs.iter_mut().for_each(|p| p.ty = gen_type(t, &cfg.types));
				} else {
					*v = gen_event(t, &cfg, v.name.clone());
				}
			}
			_ => {}
		}
	}
	if m2.entries.len() > 6 {
		m2.entries.truncate(6);
	}
	let text = to_text(&m2, &Form::plain());
	(m2, text)
}

/// Draws a call and the result it must have.
pub fn draw(c: &mut Ctx, m: &MContract, text: &str) -> (Call, Want) {
	loop {
		let kind = c.tape.weighted(&[5, 2, 4, 2, 2, 2, 4, 1, 4, 2, 1, 1, 2, 2, 2, 2, 1, 2]);
		if kind == 17 {
			// a contract of its own, often with entries that look like those of the shared one
			let (m2, t2) = relative(c, m);
			let (call, want) = draw(c, &m2, &t2);
			return match (&call, &want) {
				(Call::Elsewhere(..), _) | (Call::Save | Call::Load(..), _) => continue,
				_ => (Call::Elsewhere(t2.into_bytes(), Box::new(call)), want),
			};
		}
		let t = &mut c.tape;
		let mut fuel = 40i64;
		return match kind {
			0 | 1 | 2 | 3 | 4 => {
				let Some((f, i)) = pick_func(t, m) else { return free(c) };
				let n = f.name.clone();
				let (it, ot) = (f.in_types(), f.out_types());
				match kind {
					0 => {
						let v = gen_vals(t, &it, &mut fuel);
						let mut w = codec::selector(&f.sig()).to_vec();
						w.extend(codec::encode(&v));
						(Call::Encode(n, i, to_tokens(&v)), Want::Bytes(w))
					}
					1 => {
						let v = gen_vals(t, &it, &mut fuel);
						match wire::wrong_args(t, &it, &v) {
							Some(w) => (Call::Encode(n, i, to_tokens(&w)), Want::Refused),
							None => continue,
						}
					}
					2 => {
						let v = gen_vals(t, &ot, &mut fuel);
						(Call::DecodeOut(n, i, codec::encode(&v)), Want::Vals(v))
					}
					3 => {
						let (types, out) = if t.chance(1, 2) { (ot, true) } else { (it, false) };
						let v = gen_vals(t, &types, &mut fuel);
						let mut d = codec::encode(&v);
						if !out && t.chance(1, 2) {
							return (Call::DecodeIn(n, i, d), Want::Vals(v));
						}
						wire::damage(c, &mut d, 0);
						if wire::too_big(&types, &d) {
							continue;
						}
						let w = Want::Judge(types, d.clone());
						if out {
							(Call::DecodeOut(n, i, d), w)
						} else {
							(Call::DecodeIn(n, i, d), w)
						}
					}
					_ => (Call::FuncSig(n, i), Want::Text(f.full_sig())),
				}
			}
			5 | 6 | 7 | 8 => {
				let Some((e, i)) = pick_event(t, m) else { return free(c) };
				let n = e.name.clone();
				let v = gen_vals(t, &e.types(), &mut fuel);
				match kind {
					5 => (Call::EventSig(n, i), Want::Bytes(e.topic0().to_vec())),
					6 => {
						let (ts, d) = emit(e, &v);
						(Call::ParseLog(n, i, ts.iter().map(hash_of).collect(), d), Want::Log(log_vals(e, &v)))
					}
					7 => {
						let (mut ts, d) = emit(e, &v);
						if e.anonymous || t.chance(1, 2) {
							ts.push(keccak256(b"surplus"));
						} else {
							ts[0][t.below(32) as usize] ^= 1;
						}
						(Call::ParseLog(n, i, ts.iter().map(hash_of).collect(), d), Want::Refused)
					}
					_ => {
						let ix: Vec<(&MEvParam, &MVal)> = e.inputs.iter().zip(&v).filter(|(p, _)| p.ix()).collect();
						let mut crit = [Criterion::Any, Criterion::Any, Criterion::Any];
						let mut vals: [Vec<MVal>; 3] = Default::default();
						let mut kinds = [0u8; 3];
						for (k, (p, v)) in ix.iter().enumerate().take(3) {
							kinds[k] = t.below(3) as u8;
							match kinds[k] {
								0 => {}
								1 => {
									vals[k] = vec![(*v).clone()];
									crit[k] = Criterion::This(to_token(v));
								}
								_ => {
									let n = [1u64, 2, 3, 20][t.weighted(&[5, 5, 5, 1])];
									let mut x: Vec<MVal> = (1..n).map(|_| gen_val(t, &p.ty, &mut 10)).collect();
									x.push((*v).clone());
									crit[k] = Criterion::OneOf(to_tokens(&x));
									vals[k] = x;
								}
							}
						}
						(Call::Filter(n, i, crit), Want::Text(filter_text(e, &vals, &kinds)))
					}
				}
			}
			9 => match m.constructor() {
				None => return free(c),
				Some(ps) => {
					let types: Vec<MType> = ps.iter().map(|p| p.ty.clone()).collect();
					let v = gen_vals(t, &types, &mut fuel);
					let n = t.below(80) as usize;
					let code = t.bytes(n);
					let mut w = code.clone();
					w.extend(codec::encode(&v));
					(Call::Construct(code, to_tokens(&v)), Want::Bytes(w))
				}
			},
			10 => (Call::Save, Want::Contract),
			11 => (Call::Load(text.as_bytes().to_vec(), ReadPlan::arrival(t)), Want::Contract),
			16 => {
				let ev = t.chance(1, 2);
				let names: Vec<String> = if ev { m.events().map(|e| e.name.clone()).collect() } else { m.funcs().map(|e| e.name.clone()).collect() };
				if names.is_empty() || t.chance(1, 4) {
					let n = "noSuchEntry".to_string();
					(Call::Lookup(n, ev), Want::Refused)
				} else {
					let n = t.pick(&names).clone();
					let k = names.iter().filter(|x| **x == n).count();
					(Call::Lookup(n, ev), Want::Text(k.to_string()))
				}
			}
			_ => return free(c),
		};
	}
}

/// A call that needs no contract.
fn free(c: &mut Ctx) -> (Call, Want) {
	loop {
		let t = &mut c.tape;
		let cfg = TypeCfg::draw(t);
		let mut fuel = 40i64;
		return match t.weighted(&[3, 3, 2, 3]) {
			0 => {
				let ty = gen_types(t, &cfg, 4);
				let v = gen_vals(t, &ty, &mut fuel);
				(Call::FreeEncode(to_tokens(&v)), Want::Bytes(codec::encode(&v)))
			}
			1 => {
				let ty = gen_types(t, &cfg, 4);
				let v = gen_vals(t, &ty, &mut fuel);
				(Call::FreeDecode(ty.iter().map(to_kind).collect(), codec::encode(&v)), Want::Vals(v))
			}
			2 => {
				let ty = gen_types(t, &cfg, 4);
				let v = gen_vals(t, &ty, &mut fuel);
				let mut d = codec::encode(&v);
				wire::damage(c, &mut d, 0);
				if wire::too_big(&ty, &d) {
					continue;
				}
				(Call::FreeDecode(ty.iter().map(to_kind).collect(), d.clone()), Want::Judge(ty, d))
			}
			_ => {
				let ty = gen_type(t, &cfg);
				let v = gen_val(t, &ty, &mut fuel);
				let lenient = t.chance(1, 2);
				match simcore::text::arg(t, &v, lenient) {
					Some(s) => (Call::Tokenize(to_kind(&ty), s, lenient), Want::Vals(vec![v])),
					None => continue,
				}
			}
		};
	}
}

/// A long past: hundreds of calls on one thread before what the run is about, many of them refused;
/// a few over and over, or each different. Those of interest are checked, too.
pub fn past(c: &mut Ctx, m: &MContract, text: &str, k: &Contract, of_interest: fn(&Call) -> bool) -> Res {
	if !c.tape.chance(1, 120) {
		return Ok(());
	}
	let n = [80usize, 300, 1100][c.tape.weighted(&[3, 3, 1])];
	let few = c.tape.chance(1, 2);
	let distinct = if few { 1 + c.tape.below(30) as usize } else { n };
	let mut wide = None;
	if !few && c.tape.chance(1, 2) {
		// a contract with many entries
		let mut cfg = DocCfg::draw(&mut c.tape);
		cfg.types.depth = cfg.types.depth.min(2);
		let mut m2 = MContract { entries: vec![] };
		enlarge(&mut c.tape, &cfg, &mut m2, 60_000);
		let t2 = to_text(&m2, &Form::plain());
		match simrt::lib(|| Contract::load(t2.as_bytes())) {
			Ok(Ok(k2)) => wide = Some((m2, t2, k2)),
			Ok(Err(e)) => return violation("refused", format!("valid document refused: {} on {}", e, crate::load::clip(&t2))),
			Err(p) => return violation("panic", format!("loading panicked: {}", p)),
		}
	}
	let (m, text, k) = match &wide {
		Some((m, t, k)) => (m, t.as_str(), k),
		None => (m, text, k),
	};
	c.probe("long_past");
	ev!(c, "a past of {} calls, {} different ones", n, distinct);
	let from = simrt::edge::steps();
	let mut pool = vec![];
	let mut r = Rng::new(c.tape.word());
	for i in 0..n {
		if simrt::edge::steps() - from > 60_000_000 {
			break;
		}
		if pool.len() < distinct {
			pool.push(draw(c, m, text));
		}
		let at = if few { r.below(pool.len() as u64) as usize } else { i };
		let (call, want) = &pool[at];
		let got = call.run(k);
		if of_interest(call) {
			if let Err(mut e) = call.check(k, m, want, got) {
				e.detail = format!("after {} earlier calls: {}", i, e.detail);
				return Err(e);
			}
		}
	}
	Ok(())
}
