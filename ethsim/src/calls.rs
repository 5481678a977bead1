//! C06: callers and a node exchanging contract calls over a faulty link.
use crate::load::{clip, draw_doc_with, ev_doc, load_in, Need};
use crate::net::{Kernel, Weather};
use crate::wire::{self, Res};
use crate::ops::Call;
use ethabi::Contract;
use simcore::adapt::*;
use simcore::codec;
use simcore::doc::*;
use simcore::mty::*;
use simcore::stream::ReadPlan;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Violation};

#[derive(Clone)]
enum Ev {
	/// A caller starts (or retries) call `.0`.
	Issue(usize),
	Request { call: usize, data: Vec<u8>, intact: bool },
	Response { call: usize, data: Vec<u8>, sent: Option<Vec<MVal>> },
	Crash(usize),
}

struct Pending {
	client: usize,
	func: usize,
	overload: usize,
	args: Vec<MVal>,
	request: Option<Vec<u8>>,
	done: bool,
	tries: u32,
}

pub fn reload(c: &mut Ctx, text: &[u8], m: &MContract) -> Result<Contract, Violation> {
	match load_in(c, text, &ReadPlan::whole(), "").0 {
		Ok(Ok(x)) => match compare(&x, m) {
			Ok(()) => Ok(x),
			Err(e) => violation("wrong-contract", format!("{} on {}", e, clip(&String::from_utf8_lossy(text)))),
		},
		Ok(Err(e)) => violation("refused", format!("valid document refused: {} on {}", e, clip(&String::from_utf8_lossy(text)))),
		Err(p) => violation("panic", format!("loading panicked: {}", p)),
	}
}

fn func<'a>(k: &'a Contract, name: &str, i: usize) -> Result<&'a ethabi::Function, Violation> {
	match k.functions_by_name(name) {
		Ok(v) if i < v.len() => Ok(&v[i]),
		_ => violation("wrong-contract", format!("function {:?} (overload {}) is missing", name, i)),
	}
}

pub fn c06(c: &mut Ctx) -> Res {
	let (m, text) = draw_doc_with(c, Need::Func);
	let funcs: Vec<&MFunc> = m.funcs().collect();
	ev!(c, "document {} entries", m.entries.len());
	ev_doc(c, &text);
	let overload = |k: usize| funcs[..k].iter().filter(|f| f.name == funcs[k].name).count();
	let node = reload(c, text.as_bytes(), &m)?;
	let nc = 1 + c.tape.weighted(&[3, 2, 1]);
	let mut clients = vec![];
	for _ in 0..nc {
		clients.push(reload(c, text.as_bytes(), &m)?);
	}
	crate::ops::past(c, &m, &text, &clients[0], |k| matches!(k, Call::Encode(..) | Call::DecodeOut(..) | Call::DecodeIn(..) | Call::Construct(..)))?;
	let w = Weather::draw(c);
	ev!(c, "weather {:?}", w);

	// deployment: code and constructor arguments in one payload
	if let (Some(ps), Some(k)) = (m.constructor(), clients[0].constructor()) {
		let types: Vec<MType> = ps.iter().map(|p| p.ty.clone()).collect();
		let v = gen_vals(&mut c.tape, &types, &mut 60);
		let n = c.tape.below(100) as usize;
		let code = c.tape.bytes(n);
		let mut want = code.clone();
		want.extend(codec::encode(&v));
		c.probe("deployment");
		match simrt::lib(|| k.encode_input(code.clone(), &to_tokens(&v))) {
			Err(p) => return violation("panic", format!("encoding a deployment panicked: {}", p)),
			Ok(Err(e)) => return violation("refused", format!("deployment with {} refused: {}", show_all(&v), e)),
			Ok(Ok(d)) if d == want => {}
			Ok(Ok(d)) => {
				return violation("wrong-bytes", format!("deployment with {} is {} instead of {}", show_all(&v), wire::clip_hex(&d), wire::clip_hex(&want)))
			}
		}
		if let Some(bad) = wire::wrong_args(&mut c.tape, &types, &v) {
			c.fault("wrong_arguments");
			match simrt::lib(|| k.encode_input(code, &to_tokens(&bad))) {
				Err(p) => return violation("panic", format!("encoding a wrong deployment panicked: {}", p)),
				Ok(Ok(_)) => return violation("accepted", format!("deployment arguments {} accepted for {:?}", show_all(&bad), types)),
				Ok(Err(_)) => {}
			}
		}
	}
	if funcs.is_empty() {
		c.trivial = true;
		return Ok(());
	}

	let mut kern: Kernel<Ev> = Kernel::new();
	let ncalls = 1 + c.tape.weighted(&[2, 3, 3, 2, 1, 1, 1]);
	let mut calls: Vec<Pending> = vec![];
	for i in 0..ncalls {
		let f = c.tape.below(funcs.len() as u64) as usize;
		let types = funcs[f].in_types();
		let mut args = gen_vals(&mut c.tape, &types, &mut 60);
		if c.tape.chance(1, 6000) && huge(&mut c.tape, &mut args) {
			c.probe("over_16_megabytes");
		}
		let client = c.tape.below(nc as u64) as usize;
		calls.push(Pending { client, func: f, overload: overload(f), args, request: None, done: false, tries: 0 });
		let at = c.tape.below(50_000);
		kern.at(at, Ev::Issue(i));
		if w.crash > 0 && c.tape.chance(w.crash, 16) {
			let at = c.tape.below(w.until);
			kern.at(at, Ev::Crash(client));
		}
	}
	let mut damaged = 0u64;
	let mut accepted_damage = 0u64;
	while let Some(e) = kern.next() {
		if kern.handled > 4000 {
			return violation("no-progress", "the exchange did not come to an end");
		}
		match e {
			Ev::Crash(k) => {
				// the caller's process restarts; its pending calls are durable, its contract is not
				c.fault("crash_restart");
				ev!(c, "t={} client {} restarts", kern.now, k);
				clients[k] = reload(c, text.as_bytes(), &m)?;
			}
			Ev::Issue(i) => {
				let p = &mut calls[i];
				if p.done {
					continue;
				}
				p.tries += 1;
				let f = funcs[p.func];
				let lf = func(&clients[p.client], &f.name, p.overload)?;
				if p.tries == 1 && c.tape.chance(1, 3) {
					// a mistaken call first: nothing may be sent
					if let Some(bad) = wire::wrong_args(&mut c.tape, &f.in_types(), &p.args) {
						c.fault("wrong_arguments");
						match simrt::lib(|| lf.encode_input(&to_tokens(&bad))) {
							Err(p) => return violation("panic", format!("encoding wrong arguments panicked: {}", p)),
							Ok(Ok(_)) => {
								return violation("accepted", format!("arguments {} accepted by {}", show_all(&bad), f.sig()));
							}
							Ok(Err(_)) => {}
						}
					}
				}
				if p.tries == 1 && c.tape.chance(1, 6) {
					// bytes too short for their bytesN: refused, or padded to it
					if let Some((MVal::Tuple(short), MVal::Tuple(full))) = wire::shortened(&mut c.tape, &MVal::Tuple(p.args.clone())) {
						c.probe("short_fixed_bytes");
						match simrt::lib(|| lf.encode_input(&to_tokens(&short))) {
							Err(p) => return violation("panic", format!("encoding short arguments panicked: {}", p)),
							Ok(Ok(d)) if d[4..] != codec::encode(&full) => {
								return violation("wrong-bytes", format!("call of {} with {} is {} instead of refused or padded", f.sig(), show_all(&short), wire::clip_hex(&d)));
							}
							_ => {}
						}
					}
				}
				let mut want = codec::selector(&f.sig()).to_vec();
				want.extend(codec::encode(&p.args));
				let d = match simrt::lib(|| lf.encode_input(&to_tokens(&p.args))) {
					Err(x) => return violation("panic", format!("encoding a call of {} panicked: {}", f.sig(), x)),
					Ok(Err(e)) => return violation("refused", format!("call of {} with {} refused: {}", f.sig(), show_all(&p.args), e)),
					Ok(Ok(d)) => d,
				};
				if d != want {
					return violation("wrong-bytes", format!("call of {} with {} is {} instead of {}", f.sig(), show_all(&p.args), wire::clip_hex(&d), wire::clip_hex(&want)));
				}
				match &p.request {
					Some(r) if *r != d => return violation("wrong-bytes", format!("the retried call of {} differs from the first", f.sig())),
					_ => p.request = Some(d.clone()),
				}
				ev!(c, "t={} client {} sends call {} of {} ({} bytes, try {})", kern.now, p.client, i, f.sig(), d.len(), p.tries);
				let timeout = 20_000 * (1 + p.tries.min(4) as u64);
				kern.at(timeout, Ev::Issue(i));
				kern.send(c, &w, "request", Ev::Request { call: i, data: d, intact: true });
			}
			Ev::Request { call, mut data, intact } => {
				let mut intact = intact;
				if w.roll(c, kern.now, w.damage) {
					// corrupted on the way, either the arguments or anything
					let base = if c.tape.chance(3, 4) { 4 } else { 0 };
					let before = data.clone();
					let was4 = data[..4].to_vec();
					wire::damage(c, &mut data, base);
					if base == 4 && data.len() >= 4 && c.tape.chance(3, 4) {
						data[..4].copy_from_slice(&was4);
					}
					intact = data == before;
					damaged += 1;
				}
				if data.len() < 4 {
					ev!(c, "t={} node drops a request without a selector", kern.now);
					continue;
				}
				let orig = calls[call].func;
				// the node dispatches on the selector
				let Some(k) = (0..funcs.len()).find(|k| codec::selector(&funcs[*k].sig()) == data[..4]) else {
					ev!(c, "t={} node knows no such selector", kern.now);
					continue;
				};
				let types = funcs[k].in_types();
				let sent = if intact && funcs[k].sig() == funcs[orig].sig() { Some(calls[call].args.as_slice()) } else { None };
				if sent.is_none() && wire::too_big(&types, &data[4..]) {
					continue;
				}
				let lf = func(&node, &funcs[k].name, overload(k))?;
				let got = simrt::lib(|| lf.decode_input(&data[4..]));
				let ok = matches!(got, Ok(Ok(_)));
				ev!(c, "t={} node reads call {} intact {} accepted {}", kern.now, call, intact, ok);
				wire::judge(&types, &data[4..], sent, got, "a request")?;
				if !intact {
					accepted_damage += ok as u64;
				}
				if !ok || !intact {
					continue;
				}
				// executed: the response follows the declared outputs of the function called
				let out = funcs[orig].out_types();
				let mut vals = gen_vals(&mut c.tape, &out, &mut 60);
				if c.tape.chance(1, 6000) && huge(&mut c.tape, &mut vals) {
					c.probe("over_16_megabytes");
				}
				let d = codec::encode(&vals);
				kern.send(c, &w, "response", Ev::Response { call, data: d, sent: Some(vals) });
			}
			Ev::Response { call, mut data, sent } => {
				let mut sent = sent;
				if w.roll(c, kern.now, w.damage) {
					let before = data.clone();
					wire::damage(c, &mut data, 0);
					if data != before {
						sent = None;
						damaged += 1;
					}
				}
				let p = &mut calls[call];
				let f = funcs[p.func];
				let types = f.out_types();
				if sent.is_none() && wire::too_big(&types, &data) {
					continue;
				}
				let lf = func(&clients[p.client], &f.name, p.overload)?;
				let got = simrt::lib(|| lf.decode_output(&data));
				let ok = matches!(got, Ok(Ok(_)));
				ev!(c, "t={} client {} reads the response to call {} intact {} accepted {}", kern.now, p.client, call, sent.is_some(), ok);
				wire::judge(&types, &data, sent.as_deref(), got, "a response")?;
				if sent.is_some() {
					p.done = true;
				} else {
					accepted_damage += ok as u64;
				}
			}
		}
	}
	// the link healed: every call has its answer
	if let Some(i) = calls.iter().position(|p| !p.done) {
		return violation("no-progress", format!("call {} never got an answer after the link healed", i));
	}
	if accepted_damage > 0 {
		c.probe("damaged_but_readable");
	}
	if damaged > accepted_damage {
		c.probe("damaged_and_refused");
	}
	c.now_us = kern.now;
	c.inter.push(kern.order);
	c.trivial = damaged == 0 && kern.handled < 4;
	if c.want_sample {
		c.sample = Some(format!("{} clients, {} calls, {} events, {} damaged payloads", nc, ncalls, kern.handled, damaged));
	}
	Ok(())
}
