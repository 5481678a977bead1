//! C12: compiled bindings against a node, over a link that misbehaves.
#[allow(unused_variables)]
mod glue;
mod v;

use ethabi::{Contract, RawLog, RawTopicFilter};
use ethsim::logs::{damage_topics, near, node_matches, node_reads, read_log, show_log, Pos, Reading};
use ethsim::net::{Kernel, Weather};
use ethsim::ops::{emit, hash_of, log_vals, Criterion};
use ethsim::wire::{self, Res};
use simcore::adapt::*;
use simcore::codec;
use simcore::doc::*;
use simcore::driver::{verif_dir, Prop};
use simcore::json;
use simcore::mty::*;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Violation};
use std::sync::OnceLock;
use v::{Abi, Crit, Decode, EvGlue, FnGlue};

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

struct Bound {
	abi: Abi,
	/// Functions and events in the order of the glue.
	funcs: Vec<MFunc>,
	evs: Vec<MEvent>,
	/// Events listed in the known-findings file are not used.
	live: Vec<usize>,
	ctor: Option<Vec<MType>>,
	dynamic: Contract,
}

static BOUND: OnceLock<Vec<Bound>> = OnceLock::new();

/// `known: property=C12 abi=NAME event=NAME ...` lines of the known-findings file.
fn known() -> Vec<(String, String, String)> {
	let Ok(t) = std::fs::read_to_string(format!("{}/known-findings.txt", verif_dir())) else { return vec![] };
	t.lines()
		.filter(|l| l.starts_with("known: property=C12 "))
		.map(|l| {
			let get = |k: &str| l.split_whitespace().find_map(|w| w.strip_prefix(k)).unwrap_or("").to_string();
			(get("abi="), get("event="), l["known: property=C12 ".len()..].to_string())
		})
		.collect()
}

fn prepare() -> Result<(), String> {
	let known = known();
	let mut all = vec![];
	for abi in glue::abis() {
		let m = json::parse(abi.text.as_bytes()).and_then(|j| interpret(&j)).ok_or(format!("{} is not an ABI", abi.name))?;
		let funcs: Vec<MFunc> = abi.fns.iter().map(|g| m.funcs().find(|f| f.name == g.name).unwrap().clone()).collect();
		let evs: Vec<MEvent> = abi.evs.iter().map(|g| m.events().find(|f| f.name == g.name).unwrap().clone()).collect();
		let mut live = vec![];
		for (i, e) in evs.iter().enumerate() {
			match known.iter().find(|k| k.0 == abi.name && k.1 == e.name) {
				None => live.push(i),
				Some(k) => {
					// exactly the recorded defect: another name, everything else right
					let name = k.2.split('"').nth(1).unwrap_or("").to_string();
					let as_listed = |mut g: ethabi::Event| {
						let renamed = g.name == name;
						g.name = e.name.clone();
						renamed && cmp_event(&g, e).is_ok()
					};
					if simrt::lib(|| as_listed((abi.evs[i].event)())) == Ok(true) {
						println!("KNOWN-FINDING: property=C12 {}", k.2);
					} else {
						live.push(i);
					}
				}
			}
		}
		let ctor = m.constructor().map(|p| p.iter().map(|p| p.ty.clone()).collect());
		let dynamic = Contract::load(abi.text.as_bytes()).map_err(|e| format!("{}: {}", abi.name, e))?;
		all.push(Bound { abi, funcs, evs, live, ctor, dynamic });
	}
	let _ = BOUND.set(all);
	Ok(())
}

#[derive(Clone)]
enum Ev {
	Issue(usize),
	Request(usize),
	Response { call: usize, data: Vec<u8>, sent: Option<Vec<MVal>> },
	Mine,
	Deliver(usize),
	Subscribe(usize),
	Crash,
}

struct Pending {
	func: usize,
	args: Vec<MVal>,
	request: Option<Vec<u8>>,
	/// The decoder handed out with the request; lost in a crash.
	decoder: Option<Decode>,
	done: bool,
	tries: u32,
}

struct Emitted {
	event: usize,
	vals: Vec<MVal>,
	topics: Vec<[u8; 32]>,
	data: Vec<u8>,
	read: bool,
}

struct Sub {
	event: usize,
	crit: Vec<Crit>,
	text: Option<String>,
}

fn lib<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> {
	simrt::lib(f).or_else(|p| violation("panic", format!("{} panicked: {}", what, p)))
}

/// The types of the fields of the log struct.
fn log_types(e: &MEvent) -> Vec<MType> {
	e.inputs.iter().map(|p| if p.ix() && !p.ty.is_value_type() { MType::FixedBytes(32) } else { p.ty.clone() }).collect()
}

fn read(g: &EvGlue, e: &MEvent, topics: &[[u8; 32]], data: &[u8], intact: Option<&[MVal]>) -> Result<bool, Violation> {
	let want = match intact {
		Some(v) => Reading::Exactly(log_vals(e, v)),
		None => read_log(e, topics, data),
	};
	if let Reading::Unbounded = want {
		return Ok(false);
	}
	let raw = RawLog { topics: topics.iter().map(hash_of).collect(), data: data.to_vec() };
	let types = log_types(e);
	let what = || format!("events::{} on {}", g.name, show_log(topics, data));
	match (want, lib(&format!("parse_log of {}", what()), || (g.parse)(&types, raw))?) {
		(_, Err(x)) if intact.is_some() => violation("refused", format!("an undamaged log was refused: {}: {}", x, what())),
		(_, Err(_)) => Ok(false),
		(Reading::Refuse(why), Ok(v)) => violation("accepted", format!("a log was read although {}: {} read as {}", why, what(), show_all(&v))),
		(Reading::Exactly(w), Ok(v)) => {
			let w: Vec<MVal> = w.into_iter().map(|x| x.1).collect();
			if all_match(&v, &w) {
				Ok(true)
			} else {
				violation("wrong-value", format!("{} read as {} instead of {}", what(), show_all(&v), show_all(&w)))
			}
		}
		(Reading::Unbounded, _) => Ok(false),
	}
}

/// Encodes a call through the bindings and compares it with the specification and the dynamic interface.
fn encode(c: &mut Ctx, b: &Bound, g: &FnGlue, f: &MFunc, args: &[MVal]) -> Result<(Vec<u8>, Option<Decode>), Violation> {
	let mut want = codec::selector(&f.sig()).to_vec();
	want.extend(codec::encode(args));
	let what = format!("{}::functions::{} with {}", b.abi.name, g.name, show_all(args));
	let (d, k) = if c.tape.chance(1, 2) {
		let (d, k) = lib(&what, || (g.call)(args))?;
		(d, Some(k))
	} else {
		(lib(&what, || (g.encode)(args))?, None)
	};
	if d != want {
		return violation("wrong-bytes", format!("{} is {} instead of {}", what, wire::clip_hex(&d), wire::clip_hex(&want)));
	}
	let dy = lib("the dynamic interface", || b.dynamic.function(g.name).and_then(|f| f.encode_input(&to_tokens(args))).map_err(|e| e.to_string()))?;
	if dy.as_ref() != Ok(&d) {
		return violation("interfaces-differ", format!("{} is {} but {:?} through the dynamic interface", what, wire::clip_hex(&d), dy.map(|d| wire::clip_hex(&d))));
	}
	Ok((d, k))
}

fn satisfied(s: &Sub, e: &MEvent, vals: &[MVal]) -> bool {
	let ix: Vec<&MVal> = e.inputs.iter().zip(vals).filter(|(p, _)| p.ix()).map(|(_, v)| v).collect();
	s.crit.iter().zip(ix).all(|(c, v)| match c {
		Crit::Any => true,
		Crit::This(w) => codec::topic(w) == codec::topic(v),
		Crit::OneOf(w) => w.iter().any(|w| codec::topic(w) == codec::topic(v)),
	})
}

fn build(b: &Bound, s: &Sub) -> Result<(String, Vec<Pos>), Violation> {
	let g = &b.abi.evs[s.event];
	let e = &b.evs[s.event];
	let what = format!("{}::events::{}::filter with {:?}", b.abi.name, g.name, s.crit);
	let f = lib(&what, || (g.filter)(&s.crit))?;
	if s.crit.iter().all(|c| matches!(c, Crit::Any)) {
		let w = lib("wildcard_filter", || (g.wildcard)())?;
		if w != f {
			return violation("wrong-filter", format!("wildcard_filter of {} is {:?} instead of {:?}", g.name, w, f));
		}
	}
	let t = |k: usize| {
		match s.crit.get(k) {
			None | Some(Crit::Any) => Criterion::Any,
			Some(Crit::This(v)) => Criterion::This(to_token(v)),
			Some(Crit::OneOf(v)) => Criterion::OneOf(to_tokens(v)),
		}
		.topic()
	};
	let raw = RawTopicFilter { topic0: t(0), topic1: t(1), topic2: t(2) };
	let dy = lib("the dynamic interface", || b.dynamic.event(g.name).and_then(|e| e.filter(raw)).map_err(|e| e.to_string()))?;
	if dy.as_ref() != Ok(&f) {
		return violation("interfaces-differ", format!("{} is {:?} but {:?} through the dynamic interface", what, f, dy));
	}
	let t = match lib("serialising a filter", || bridge::filter_json(&f).map_err(|e| e.to_string()))? {
		Ok(t) => t,
		Err(x) => return violation("refused", format!("{}: {}", what, x)),
	};
	match node_reads(&t) {
		Some(p) => Ok((t, p)),
		None => violation("bad-filter", format!("the filter for {} is not a topic filter: {}", e.sig(), t)),
	}
}

fn c12(c: &mut Ctx) -> Res {
	let all = BOUND.get().expect("prepared");
	let b = &all[c.tape.weighted(&[5, 3, 4, 5, 1, 4, 5])];
	debug_assert_eq!(all.len(), 7);
	let w = Weather::draw(c);
	ev!(c, "bindings {} weather {:?}", b.abi.name, w);
	let mut kern: Kernel<Ev> = Kernel::new();
	if let (Some(k), Some(types)) = (b.abi.ctor, &b.ctor) {
		if c.tape.chance(1, 4) {
			let args = gen_vals(&mut c.tape, types, &mut 60);
			let n = c.tape.below(100) as usize;
			let code = c.tape.bytes(n);
			let mut want = code.clone();
			want.extend(codec::encode(&args));
			let what = format!("{}::constructor with {}", b.abi.name, show_all(&args));
			let d = lib(&what, || k(code.clone(), &args))?;
			c.probe("deployment");
			if d != want {
				return violation("wrong-bytes", format!("{} is {} instead of {}", what, wire::clip_hex(&d), wire::clip_hex(&want)));
			}
		}
	}
	let (mut calls, mut chain, mut subs): (Vec<Pending>, Vec<Emitted>, Vec<Sub>) = (vec![], vec![], vec![]);
	if !b.funcs.is_empty() {
		for i in 0..1 + c.tape.weighted(&[2, 3, 2, 1]) {
			let func = c.tape.below(b.funcs.len() as u64) as usize;
			let args = gen_vals(&mut c.tape, &b.funcs[func].in_types(), &mut 60);
			calls.push(Pending { func, args, request: None, decoder: None, done: false, tries: 0 });
			let at = c.tape.below(40_000);
			kern.at(at, Ev::Issue(i));
		}
	}
	// few events and few values, so that logs and criteria meet
	let mut used: Vec<(usize, Vec<Vec<MVal>>)> = vec![];
	if !b.live.is_empty() {
		for _ in 0..1 + c.tape.below(2) {
			let k = *c.tape.pick(&b.live);
			let pools = b.evs[k]
				.inputs
				.iter()
				.map(|p| {
					let n = 1 + c.tape.below(2);
					let mut v: Vec<MVal> = (0..n).map(|_| gen_val(&mut c.tape, &p.ty, &mut 20)).collect();
					if c.tape.chance(1, 3) {
						let x = near(&mut c.tape, &v[0]);
						v.push(x);
					}
					v
				})
				.collect();
			used.push((k, pools));
		}
		for _ in 0..1 + c.tape.weighted(&[2, 3, 2, 1]) {
			let at = c.tape.below(60_000);
			kern.at(at, Ev::Mine);
		}
		for i in 0..1 + c.tape.below(2) as usize {
			let u = c.tape.below(used.len() as u64) as usize;
			let (event, pools) = &used[u];
			let mut crit = vec![];
			for (p, pool) in b.evs[*event].inputs.iter().zip(pools) {
				if p.ix() {
					// a filter can say nothing about a fourth indexed parameter
					let how = if crit.len() == 3 { 0 } else { c.tape.weighted(&[3, 4, 3]) };
					crit.push(match how {
						0 => Crit::Any,
						1 => Crit::This(c.tape.pick(pool).clone()),
						_ => Crit::OneOf((0..1 + c.tape.below(3)).map(|_| c.tape.pick(pool).clone()).collect()),
					});
				}
			}
			subs.push(Sub { event: *event, crit, text: None });
			let at = c.tape.below(50_000);
			kern.at(at, Ev::Subscribe(i));
		}
	}
	if w.crash > 0 && c.tape.chance(w.crash, 8) {
		let at = c.tape.below(w.until);
		kern.at(at, Ev::Crash);
	}
	let (mut damaged, mut accepted) = (0u64, 0u64);
	while let Some(e) = kern.next() {
		if kern.handled > 4000 {
			return violation("no-progress", "the exchange did not come to an end");
		}
		match e {
			Ev::Crash => {
				// what the client's process held is gone
				c.fault("crash_restart");
				ev!(c, "t={} the client restarts", kern.now);
				for p in &mut calls {
					p.decoder = None;
				}
				for i in 0..chain.len() {
					kern.send(c, &w, "replayed log", Ev::Deliver(i));
				}
				for i in 0..subs.len() {
					kern.at(100, Ev::Subscribe(i));
				}
			}
			Ev::Issue(i) => {
				let p = &mut calls[i];
				if p.done {
					continue;
				}
				p.tries += 1;
				let (f, g) = (&b.funcs[p.func], &b.abi.fns[p.func]);
				let (d, k) = encode(c, b, g, f, &p.args)?;
				match &p.request {
					Some(r) if *r != d => return violation("wrong-bytes", format!("the retried call of {} differs from the first", f.sig())),
					_ => p.request = Some(d.clone()),
				}
				if k.is_some() {
					p.decoder = k;
				}
				ev!(c, "t={} call {} of {} ({} bytes, try {})", kern.now, i, f.sig(), d.len(), p.tries);
				kern.at(20_000 * (1 + p.tries.min(4) as u64), Ev::Issue(i));
				kern.send(c, &w, "request", Ev::Request(i));
			}
			Ev::Request(i) => {
				let vals = gen_vals(&mut c.tape, &b.funcs[calls[i].func].out_types(), &mut 60);
				let d = codec::encode(&vals);
				kern.send(c, &w, "response", Ev::Response { call: i, data: d, sent: Some(vals) });
			}
			Ev::Response { call, mut data, mut sent } => {
				if w.roll(c, kern.now, w.damage) {
					let before = data.clone();
					wire::damage(c, &mut data, 0);
					if data != before {
						sent = None;
						damaged += 1;
					}
				}
				let p = &mut calls[call];
				let (f, g) = (&b.funcs[p.func], &b.abi.fns[p.func]);
				let types = f.out_types();
				if sent.is_none() && wire::too_big(&types, &data) {
					continue;
				}
				let got = match &p.decoder {
					Some(k) => {
						c.probe("decoder");
						simrt::lib(|| k(&types, &data))
					}
					None => simrt::lib(|| (g.decode)(&types, &data)),
				};
				let ok = matches!(got, Ok(Ok(_)));
				ev!(c, "t={} response to call {} intact {} accepted {}", kern.now, call, sent.is_some(), ok);
				if types.is_empty() && sent.is_none() {
					// nothing to read, nothing to refuse
					if let Err(p) = got {
						return violation("panic", p);
					}
					continue;
				}
				wire::judge_vals(&types, &data, sent.as_deref(), got, &format!("a response to {}::{}", b.abi.name, g.name))?;
				if sent.is_some() {
					p.done = true;
				} else {
					accepted += ok as u64;
				}
			}
			Ev::Mine => {
				let u = c.tape.below(used.len() as u64) as usize;
				let (k, pools) = &used[u];
				let e = &b.evs[*k];
				let vals: Vec<MVal> = pools
					.iter()
					.zip(&e.inputs)
					.map(|(p, i)| if c.tape.chance(4, 5) { c.tape.pick(p).clone() } else { gen_val(&mut c.tape, &i.ty, &mut 20) })
					.collect();
				let (topics, data) = emit(e, &vals);
				ev!(c, "t={} log {} of {}: {} topics {} bytes", kern.now, chain.len(), e.sig(), topics.len(), data.len());
				chain.push(Emitted { event: *k, vals, topics, data, read: false });
				kern.send(c, &w, "log", Ev::Deliver(chain.len() - 1));
			}
			Ev::Deliver(i) => {
				let l = &chain[i];
				let (e, g) = (&b.evs[l.event], &b.abi.evs[l.event]);
				if w.roll(c, kern.now, w.damage) {
					let (mut topics, mut data) = (l.topics.clone(), l.data.clone());
					for _ in 0..1 + c.tape.below(2) {
						if c.tape.chance(1, 2) {
							damage_topics(c, &mut topics, &b.evs.iter().collect::<Vec<_>>());
						} else {
							wire::damage(c, &mut data, 0);
						}
					}
					damaged += 1;
					let intact = topics == l.topics && data == l.data;
					let ok = read(g, e, &topics, &data, if intact { Some(&l.vals) } else { None })?;
					ev!(c, "t={} log {} damaged, read {}", kern.now, i, ok);
					accepted += ok as u64;
				} else {
					read(g, e, &l.topics, &l.data, Some(&l.vals))?;
					ev!(c, "t={} log {} read", kern.now, i);
					chain[i].read = true;
				}
				let o = *c.tape.pick(&b.live);
				if o != chain[i].event && c.tape.chance(1, 3) {
					c.fault("foreign_log");
					read(&b.abi.evs[o], &b.evs[o], &chain[i].topics, &chain[i].data, None)?;
				}
			}
			Ev::Subscribe(i) => {
				let (t, _) = build(b, &subs[i])?;
				ev!(c, "t={} subscription {} with {}", kern.now, i, t);
				match &subs[i].text {
					Some(x) if *x != t => return violation("unstable-filter", format!("rebuilding the filter gave {} instead of {}", t, x)),
					_ => subs[i].text = Some(t),
				}
			}
		}
	}
	if let Some(i) = calls.iter().position(|p| !p.done) {
		return violation("no-progress", format!("call {} never got an answer after the link healed", i));
	}
	let (mut hit, mut passed) = (0u64, 0u64);
	for l in &chain {
		if !l.read {
			read(&b.abi.evs[l.event], &b.evs[l.event], &l.topics, &l.data, Some(&l.vals))?;
		}
	}
	for s in &subs {
		let (t, f) = build(b, s)?;
		let e = &b.evs[s.event];
		for l in &chain {
			let sel = node_matches(&f, &l.topics);
			if l.event == s.event {
				let want = satisfied(s, e, &l.vals);
				hit += want as u64;
				passed += !want as u64;
				if sel != want {
					return violation("wrong-filter", format!("a log of {} with {} is {}selected by {}", e.sig(), show_all(&l.vals), if sel { "" } else { "not " }, t));
				}
			} else if sel && !e.anonymous && !b.evs[l.event].anonymous {
				return violation("wrong-filter", format!("a log of {} is selected by the filter for {}", b.evs[l.event].sig(), e.sig()));
			}
		}
	}
	for (n, k) in [("damaged_but_readable", accepted), ("damaged_and_refused", damaged.saturating_sub(accepted)), ("log_selected", hit), ("log_passed_over", passed)] {
		if k > 0 {
			c.probe(n);
		}
	}
	c.now_us = kern.now;
	c.inter.push(kern.order);
	c.trivial = kern.handled < 2;
	if c.want_sample {
		c.sample = Some(format!("bindings {}: {} calls, {} logs, {} subscriptions, {} events, {} damaged payloads", b.abi.name, calls.len(), chain.len(), subs.len(), kern.handled, damaged));
	}
	Ok(())
}

fn main() {
	std::process::exit(simcore::driver::main(&[Prop {
		id: "C12",
		run: c12,
		runs: [400_000, 2_000_000],
		cap_s: [70, 800],
		level: "exploration",
		rule: "one run = a client using the compiled bindings of one of six committed ABIs makes calls, reads logs and subscribes over a link that loses, duplicates, delays and corrupts, restarting on the way; non-trivial when at least two events were handled",
		real: &["bindings expanded by the real macro and compiled (instrumented)", "ethabi library (instrumented)"],
		stub: &["link (loss, duplication, delay, partition, corruption)", "node and chain (reference model)", "clock and timers"],
		assumptions: &["the reference encoder and decoder follow the Solidity ABI specification", "the committed ABIs stand for the rest: every elementary type in nine shapes in and out, 40 random functions, 96 events"],
		must: &["message_lost", "message_duplicated", "message_delayed", "truncated", "length_or_offset", "crash_restart", "deployment", "decoder", "damaged_but_readable", "damaged_and_refused", "foreign_log", "topic_lost", "log_selected", "log_passed_over"],
		prepare: Some(prepare),
	}]));
}
