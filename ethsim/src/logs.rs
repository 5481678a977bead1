//! C08: logs delivered to readers; C09: subscriptions with topic filters.
use crate::calls::reload;
use crate::load::{draw_doc_with, ev_doc, Need};
use crate::net::{Kernel, Weather};
use crate::ops::{emit, hash_of, log_vals, Call, Criterion};
use crate::wire::{self, Res};
use ethabi::{Contract, RawLog, RawTopicFilter};
use simcore::adapt::*;
use simcore::codec::{self, DecErr};
use simcore::doc::*;
use simcore::json::{self, J};
use simcore::keccak::keccak256;
use simcore::mty::*;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Violation};

fn event<'a>(k: &'a Contract, m: &[&MEvent], i: usize) -> Result<&'a ethabi::Event, Violation> {
	let n = m[..i].iter().filter(|e| e.name == m[i].name).count();
	match k.events_by_name(&m[i].name) {
		Ok(v) if n < v.len() => Ok(&v[n]),
		_ => violation("wrong-contract", format!("event {:?} (number {}) is missing", m[i].name, n)),
	}
}

pub enum Reading {
	/// Must be refused.
	Refuse(&'static str),
	/// If accepted, exactly this.
	Exactly(Vec<(String, MVal)>),
	Unbounded,
}

/// What the bytes of a log say under an event's definition.
pub fn read_log(e: &MEvent, topics: &[[u8; 32]], data: &[u8]) -> Reading {
	let skip = if e.anonymous {
		0
	} else {
		match topics.first() {
			Some(t) if *t == e.topic0() => 1,
			_ => return Reading::Refuse("the log does not carry the event's topic"),
		}
	};
	let ix: Vec<MType> =
		e.inputs.iter().filter(|p| p.ix()).map(|p| if p.ty.is_value_type() { p.ty.clone() } else { MType::FixedBytes(32) }).collect();
	if topics.len() - skip != ix.len() {
		return Reading::Refuse("the number of topics is not the event's");
	}
	let flat: Vec<u8> = topics[skip..].iter().flatten().copied().collect();
	let Ok(tv) = codec::decode(&ix, &flat, wire::FUEL).0 else { return Reading::Refuse("the topics do not hold the values") };
	let dt: Vec<MType> = e.inputs.iter().filter(|p| !p.ix()).map(|p| p.ty.clone()).collect();
	let dv = match codec::decode(&dt, data, wire::FUEL).0 {
		Ok(v) => v,
		Err(DecErr::Invalid) => return Reading::Refuse("the data do not hold the values"),
		Err(DecErr::TooBig) => return Reading::Unbounded,
	};
	let (mut tv, mut dv) = (tv.into_iter(), dv.into_iter());
	Reading::Exactly(
		e.inputs.iter().map(|p| (p.name.clone(), if p.ix() { tv.next().unwrap() } else { dv.next().unwrap() })).collect(),
	)
}

pub fn show_log(topics: &[[u8; 32]], data: &[u8]) -> String {
	format!("topics [{}] data {}", topics.iter().map(|t| hex(t)).collect::<Vec<_>>().join(" "), wire::clip_hex(data))
}

/// Has the library read the log, and judges the result. `intact`: what was emitted.
fn check_log(e: &MEvent, le: &ethabi::Event, topics: &[[u8; 32]], data: &[u8], intact: Option<Vec<(String, MVal)>>) -> Result<bool, Violation> {
	let want = match intact {
		Some(v) => (true, Reading::Exactly(v)),
		None => (false, read_log(e, topics, data)),
	};
	if let Reading::Unbounded = want.1 {
		return Ok(false);
	}
	let raw = RawLog::from((topics.iter().map(hash_of).collect(), data.to_vec()));
	let what = || format!("event {}{} on {}", e.sig(), if e.anonymous { " (anonymous)" } else { "" }, show_log(topics, data));
	let got = match simrt::lib(|| le.parse_log(raw)) {
		Err(p) => return violation("panic", format!("reading a log panicked: {}: {}", p, what())),
		Ok(g) => g,
	};
	match (want, got) {
		((true, _), Err(e)) => violation("refused", format!("an undamaged log was refused: {}: {}", e, what())),
		((false, _), Err(_)) => Ok(false),
		((_, Reading::Refuse(why)), Ok(l)) => violation("accepted", format!("a log was read although {}: {} read as {:?}", why, what(), l)),
		((_, Reading::Exactly(v)), Ok(l)) => {
			let same = l.params.len() == v.len()
				&& l.params.iter().zip(&v).all(|(g, w)| g.name == w.0 && matches(&from_token(&g.value), &w.1));
			if same {
				Ok(true)
			} else {
				violation(
					"wrong-value",
					format!(
						"{} read as {} instead of {}",
						what(),
						l.params.iter().map(|p| format!("{}={}", p.name, show(&from_token(&p.value)))).collect::<Vec<_>>().join(", "),
						v.iter().map(|p| format!("{}={}", p.0, show(&p.1))).collect::<Vec<_>>().join(", ")
					),
				)
			}
		}
		_ => Ok(false),
	}
}

#[derive(Clone)]
struct Emitted {
	event: usize,
	vals: Vec<MVal>,
	topics: Vec<[u8; 32]>,
	data: Vec<u8>,
}

pub fn damage_topics(c: &mut Ctx, topics: &mut Vec<[u8; 32]>, all: &[&MEvent]) {
	let n = topics.len() as u64;
	match c.tape.weighted(&[3, 3, 2, 3, 2, 2]) {
		0 if n > 0 => {
			let k = c.tape.below(n) as usize;
			topics.remove(k);
			c.fault("topic_lost");
		}
		1 => {
			let k = c.tape.below(n + 1) as usize;
			let t = if n > 0 && c.tape.chance(1, 2) { topics[c.tape.below(n) as usize] } else { keccak256(b"surplus") };
			topics.insert(k, t);
			c.fault("topic_added");
		}
		2 if n > 1 => {
			let (a, b) = (c.tape.below(n) as usize, c.tape.below(n) as usize);
			topics.swap(a, b);
			c.fault("topics_swapped");
		}
		3 if n > 0 => {
			let k = c.tape.below(n) as usize;
			let i = c.tape.below(32) as usize;
			topics[k][i] ^= 1 << c.tape.below(8);
			c.fault("topic_corrupted");
		}
		4 if n > 0 => {
			let e = all[c.tape.below(all.len() as u64) as usize];
			topics[0] = e.topic0();
			c.fault("foreign_topic");
		}
		_ => {
			topics.clear();
			c.fault("topics_cleared");
		}
	}
}

#[derive(Clone)]
enum LEv {
	Mine,
	Deliver { reader: usize, log: usize },
	Crash(usize),
}

pub fn c08(c: &mut Ctx) -> Res {
	let (m, text) = draw_doc_with(c, Need::Event);
	let evs: Vec<&MEvent> = m.events().collect();
	ev!(c, "document {} entries, {} events", m.entries.len(), evs.len());
	ev_doc(c, &text);
	if evs.is_empty() {
		c.trivial = true;
		return Ok(());
	}
	let nr = 1 + c.tape.weighted(&[3, 2]);
	let mut readers = vec![];
	for _ in 0..nr {
		readers.push(reload(c, text.as_bytes(), &m)?);
	}
	crate::ops::past(c, &m, &text, &readers[0], |k| matches!(k, Call::ParseLog(..)))?;
	let w = Weather::draw(c);
	ev!(c, "weather {:?}", w);
	let mut kern: Kernel<LEv> = Kernel::new();
	let mut chain: Vec<Emitted> = vec![];
	let nlogs = 1 + c.tape.weighted(&[2, 3, 3, 2, 1, 1, 1, 1]);
	for _ in 0..nlogs {
		let at = c.tape.below(60_000);
		kern.at(at, LEv::Mine);
	}
	for r in 0..nr {
		if w.crash > 0 && c.tape.chance(w.crash, 16) {
			let at = c.tape.below(w.until);
			kern.at(at, LEv::Crash(r));
		}
	}
	let mut seen: Vec<Vec<u32>> = vec![vec![]; nr];
	let mut damaged = 0u64;
	while let Some(e) = kern.next() {
		match e {
			LEv::Mine => {
				let k = c.tape.below(evs.len() as u64) as usize;
				let vals = gen_vals(&mut c.tape, &evs[k].types(), &mut 60);
				let (topics, data) = emit(evs[k], &vals);
				ev!(c, "t={} log {} of {}: {} topics {} bytes", kern.now, chain.len(), evs[k].sig(), topics.len(), data.len());
				chain.push(Emitted { event: k, vals, topics, data });
				for r in 0..nr {
					seen[r].push(0);
					kern.send(c, &w, "log", LEv::Deliver { reader: r, log: chain.len() - 1 });
				}
			}
			LEv::Crash(r) => {
				c.fault("crash_restart");
				readers[r] = reload(c, text.as_bytes(), &m)?;
				// after the restart everything is delivered again
				ev!(c, "t={} reader {} restarts and replays {} logs", kern.now, r, chain.len());
				for log in 0..chain.len() {
					kern.send(c, &w, "replayed log", LEv::Deliver { reader: r, log });
				}
			}
			LEv::Deliver { reader, log } => {
				let l = chain[log].clone();
				let k = &readers[reader];
				let e = evs[l.event];
				if w.roll(c, kern.now, w.damage) {
					let (mut topics, mut data) = (l.topics.clone(), l.data.clone());
					let n = 1 + c.tape.below(2);
					for _ in 0..n {
						if c.tape.chance(1, 2) {
							damage_topics(c, &mut topics, &evs);
						} else {
							wire::damage(c, &mut data, 0);
						}
					}
					damaged += 1;
					let intact = topics == l.topics && data == l.data;
					let want = if intact { Some(log_vals(e, &l.vals)) } else { None };
					let ok = check_log(e, event(k, &evs, l.event)?, &topics, &data, want)?;
					ev!(c, "t={} reader {} log {} damaged, read {}", kern.now, reader, log, ok);
					c.probe(if ok { "damaged_but_readable" } else { "damaged_and_refused" });
				} else {
					check_log(e, event(k, &evs, l.event)?, &l.topics, &l.data, Some(log_vals(e, &l.vals)))?;
					seen[reader][log] += 1;
					ev!(c, "t={} reader {} log {} read", kern.now, reader, log);
				}
				// the same log under another event's definition
				if evs.len() > 1 && c.tape.chance(1, 2) {
					let o = c.tape.below(evs.len() as u64) as usize;
					if o != l.event {
						c.fault("foreign_log");
						check_log(evs[o], event(k, &evs, o)?, &l.topics, &l.data, None)?;
					}
				}
			}
		}
		if kern.handled > 4000 {
			return violation("no-progress", "the delivery did not come to an end");
		}
	}
	// the link is good now: the node sends everything once more and everything is read
	for r in 0..nr {
		for (i, l) in chain.iter().enumerate() {
			if seen[r][i] == 0 {
				c.probe("late_catch_up");
				check_log(evs[l.event], event(&readers[r], &evs, l.event)?, &l.topics, &l.data, Some(log_vals(evs[l.event], &l.vals)))?;
			}
		}
	}
	c.now_us = kern.now;
	c.inter.push(kern.order);
	c.trivial = kern.handled <= nlogs as u64;
	if c.want_sample {
		c.sample = Some(format!("{} readers, {} logs, {} deliveries, {} damaged", nr, nlogs, kern.handled, damaged));
	}
	Ok(())
}

// ---- C09 -------------------------------------------------------------------------------------

/// A topic position of a filter in its JSON form.
#[derive(Debug, PartialEq, Clone)]
pub enum Pos {
	Any,
	Of(Vec<[u8; 32]>),
}

fn topic_text(s: &str) -> Option<[u8; 32]> {
	let h = s.strip_prefix("0x")?;
	if h.len() != 64 || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
		return None;
	}
	let mut t = [0u8; 32];
	for i in 0..32 {
		t[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()?;
	}
	Some(t)
}

/// The node's reading of the filter; `None` if the node would reject the request.
pub fn node_reads(text: &str) -> Option<Vec<Pos>> {
	let J::Arr(v) = json::parse(text.as_bytes())? else { return None };
	if v.len() > 4 {
		return None;
	}
	v.iter()
		.map(|p| match p {
			J::Null => Some(Pos::Any),
			J::Str(s) => Some(Pos::Of(vec![topic_text(s)?])),
			J::Arr(x) => x
				.iter()
				.map(|s| if let J::Str(s) = s { topic_text(s) } else { None })
				.collect::<Option<Vec<_>>>()
				.map(|v| if v.is_empty() { Pos::Any } else { Pos::Of(v) }),
			_ => None,
		})
		.collect()
}

pub fn node_matches(f: &[Pos], topics: &[[u8; 32]]) -> bool {
	f.iter().enumerate().all(|(i, p)| match p {
		Pos::Any => true,
		Pos::Of(v) => matches!(topics.get(i), Some(t) if v.contains(t)),
	})
}

#[derive(Clone)]
struct Block {
	logs: Vec<Emitted>,
}

#[derive(Clone)]
enum SEv {
	Mine,
	Reorg,
	Subscribe(usize),
	Notify { sub: usize, block: u64, log: usize },
	Crash(usize),
}

struct Sub {
	event: usize,
	kinds: [u8; 3],
	vals: [Vec<MVal>; 3],
	/// The JSON form first sent, and the node's reading of it.
	text: Option<String>,
	active: Option<Vec<Pos>>,
	heard: Vec<(u64, usize)>,
}

impl Sub {
	fn raw(&self) -> RawTopicFilter {
		let t = |k: usize| {
			match self.kinds[k] {
				0 => Criterion::Any,
				1 => Criterion::This(to_token(&self.vals[k][0])),
				_ => Criterion::OneOf(to_tokens(&self.vals[k])),
			}
			.topic()
		};
		RawTopicFilter { topic0: t(0), topic1: t(1), topic2: t(2) }
	}
	/// Whether the log's indexed values satisfy the criteria.
	fn satisfied(&self, e: &MEvent, vals: &[MVal]) -> bool {
		let ix: Vec<&MVal> = e.inputs.iter().zip(vals).filter(|(p, _)| p.ix()).map(|(_, v)| v).collect();
		(0..3).all(|k| self.kinds[k] == 0 || self.vals[k].iter().any(|w| codec::topic(w) == codec::topic(ix[k])))
	}
}

fn build(k: &Contract, evs: &[&MEvent], s: &Sub) -> Result<String, Violation> {
	let le = event(k, evs, s.event)?;
	let e = evs[s.event];
	match simrt::lib(|| le.filter(s.raw()).map_err(|e| e.to_string()).and_then(|f| bridge::filter_json(&f).map_err(|e| e.to_string()))) {
		Err(p) => violation("panic", format!("building a filter for {} panicked: {}", e.sig(), p)),
		Ok(Err(x)) => violation("refused", format!("filter for {} with {:?} {:?} refused: {}", e.sig(), s.kinds, s.vals, x)),
		Ok(Ok(t)) => Ok(t),
	}
}

/// Criteria that do not fit the event must be refused.
fn misfits(c: &mut Ctx, k: &Contract, evs: &[&MEvent], s: &Sub) -> Res {
	let e = evs[s.event];
	let le = event(k, evs, s.event)?;
	let ix: Vec<&MEvParam> = e.inputs.iter().filter(|p| p.ix()).collect();
	let mut crit = [Criterion::Any, Criterion::Any, Criterion::Any];
	let at = c.tape.below(3) as usize;
	let what;
	if at >= ix.len() {
		// a parameter the event does not index
		let tok = match e.inputs.iter().find(|p| !p.ix()) {
			Some(p) if c.tape.chance(1, 2) => to_token(&gen_val(&mut c.tape, &p.ty, &mut 10)),
			_ => ethabi::Token::Bool(true),
		};
		what = format!("a criterion for position {} of an event with {} indexed parameters", at, ix.len());
		crit[at] = if c.tape.chance(1, 2) { Criterion::This(tok) } else { Criterion::OneOf(vec![tok]) };
		c.fault("criterion_for_unindexed");
	} else {
		let good = gen_val(&mut c.tape, &ix[at].ty, &mut 20);
		let Some(bad) = wire::wrong_args(&mut c.tape, &[ix[at].ty.clone()], &[good.clone()]) else { return Ok(()) };
		if bad.len() != 1 {
			return Ok(());
		}
		what = format!("the criterion {} for a {}", show(&bad[0]), ix[at].ty.canonical());
		let bad = to_token(&bad[0]);
		crit[at] = match c.tape.below(3) {
			0 => Criterion::This(bad),
			1 => Criterion::OneOf(vec![to_token(&good), bad]),
			_ => Criterion::OneOf(vec![bad, to_token(&good)]),
		};
		c.fault("criterion_of_wrong_type");
	}
	// bytes too short for their bytesN: refused, or the same as padded
	if at < ix.len() {
		let good = gen_val(&mut c.tape, &ix[at].ty, &mut 20);
		if let Some((short, full)) = wire::shortened(&mut c.tape, &good) {
			c.probe("short_fixed_bytes");
			let mut one = [Criterion::Any, Criterion::Any, Criterion::Any];
			one[at] = Criterion::This(to_token(&short));
			let raw = RawTopicFilter { topic0: one[0].topic(), topic1: one[1].topic(), topic2: one[2].topic() };
			match simrt::lib(|| le.filter(raw)) {
				Err(p) => return violation("panic", format!("the criterion {} panicked: {} in {}", show(&short), p, e.sig())),
				Ok(Ok(f)) => {
					let t = match [&f.topic0, &f.topic1, &f.topic2, &f.topic3][at + !e.anonymous as usize] {
						ethabi::Topic::This(t) => t.as_bytes().to_vec(),
						x => return violation("bad-filter", format!("the criterion {} became {:?}", show(&short), x)),
					};
					if t != codec::topic(&full) {
						return violation("bad-filter", format!("the criterion {} for {} of {} is neither refused nor padded: {}", show(&short), ix[at].ty.canonical(), e.sig(), hex(&t)));
					}
				}
				Ok(Err(_)) => {}
			}
		}
	}
	let raw = RawTopicFilter { topic0: crit[0].topic(), topic1: crit[1].topic(), topic2: crit[2].topic() };
	match simrt::lib(|| le.filter(raw)) {
		Err(p) => violation("panic", format!("{} panicked: {} in {}", what, p, e.sig())),
		Ok(Ok(f)) => violation("accepted", format!("{} was accepted for {}: {:?}", what, e.sig(), f)),
		Ok(Err(_)) => Ok(()),
	}
}

pub fn c09(c: &mut Ctx) -> Res {
	let (m, text) = draw_doc_with(c, Need::Event);
	let evs: Vec<&MEvent> = m.events().collect();
	ev!(c, "document {} entries, {} events", m.entries.len(), evs.len());
	ev_doc(c, &text);
	if evs.is_empty() {
		c.trivial = true;
		return Ok(());
	}
	let ns = 1 + c.tape.weighted(&[3, 2, 1]);
	let mut clients = vec![];
	let w = Weather::draw(c);
	ev!(c, "weather {:?}", w);
	// few values per parameter, so that criteria and logs meet
	let pools: Vec<Vec<Vec<MVal>>> = evs
		.iter()
		.map(|e| {
			e.inputs
				.iter()
				.map(|p| {
					let n = 1 + c.tape.below(3);
					let mut v: Vec<MVal> = (0..n).map(|_| gen_val(&mut c.tape, &p.ty, &mut 20)).collect();
					if c.tape.chance(1, 3) {
						// a near miss of a pooled value
						let x = near(&mut c.tape, &v[0]);
						v.push(x);
					}
					v
				})
				.collect()
		})
		.collect();
	let mut subs: Vec<Sub> = vec![];
	if c.tape.chance(1, 4) {
		let k = reload(c, text.as_bytes(), &m)?;
		crate::ops::past(c, &m, &text, &k, |k| matches!(k, Call::Filter(..)))?;
	}
	for _ in 0..ns {
		clients.push(reload(c, text.as_bytes(), &m)?);
		let event = c.tape.below(evs.len() as u64) as usize;
		let ix: Vec<usize> = evs[event].inputs.iter().enumerate().filter(|(_, p)| p.ix()).map(|x| x.0).collect();
		let mut kinds = [0u8; 3];
		let mut vals: [Vec<MVal>; 3] = Default::default();
		for (k, i) in ix.iter().enumerate().take(3) {
			kinds[k] = c.tape.weighted(&[2, 4, 3]) as u8;
			let pool = &pools[event][*i];
			match kinds[k] {
				1 => vals[k] = vec![c.tape.pick(pool).clone()],
				2 => {
					let n = [1u64, 2, 3, 40][c.tape.weighted(&[6, 6, 6, 1])];
					vals[k] = (0..n).map(|_| c.tape.pick(pool).clone()).collect();
					if n == 40 {
						// many alternatives, the pooled ones anywhere among them
						for v in vals[k].iter_mut() {
							if c.tape.chance(7, 8) {
								*v = gen_val(&mut c.tape, &evs[event].inputs[*i].ty, &mut 2);
							}
						}
					}
				}
				_ => {}
			}
		}
		ev!(c, "subscription to {} with {:?} {:?}", evs[event].sig(), kinds, vals.iter().map(|v| show_all(v)).collect::<Vec<_>>());
		subs.push(Sub { event, kinds, vals, text: None, active: None, heard: vec![] });
	}
	let mut kern: Kernel<SEv> = Kernel::new();
	for s in 0..ns {
		let at = c.tape.below(20_000);
		kern.at(at, SEv::Subscribe(s));
		if w.crash > 0 && c.tape.chance(w.crash, 16) {
			let at = c.tape.below(w.until);
			kern.at(at, SEv::Crash(s));
		}
	}
	let nblocks = 1 + c.tape.below(6);
	for b in 0..nblocks {
		let at = b * 12_000 + c.tape.below(12_000);
		kern.at(at, SEv::Mine);
		if c.tape.chance(1, 5) {
			kern.at(at + 1000 + c.tape.below(9_000), SEv::Reorg);
		}
	}
	// (block id, block); ids are never reused
	let mut chain: Vec<(u64, Block)> = vec![];
	let mut gone: Vec<(u64, Block)> = vec![];
	let mut next_id = 0u64;
	let mut matched = 0u64;
	let mut passed = 0u64;
	while let Some(e) = kern.next() {
		if kern.handled > 4000 {
			return violation("no-progress", "the subscription did not come to an end");
		}
		match e {
			SEv::Mine => {
				let n = c.tape.below(5);
				let mut logs = vec![];
				for _ in 0..n {
					// the subscribed events, mostly
					let k = if c.tape.chance(2, 3) { subs[c.tape.below(ns as u64) as usize].event } else { c.tape.below(evs.len() as u64) as usize };
					let vals: Vec<MVal> = pools[k]
						.iter()
						.zip(&evs[k].inputs)
						.map(|(p, i)| if c.tape.chance(5, 6) { c.tape.pick(p).clone() } else { gen_val(&mut c.tape, &i.ty, &mut 20) })
						.collect();
					let (topics, data) = emit(evs[k], &vals);
					logs.push(Emitted { event: k, vals, topics, data });
				}
				ev!(c, "t={} block {} with {} logs", kern.now, next_id, n);
				chain.push((next_id, Block { logs }));
				let (id, b) = chain.last().unwrap();
				for (s, sub) in subs.iter().enumerate() {
					if let Some(f) = &sub.active {
						for (i, l) in b.logs.iter().enumerate() {
							if node_matches(f, &l.topics) {
								kern.send(c, &w, "notification", SEv::Notify { sub: s, block: *id, log: i });
							}
						}
					}
				}
				next_id += 1;
			}
			SEv::Reorg => {
				let n = (1 + c.tape.below(2)).min(chain.len() as u64);
				c.fault("reorganisation");
				ev!(c, "t={} {} blocks reorganised away", kern.now, n);
				for _ in 0..n {
					gone.push(chain.pop().unwrap());
				}
				for k in 0..n {
					kern.at(1 + k, SEv::Mine);
				}
			}
			SEv::Subscribe(s) => {
				if c.tape.chance(1, 2) {
					misfits(c, &clients[s], &evs, &subs[s])?;
				}
				let t = build(&clients[s], &evs, &subs[s])?;
				match &subs[s].text {
					Some(x) if *x != t => return violation("unstable-filter", format!("rebuilding the filter gave {} instead of {}", t, x)),
					_ => subs[s].text = Some(t.clone()),
				}
				let e = evs[subs[s].event];
				ev!(c, "t={} client {} subscribes with {}", kern.now, s, t);
				let Some(f) = node_reads(&t) else {
					return violation("bad-filter", format!("the filter for {} is not a topic filter: {}", e.sig(), t));
				};
				let lost = w.roll(c, kern.now, w.drop);
				if lost {
					c.fault("message_lost");
					kern.at(10_000, SEv::Subscribe(s));
				} else {
					// backfill: every matching log of the chain, then live notifications
					for (id, b) in &chain {
						for (i, l) in b.logs.iter().enumerate() {
							if node_matches(&f, &l.topics) {
								kern.send(c, &w, "notification", SEv::Notify { sub: s, block: *id, log: i });
							}
						}
					}
					subs[s].active = Some(f);
				}
			}
			SEv::Notify { sub, block, log } => {
				let Some((_, b)) = chain.iter().chain(&gone).find(|b| b.0 == block) else { continue };
				let l = b.logs[log].clone();
				let e = evs[subs[sub].event];
				if l.event == subs[sub].event {
					let ok = check_log(e, event(&clients[sub], &evs, l.event)?, &l.topics, &l.data, Some(log_vals(e, &l.vals)))?;
					if !ok || !subs[sub].satisfied(e, &l.vals) {
						return violation("selected-wrongly", format!("a log of {} with {} was selected by {:?}", e.sig(), show_all(&l.vals), subs[sub].text));
					}
					subs[sub].heard.push((block, log));
				} else if !e.anonymous && evs[l.event].sig() != e.sig() {
					return violation("selected-wrongly", format!("a log of {} was selected by the filter for {}", evs[l.event].sig(), e.sig()));
				}
			}
			SEv::Crash(s) => {
				c.fault("crash_restart");
				ev!(c, "t={} client {} restarts", kern.now, s);
				clients[s] = reload(c, text.as_bytes(), &m)?;
				subs[s].active = None;
				kern.at(100, SEv::Subscribe(s));
			}
		}
	}
	// faults are over: each client subscribes once more, to a node that has the final chain; what it
	// is sent is exactly what its criteria describe
	for (s, sub) in subs.iter().enumerate() {
		let t = build(&clients[s], &evs, sub)?;
		if sub.text.as_ref() != Some(&t) {
			return violation("unstable-filter", format!("rebuilding the filter gave {} instead of {:?}", t, sub.text));
		}
		let e = evs[sub.event];
		let Some(f) = node_reads(&t) else { return violation("bad-filter", format!("not a topic filter: {}", t)) };
		for (_, b) in chain.iter().chain(&gone) {
			for l in &b.logs {
				let sel = node_matches(&f, &l.topics);
				if l.event == sub.event {
					let want = sub.satisfied(e, &l.vals);
					matched += want as u64;
					passed += !want as u64;
					if sel && !want {
						return violation("selected-wrongly", format!("a log of {} with {} is selected by {}", e.sig(), show_all(&l.vals), t));
					}
					if want && !sel {
						return violation("missed", format!("a log of {} with {} (topics {}) is not selected by {}", e.sig(), show_all(&l.vals), show_log(&l.topics, &[]), t));
					}
				} else if sel && !e.anonymous && evs[l.event].sig() != e.sig() && !evs[l.event].anonymous {
					return violation("selected-wrongly", format!("a log of {} is selected by the filter for {}", evs[l.event].sig(), e.sig()));
				}
			}
		}
	}
	if matched > 0 {
		c.probe("log_selected");
	}
	if passed > 0 {
		c.probe("log_passed_over");
	}
	c.now_us = kern.now;
	c.inter.push(kern.order);
	c.trivial = matched + passed == 0;
	if c.want_sample {
		c.sample = Some(format!("{} subscriptions, {} blocks, {} matching and {} other logs of the subscribed events", ns, chain.len(), matched, passed));
	}
	Ok(())
}

/// A value of the same type that is not quite `v`.
pub fn near(t: &mut simrt::Tape, v: &MVal) -> MVal {
	match v {
		MVal::Address(a) => {
			let mut b = *a;
			b[t.below(20) as usize] ^= 1;
			MVal::Address(b)
		}
		MVal::Int(a) => {
			let mut b = *a;
			b[31] ^= 1;
			MVal::Int(b)
		}
		MVal::Uint(a) => {
			let mut b = *a;
			b[31] ^= 1;
			MVal::Uint(b)
		}
		MVal::Bool(b) => MVal::Bool(!b),
		MVal::FixedBytes(b) => {
			let mut b = b.clone();
			let k = t.below(b.len() as u64) as usize;
			b[k] ^= 0x80;
			MVal::FixedBytes(b)
		}
		// one byte more: zero padding must not hide it
		MVal::Bytes(b) => {
			let mut b = b.clone();
			b.push(0);
			MVal::Bytes(b)
		}
		MVal::Str(b) => {
			let mut b = b.clone();
			b.push(0);
			MVal::Str(b)
		}
		MVal::Array(x) => {
			let mut x = x.clone();
			match x.len() {
				0 => return v.clone(),
				n if t.chance(1, 2) => {
					let k = t.below(n as u64) as usize;
					x[k] = near(t, &x[k].clone());
				}
				_ => {
					x.pop();
				}
			}
			MVal::Array(x)
		}
		MVal::FixedArray(x) | MVal::Tuple(x) => {
			let mut y = x.clone();
			if !y.is_empty() {
				let k = t.below(y.len() as u64) as usize;
				y[k] = near(t, &x[k]);
			}
			if matches!(v, MVal::Tuple(_)) {
				MVal::Tuple(y)
			} else {
				MVal::FixedArray(y)
			}
		}
	}
}
