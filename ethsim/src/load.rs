//! C01, C02, C03: loading and saving contract documents over streams and disks that misbehave.
use simcore::doc::*;
use simcore::json;
use simcore::stream::*;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Tape, Violation};

type Res = Result<(), Violation>;

#[derive(PartialEq, Clone, Copy)]
pub enum Need {
	Nothing,
	Func,
	Event,
}

pub fn draw_doc(c: &mut Ctx) -> (MContract, String) {
	draw_doc_with(c, Need::Nothing)
}

/// A contract with at least one entry of the needed kind.
pub fn draw_doc_with(c: &mut Ctx, need: Need) -> (MContract, String) {
	let t = &mut c.tape;
	let cfg = DocCfg::draw(t);
	let mut m = if t.chance(1, 60) { MContract::default() } else { gen_contract(t, &cfg) };
	if need == Need::Event && m.events().next().is_none() {
		let n = gen_name(t, &cfg);
		m.entries.push(Entry::Event(gen_event(t, &cfg, n)));
	}
	if need == Need::Func && m.funcs().next().is_none() {
		let n = gen_name(t, &cfg);
		m.entries.push(Entry::Func(gen_func(t, &cfg, n)));
	}
	if need == Need::Nothing && !m.entries.is_empty() && t.chance(1, 25) {
		// the same entry twice
		let e = t.pick(&m.entries).clone();
		if matches!(e, Entry::Func(_) | Entry::Event(_)) {
			let at = t.below(m.entries.len() as u64 + 1) as usize;
			m.entries.insert(at, e);
		}
	}
	let big = t.weighted(&[150, 4, 1]);
	if big > 0 {
		enlarge(t, &cfg, &mut m, [0, 9_000, 70_000][big]);
		c.probe("big_document");
	}
	let f = Form::draw(&mut c.tape);
	let mut text = to_text(&m, &f);
	if need == Need::Nothing && c.tape.chance(1, 1500) {
		// megabytes of documentation, or of nothing
		let n = ((1usize << c.tape.range(18, 22)) + c.tape.below(100) as usize).max(1);
		match text.find('{') {
			Some(at) if c.tape.chance(1, 2) => text.insert_str(at + 1, &format!("\"devdoc\":\"{}\",", "é ab".repeat(n / 5))),
			_ => text.insert_str(text.find('[').unwrap() + 1, &" \n\t ".repeat(n / 4)),
		}
		c.probe("huge_document");
	}
	note(c, &m);
	(m, text)
}

fn note(c: &mut Ctx, m: &MContract) {
	let fs: Vec<_> = m.funcs().collect();
	for (i, f) in fs.iter().enumerate() {
		if fs[..i].iter().any(|g| g.name == f.name) {
			c.probe("overload");
		}
		for p in f.inputs.iter().chain(&f.outputs) {
			if p.ty.has_tuple() && !matches!(p.ty, simcore::mty::MType::Tuple(_)) {
				c.probe("tuple_array");
			}
		}
	}
	if m.events().any(|e| e.anonymous) {
		c.probe("anonymous_event");
	}
}

/// Loads in a fresh simulated process.
pub fn load_in(c: &mut Ctx, text: &[u8], plan: &ReadPlan, marker: &str) -> (Result<Result<ethabi::Contract, ethabi::Error>, String>, Fired) {
	let hs = c.tape.below(1 << 16);
	simrt::process(hs, || load(text, plan, marker))
}

pub type Loaded = (Result<Result<ethabi::Contract, ethabi::Error>, String>, Fired);

/// Several loads one after the other: each in its own simulated process, or all in one.
fn loads_in(c: &mut Ctx, jobs: &[(&[u8], ReadPlan, String)]) -> Vec<Loaded> {
	if jobs.len() > 1 && c.tape.chance(1, 2) {
		c.probe("loads_in_one_process");
		ev!(c, "one process");
		let hs = c.tape.below(1 << 16);
		simrt::process(hs, || jobs.iter().map(|(b, p, m)| load(b, p, m)).collect())
	} else {
		jobs.iter().map(|(b, p, m)| load_in(c, b, p, m)).collect()
	}
}

pub fn clip(s: &str) -> String {
	s.chars().take(1500).collect()
}

/// The document with bytes that are no text in the name of an entry.
fn not_text(t: &mut Tape, m: &MContract) -> Option<Vec<u8>> {
	const MARK: &str = "MarkedName";
	let mut m = m.clone();
	let named: Vec<usize> = (0..m.entries.len()).filter(|i| matches!(m.entries[*i], Entry::Func(_) | Entry::Event(_))).collect();
	if named.is_empty() {
		return None;
	}
	match &mut m.entries[*t.pick(&named)] {
		Entry::Func(f) => f.name = MARK.into(),
		Entry::Event(e) => e.name = MARK.into(),
		_ => {}
	}
	let text = to_text(&m, &Form::plain());
	let at = text.find(MARK)? + t.below(MARK.len() as u64) as usize;
	let mut b = text.into_bytes();
	match t.below(4) {
		0 => b[at] = 0xff,
		1 => b[at] = 0xc3,
		2 => b[at] |= 0x80,
		_ => drop(b.splice(at..at, [0xed, 0xa0, 0x80])),
	}
	Some(b)
}

/// A document that describes no contract, and then a sound one.
fn c01_spoilt(c: &mut Ctx) -> Res {
	let cfg = DocCfg::draw(&mut c.tape);
	let m = gen_contract(&mut c.tape, &cfg);
	let f = Form::draw(&mut c.tape);
	let mut j = to_json(&m, &f);
	let (how, bytes) = if c.tape.chance(1, 12) {
		match not_text(&mut c.tape, &m) {
			Some(b) => ("a name that is not UTF-8", b),
			None => {
				c.trivial = true;
				return Ok(());
			}
		}
	} else {
		match spoil(&mut c.tape, &mut j) {
			Some(how) => (how, json::render(&j, &f.style, f.seed).into_bytes()),
			None => {
				c.trivial = true;
				return Ok(());
			}
		}
	};
	let bad = String::from_utf8_lossy(&bytes).into_owned();
	let good = to_text(&m, &f);
	c.probe(how);
	ev!(c, "document of {} bytes: {}", bytes.len(), how);
	ev_doc(c, &bad);
	let jobs: Vec<(&[u8], ReadPlan, String)> =
		[&bytes[..], good.as_bytes()].iter().map(|b| (*b, ReadPlan::arrival(&mut c.tape), String::new())).collect();
	for (k, (r, f)) in loads_in(c, &jobs).into_iter().enumerate() {
		f.count(c);
		match r {
			Err(p) => return violation("panic", format!("loading panicked: {} on {}", p, clip([&bad, &good][k]))),
			Ok(Ok(_)) if k == 0 => return violation("accepted", format!("a document that describes no contract ({}) was accepted: {}", how, clip(&bad))),
			Ok(Err(e)) if k == 1 => return violation("refused", format!("valid document refused: {} on {}", e, clip(&good))),
			Ok(Ok(x)) => {
				if let Err(e) = compare(&x, &m) {
					return violation("wrong-contract", format!("{} on {}", e, clip(&good)));
				}
			}
			Ok(Err(_)) => {}
		}
	}
	if c.want_sample {
		c.sample = Some(format!("{}: {}", how, bad.chars().take(300).collect::<String>()));
	}
	Ok(())
}

pub fn c01(c: &mut Ctx) -> Res {
	if c.tape.chance(1, 10) {
		return c01_spoilt(c);
	}
	let (m, text) = draw_doc(c);
	ev!(c, "document {} entries {} bytes", m.entries.len(), text.len());
	if c.trace.is_some() || c.want_sample {
		ev_doc(c, &text);
	}
	let loads = 2 + c.tape.below(2);
	let mut jobs: Vec<(&[u8], ReadPlan, String)> = vec![];
	for _ in 0..loads {
		jobs.push((text.as_bytes(), ReadPlan::arrival(&mut c.tape), String::new()));
	}
	// another document loaded in between must leave no trace
	let other = if c.tape.chance(1, 3) { Some(draw_doc(c).1) } else { None };
	let between = c.tape.below(loads + 1) as usize;
	if let Some(o) = &other {
		let mut plan = ReadPlan::arrival(&mut c.tape);
		if c.tape.chance(1, 3) {
			plan.eof = Some(c.tape.below(o.len() as u64) as usize);
		}
		jobs.insert(between, (o.as_bytes(), plan, String::new()));
	}
	let mut first: Option<ethabi::Contract> = None;
	let mut stirred = false;
	for (k, (r, f)) in loads_in(c, &jobs).into_iter().enumerate() {
		f.count(c);
		ev!(c, "load {} {:?}: reads {} short {} interrupted {}", k, jobs[k].1.chunks, f.reads, f.short, f.eintr);
		if other.is_some() && k == between {
			if let Err(p) = r {
				return violation("panic", format!("loading panicked: {} on {}", p, clip(other.as_ref().unwrap())));
			}
			continue;
		}
		stirred |= f.short + f.eintr > 0;
		let got = match r {
			Err(p) => return violation("panic", format!("loading panicked: {} on {}", p, clip(&text))),
			Ok(Err(e)) => return violation("refused", format!("valid document refused: {} on {}", e, clip(&text))),
			Ok(Ok(x)) => x,
		};
		if let Err(e) = compare(&got, &m) {
			return violation("wrong-contract", format!("{} on {}", e, clip(&text)));
		}
		match &first {
			None => first = Some(got),
			Some(x) if *x == got => {}
			Some(_) => return violation("unequal-loads", format!("two loads of the same bytes differ on {}", clip(&text))),
		}
	}
	// the same bytes handed over as one slice
	if c.tape.chance(1, 4) {
		match simrt::lib(|| bridge::from_slice(text.as_bytes())) {
			Err(p) => return violation("panic", format!("loading panicked: {}", p)),
			Ok(Err(e)) => return violation("refused", format!("valid document refused: {}", e)),
			Ok(Ok(got)) => {
				if let Err(e) = compare(&got, &m) {
					return violation("wrong-contract", format!("from a slice: {} on {}", e, clip(&text)));
				}
			}
		}
	}
	c.trivial = m.entries.is_empty() || !stirred;
	if c.want_sample {
		c.sample = Some(format!("{} bytes, {} entries, {} loads; document begins {}", text.len(), m.entries.len(), loads, text.chars().take(300).collect::<String>()));
	}
	Ok(())
}

pub fn ev_doc(c: &mut Ctx, text: &str) {
	if let Some(t) = &mut c.trace {
		t.push(format!("document: {}", text.chars().take(3000).collect::<String>()));
	}
}

/// A byte position, biased to the interesting ones.
fn position(c: &mut Ctx, b: &[u8], end: usize) -> usize {
	let t = &mut c.tape;
	match t.weighted(&[3, 3, 2, 1, 1]) {
		0 => t.below(end as u64) as usize,
		1 => {
			// right after a closing brace, bracket or comma
			let marks: Vec<usize> =
				b[..end].iter().enumerate().filter(|(_, x)| matches!(x, b'}' | b']' | b',' | b'"')).map(|(i, _)| i + 1).collect();
			if marks.is_empty() {
				return 0;
			}
			(*t.pick(&marks)).min(end - 1)
		}
		2 => end - 1 - t.below(end.min(12) as u64) as usize,
		3 => 0,
		_ => [8192usize, 4096, 512, 1024][t.below(4) as usize].min(end - 1),
	}
}

pub fn c02(c: &mut Ctx) -> Res {
	let (m, text) = draw_doc(c);
	let b = text.as_bytes();
	// the document is complete at the final bracket
	let end = text.trim_end_matches([' ', '\n', '\t', '\r']).len();
	ev!(c, "document {} entries {} bytes", m.entries.len(), text.len());
	ev_doc(c, &text);
	let n = 1 + c.tape.below(3) as usize;
	let mut hit = false;
	let mut jobs: Vec<(&[u8], ReadPlan, String)> = vec![];
	let mut ats = vec![];
	for _ in 0..n {
		let mut plan = ReadPlan::arrival(&mut c.tape);
		let late = text.len() > end && c.tape.chance(1, 12);
		let at = if late { end + c.tape.below((text.len() - end) as u64 + 1) as usize } else { position(c, b, end) };
		let marker = format!("stream-fault-{:x}", c.tape.below(1 << 30));
		if c.tape.chance(2, 3) {
			let kind = Fault::draw(&mut c.tape);
			let then = [Then::Resume, Then::Again, Then::Eof][c.tape.weighted(&[3, 1, 1])].clone();
			if then == Then::Resume {
				c.probe("resumable_error");
			}
			plan.fail = Some((at, kind, then));
		} else {
			plan.eof = Some(at);
		}
		jobs.push((b, plan, marker));
		ats.push(at);
	}
	if text.len() < 4000 && c.tape.chance(1, 40) {
		// it goes on failing for long
		c.probe("long_failure");
		let top = [40u64, 150, 600][c.tape.weighted(&[6, 3, 1])];
		for _ in 0..c.tape.range(3, top) {
			jobs.push(jobs[jobs.len() - 1].clone());
			ats.push(ats[ats.len() - 1]);
		}
	}
	// at last the stream heals
	jobs.push((b, ReadPlan::arrival(&mut c.tape), String::new()));
	let mut results = loads_in(c, &jobs);
	let healed = results.pop().unwrap();
	for (k, (r, f)) in results.into_iter().enumerate() {
		let (plan, marker, at) = (&jobs[k].1, &jobs[k].2, ats[k]);
		let is_err = plan.fail.is_some();
		f.count(c);
		ev!(c, "load {} fails at {} of {} ({:?}): errors {} early ends {}", k, at, end, plan.fail, f.errors, f.early_eof);
		let what = if is_err { format!("error {:?} at byte {}", plan.fail, at) } else { format!("end at byte {}", at) };
		match r {
			Err(p) => return violation("panic", format!("loading panicked: {} ({}) on {}", p, what, clip(&text))),
			Ok(Ok(got)) => {
				if at < end {
					let d = compare(&got, &m).err().unwrap_or_else(|| "the complete contract".into());
					return violation("accepted", format!("a load with {} (document ends at {}) succeeded: {}; {}", what, end, d, clip(&text)));
				}
				if let Err(e) = compare(&got, &m) {
					return violation("wrong-contract", format!("{} with {} on {}", e, what, clip(&text)));
				}
			}
			Ok(Err(e)) => {
				if at < end {
					hit = true;
				} else if !is_err {
					return violation("refused", format!("complete document refused: {}", e));
				}
				if is_err && f.errors > 0 {
					let s = error_text(&e);
					let marker = plan.fail.as_ref().unwrap().1.text(marker);
					if !s.contains(marker.as_str()) {
						return violation("error-lost", format!("the stream's error {} is not in the returned error: {}", marker, s));
					}
				}
			}
		}
	}
	// one load succeeds
	let (r, f) = healed;
	f.count(c);
	match r {
		Err(p) => return violation("panic", format!("loading panicked after recovery: {}", p)),
		Ok(Err(e)) => return violation("no-recovery", format!("load after the stream healed failed: {}", e)),
		Ok(Ok(got)) => {
			if let Err(e) = compare(&got, &m) {
				return violation("wrong-contract", format!("after recovery: {} on {}", e, clip(&text)));
			}
		}
	}
	c.trivial = !hit;
	if c.want_sample {
		c.sample = Some(format!("{} bytes, {} faulty loads then recovery", text.len(), n));
	}
	Ok(())
}

enum Saved {
	Ok(Vec<u8>),
	Failed,
}

fn save(c: &mut Ctx, k: &ethabi::Contract, plan: &WritePlan, pretty: bool) -> Result<Saved, Violation> {
	let marker = format!("disk-fault-{:x}", c.tape.below(1 << 30));
	let hs = c.tape.below(1 << 16);
	let (r, w) = simrt::process(hs, || {
		let mut w = SimWriter::new(plan.clone(), &marker);
		let r = simrt::lib(|| if pretty { bridge::save_pretty(k, &mut w) } else { bridge::save(k, &mut w) });
		(r, w)
	});
	w.count(c);
	ev!(c, "save {:?}: {} bytes, failed {}", plan, w.out.len(), w.failed);
	match r {
		Err(p) => violation("panic", format!("saving panicked: {}", p)),
		Ok(Ok(())) => {
			if w.failed {
				return violation("write-error-swallowed", format!("the destination failed ({:?}) but saving reported success", plan.fail));
			}
			Ok(Saved::Ok(w.out))
		}
		Ok(Err(e)) => {
			if !w.failed {
				return violation("save-refused", format!("saving to a good destination failed: {}", e));
			}
			let s = error_text(&e);
			let marker = match plan.fail {
				Some((_, Some(f))) => f.text(&marker),
				_ => String::new(),
			};
			if !s.contains(&marker) {
				return violation("error-lost", format!("the destination's error {} is not in the returned error: {}", marker, s));
			}
			Ok(Saved::Failed)
		}
	}
}

/// Loads a disk image and checks the result against what the bytes are.
fn check_image(c: &mut Ctx, img: &[u8], complete: &[(&[u8], &MContract)], how: &str) -> Res {
	let plan = ReadPlan::arrival(&mut c.tape);
	let (r, f) = load_in(c, img, &plan, "");
	f.count(c);
	let show = || clip(&String::from_utf8_lossy(img));
	let got = match r {
		Err(p) => return violation("panic", format!("loading after {} panicked: {} on {}", how, p, show())),
		Ok(g) => g,
	};
	fn trim(mut b: &[u8]) -> &[u8] {
		while let Some(l) = b.last() {
			if matches!(l, b' ' | b'\n' | b'\t' | b'\r') {
				b = &b[..b.len() - 1];
			} else {
				break;
			}
		}
		b
	}
	if let Some((_, m)) = complete.iter().find(|(b, _)| trim(b) == trim(img)) {
		c.probe("image_complete");
		return match got {
			Err(e) => violation("refused", format!("the complete document after {} was refused: {}", how, e)),
			Ok(g) => compare(&g, m).or_else(|e| violation("wrong-contract", format!("after {}: {} on {}", how, e, show()))),
		};
	}
	match json::parse(img) {
		None => {
			c.probe("image_broken");
			if got.is_ok() {
				return violation("accepted", format!("a broken image after {} was accepted: {}", how, show()));
			}
		}
		Some(j) => {
			c.probe("image_mixture");
			if let (Ok(g), Some(m)) = (&got, interpret(&j)) {
				if let Err(e) = compare(g, &m) {
					return violation("wrong-contract", format!("image after {}: {} on {}", how, e, show()));
				}
			}
		}
	}
	Ok(())
}

pub fn c03(c: &mut Ctx) -> Res {
	let (mut m, text) = draw_doc(c);
	ev!(c, "document {} entries {} bytes", m.entries.len(), text.len());
	ev_doc(c, &text);
	let (r, _) = load_in(c, text.as_bytes(), &ReadPlan::whole(), "");
	let mut cur = match r {
		Ok(Ok(x)) => x,
		Ok(Err(e)) => return violation("refused", format!("valid document refused: {} on {}", e, clip(&text))),
		Err(p) => return violation("panic", format!("loading panicked: {}", p)),
	};
	if let Err(e) = compare(&cur, &m) {
		return violation("wrong-contract", format!("{} on {}", e, clip(&text)));
	}
	// what is on disk, and which contract it holds
	let mut disk: Option<(Vec<u8>, MContract)> = None;
	let gens = 1 + c.tape.below(4);
	let mut struck = false;
	for g in 0..gens {
		if g > 0 && c.tape.chance(1, 2) {
			// a new version of the contract replaces the old one
			let (m2, t2) = if c.tape.chance(1, 2) {
				draw_doc(c)
			} else {
				// a small edit: one entry dropped or appended
				let mut m2 = m.clone();
				if m2.entries.len() > 1 && c.tape.chance(1, 2) {
					let at = c.tape.below(m2.entries.len() as u64) as usize;
					m2.entries.remove(at);
				} else {
					let cfg = DocCfg::draw(&mut c.tape);
					m2.entries.push(Entry::Func(gen_func(&mut c.tape, &cfg, "appended".into())));
				}
				let f = Form::draw(&mut c.tape);
				let t2 = to_text(&m2, &f);
				(m2, t2)
			};
			match load_in(c, t2.as_bytes(), &ReadPlan::whole(), "").0 {
				Ok(Ok(x)) => cur = x,
				Ok(Err(e)) => return violation("refused", format!("valid document refused: {} on {}", e, clip(&t2))),
				Err(p) => return violation("panic", format!("loading panicked: {}", p)),
			}
			m = m2;
			ev!(c, "new version with {} entries", m.entries.len());
		}
		let pretty = c.tape.chance(1, 4);
		let mut plan = WritePlan::good(&mut c.tape);
		let strike = c.tape.weighted(&[3, 3, 3]);
		if strike == 1 {
			// the destination fails during the save
			let span = if c.tape.chance(1, 2) { 40 } else { 1 + text.len() as u64 };
			let at = c.tape.below(span) as usize;
			let kind = if c.tape.chance(1, 4) { None } else { Some(Fault::draw(&mut c.tape)) };
			plan.fail = Some((at, kind));
			plan.once = c.tape.chance(1, 2);
		}
		match save(c, &cur, &plan, pretty)? {
			Saved::Failed => {
				struck = true;
				// the save is repeated on a good destination
				let p2 = WritePlan::good(&mut c.tape);
				if let Saved::Ok(b) = save(c, &cur, &p2, pretty)? {
					check_image(c, &b, &[(&b, &m)], "a repeated save")?;
					disk = Some((b, m.clone()));
				}
			}
			Saved::Ok(b) => {
				if strike == 2 {
					struck = true;
					let k = if b.len() > 1 { 1 + c.tape.below(b.len() as u64 - 1) as usize } else { 0 };
					let old = disk.as_ref().map(|d| d.0.clone()).unwrap_or_default();
					let oldm = disk.as_ref().map(|d| d.1.clone()).unwrap_or_default();
					let (img, how) = match c.tape.weighted(&[3, 2, 3, 2]) {
						0 => {
							c.fault("crash_prefix");
							(b[..k].to_vec(), "a crash that left a prefix")
						}
						1 => {
							c.fault("crash_zero_tail");
							let mut v = b[..k].to_vec();
							v.resize(b.len(), 0);
							(v, "a crash that left a zero-filled tail")
						}
						2 => {
							c.fault("crash_stale_tail");
							let k = if c.tape.chance(1, 2) { b.len() } else { k };
							let mut v = b[..k].to_vec();
							if old.len() > k {
								v.extend_from_slice(&old[k..]);
							}
							(v, "a crash that left the tail of the older file")
						}
						_ => {
							c.fault("crash_torn_sectors");
							let sect = [512usize, 64, 16][c.tape.below(3) as usize];
							let mut v = vec![0u8; b.len().max(old.len())];
							let mask = c.tape.word();
							let n = v.len();
							for (i, x) in v.iter_mut().enumerate() {
								let new = (mask >> ((i / sect) % 64)) & 1 == 0;
								*x = if new { b.get(i).copied().unwrap_or(0) } else { old.get(i).copied().unwrap_or(0) };
							}
							v.truncate(n);
							(v, "a crash that tore the sectors")
						}
					};
					ev!(c, "{} at {} of {} (old {})", how, k, b.len(), old.len());
					check_image(c, &img, &[(&b, &m), (&old, &oldm)], how)?;
					// what survives is kept only if it is whole; otherwise the save is repeated
					disk = Some((b, m.clone()));
				} else {
					check_image(c, &b, &[(&b, &m)], "a save")?;
					disk = Some((b, m.clone()));
				}
			}
		}
		// restart: the contract lives on only as what is on disk
		if let Some((b, dm)) = &disk {
			let plan = ReadPlan::arrival(&mut c.tape);
			match load_in(c, b, &plan, "").0 {
				Ok(Ok(x)) => {
					if let Err(e) = compare(&x, dm) {
						return violation("wrong-contract", format!("after restart: {} on {}", e, clip(&String::from_utf8_lossy(b))));
					}
					if *dm == m && x != cur {
						return violation("unequal-loads", "the reloaded contract is not equal to the saved one");
					}
					cur = x;
				}
				Ok(Err(e)) => return violation("refused", format!("saved document refused after restart: {} on {}", e, clip(&String::from_utf8_lossy(b)))),
				Err(p) => return violation("panic", format!("loading panicked: {}", p)),
			}
			m = dm.clone();
		}
	}
	c.trivial = !struck;
	if c.want_sample {
		c.sample = Some(format!("{} generations of a {}-entry contract", gens, m.entries.len()));
	}
	Ok(())
}
