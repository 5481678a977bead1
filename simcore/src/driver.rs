//! Seeded search over simulated runs. Every run executes in its own forked process, so that runs
//! cannot influence one another and a run that dies is just another outcome. One run = one tape.
use serde_json::{json, Value};
use simrt::tape::mix;
use simrt::{Ctx, Tape, Violation};
use std::collections::{BTreeMap, HashSet};
use std::time::Instant;

pub type Scenario = fn(&mut Ctx) -> Result<(), Violation>;

pub struct Prop {
	pub id: &'static str,
	pub run: Scenario,
	/// Number of runs per tier, and wall-clock cap in seconds per tier.
	pub runs: [u64; 2],
	pub cap_s: [u64; 2],
	pub level: &'static str,
	pub rule: &'static str,
	pub real: &'static [&'static str],
	pub stub: &'static [&'static str],
	pub assumptions: &'static [&'static str],
	/// Fault kinds and probes that must each have fired in a full batch; a batch in which one stays at
	/// zero explored too little and is a harness error.
	pub must: &'static [&'static str],
	/// Executed once in the supervising process before any run (builds shared fixtures).
	pub prepare: Option<fn() -> Result<(), String>>,
}

const TAPE_WORDS: usize = 1 << 17;
const OUT_BYTES: usize = 1 << 18;
const SLOTS: usize = 8;

struct Shm {
	tape: *mut u64,
	out: *mut u8,
}

fn mmap(bytes: usize) -> *mut u8 {
	unsafe {
		let p = libc::mmap(
			std::ptr::null_mut(),
			bytes,
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED | libc::MAP_ANONYMOUS,
			-1,
			0,
		);
		assert!(p != libc::MAP_FAILED);
		p as *mut u8
	}
}

impl Shm {
	fn new() -> Shm {
		Shm { tape: mmap(TAPE_WORDS * 8) as *mut u64, out: mmap(OUT_BYTES) }
	}
	fn clear(&self) {
		unsafe {
			*self.tape = 0;
			*(self.out as *mut u64) = 0;
		}
	}
	fn write(&self, s: &str) {
		let n = s.len().min(OUT_BYTES - 8);
		unsafe {
			std::ptr::copy_nonoverlapping(s.as_ptr(), self.out.add(8), n);
			*(self.out as *mut u64) = n as u64;
		}
	}
	fn read(&self) -> Option<Value> {
		unsafe {
			let n = *(self.out as *const u64) as usize;
			if n == 0 {
				return None;
			}
			serde_json::from_slice(std::slice::from_raw_parts(self.out.add(8), n)).ok()
		}
	}
	fn tape(&self) -> Vec<u64> {
		unsafe {
			let n = (*self.tape as usize).min(TAPE_WORDS - 1);
			(1..=n).map(|i| *self.tape.add(i)).collect()
		}
	}
}

#[derive(Clone, Debug)]
pub struct Outcome {
	pub violation: Option<Violation>,
	pub harness: Option<String>,
	pub tape: Vec<u64>,
	pub info: Value,
}

enum Src {
	Seed(u64),
	Tape(Vec<u64>),
}

fn run_deadline_s() -> u32 {
	120
}

/// Forks and runs one simulation in the child.
fn start(p: &Prop, src: &Src, shm: &Shm, tracing: bool, sample: bool) -> i32 {
	shm.clear();
	unsafe {
		let pid = libc::fork();
		assert!(pid >= 0, "fork");
		if pid > 0 {
			return pid;
		}
		libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
		libc::alarm(run_deadline_s());
		let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
		libc::setrlimit(libc::RLIMIT_CORE, &lim);
	}
	let mut tape = match src {
		Src::Seed(s) => Tape::record(*s),
		Src::Tape(v) => {
			// candidates of the minimiser may be nonsense; their complaints are of no interest
			if !tracing {
				unsafe {
					let fd = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
					libc::dup2(fd, 2);
				}
			}
			Tape::replay(v.clone())
		}
	};
	tape.set_mirror(shm.tape, TAPE_WORDS);
	let mut ctx = Ctx::new(tape, tracing);
	ctx.want_sample = sample;
	simrt::install_panic_hook();
	let r = (p.run)(&mut ctx);
	let f: BTreeMap<&str, u64> = ctx.faults.clone();
	let pr: BTreeMap<&str, u64> = ctx.probes.clone();
	let mut o = json!({
		"hash": ctx.hash, "events": ctx.events, "now_us": ctx.now_us, "steps": simrt::edge::steps(),
		"faults": f, "probes": pr, "known": ctx.known, "inter": ctx.inter, "trivial": ctx.trivial,
		"tape_len": ctx.tape.len(),
	});
	if let Some(s) = ctx.sample {
		o["sample"] = Value::String(s);
	}
	if let Some(t) = ctx.trace {
		o["trace"] = json!(t);
	}
	if let Err(v) = r {
		o["class"] = Value::String(v.class);
		o["detail"] = Value::String(v.detail);
	}
	let mut s = o.to_string();
	if s.len() > OUT_BYTES - 8 {
		if let Some(Value::Array(t)) = o.get_mut("trace") {
			while t.len() > 200 {
				t.pop();
			}
			for e in t.iter_mut() {
				if let Value::String(s) = e {
					if s.len() > 400 {
						*s = s.chars().take(400).collect();
					}
				}
			}
		}
		if let Some(Value::String(s)) = o.get_mut("detail") {
			*s = s.chars().take(4000).collect();
		}
		o.as_object_mut().unwrap().remove("sample");
		s = o.to_string();
	}
	shm.write(&s);
	unsafe { libc::_exit(0) }
}

fn outcome(status: i32, shm: &Shm) -> Outcome {
	let tape = shm.tape();
	let mut o = Outcome { violation: None, harness: None, tape, info: Value::Null };
	let v = |c: &str, d: &str| Some(Violation { class: c.into(), detail: d.into() });
	if libc::WIFSIGNALED(status) {
		let s = libc::WTERMSIG(status);
		match s {
			libc::SIGKILL | libc::SIGTERM | libc::SIGINT => o.harness = Some(format!("run killed by signal {}", s)),
			libc::SIGALRM => o.violation = v("no-progress", "the run did not finish in two minutes of real time"),
			_ => o.violation = v("crash", &format!("the process died of signal {} inside the code under test", s)),
		}
		return o;
	}
	match libc::WEXITSTATUS(status) {
		0 => match shm.read() {
			Some(i) => {
				if let Some(c) = i.get("class").and_then(|c| c.as_str()) {
					o.violation = v(c, i.get("detail").and_then(|c| c.as_str()).unwrap_or(""));
				}
				o.info = i;
			}
			None => o.harness = Some("run left no result".into()),
		},
		simrt::alloc::EXIT_MEMORY => o.violation = v("memory", "allocation beyond the memory budget of the call"),
		simrt::alloc::EXIT_STEPS => o.violation = v("no-progress", "the call exceeded its step budget"),
		simrt::alloc::EXIT_DEADLOCK => o.violation = v("deadlock", "every caller is waiting for another"),
		c => o.harness = Some(format!("run ended with status {}", c)),
	}
	o
}

fn exec(p: &Prop, src: &Src, shm: &Shm, tracing: bool) -> Outcome {
	let pid = start(p, src, shm, tracing, false);
	let mut st = 0;
	unsafe {
		while libc::waitpid(pid, &mut st, 0) < 0 {}
	}
	outcome(st, shm)
}

pub fn run_seed(seed: u64, prop: &str, idx: u64) -> u64 {
	let mut h = mix(seed);
	for b in prop.bytes() {
		h = mix(h ^ b as u64);
	}
	mix(h ^ mix(idx))
}

fn class_of(o: &Outcome) -> Option<String> {
	o.violation.as_ref().map(|v| v.class.clone())
}

/// Shrinks a failing tape while the same class of violation persists.
fn minimise(p: &Prop, tape: Vec<u64>, class: &str, shm: &Shm, budget_s: u64) -> (Vec<u64>, u64) {
	let t0 = Instant::now();
	let mut best = tape;
	let mut tries = 0u64;
	let ok = |cand: &Vec<u64>, tries: &mut u64| -> Option<Vec<u64>> {
		*tries += 1;
		let o = exec(p, &Src::Tape(cand.clone()), shm, false);
		if class_of(&o).as_deref() == Some(class) {
			// the tape actually consumed, cut after the last choice that mattered
			let mut t = if o.tape.is_empty() { cand.clone() } else { o.tape };
			while t.last() == Some(&0) {
				t.pop();
			}
			Some(t)
		} else {
			None
		}
	};
	let out = |t0: &Instant| t0.elapsed().as_secs() >= budget_s;
	let smaller = |a: &Vec<u64>, b: &Vec<u64>| {
		a.len() < b.len() || (a.len() == b.len() && a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| x < y).unwrap_or(false))
	};
	loop {
		let before = best.clone();
		// drop chunks
		let mut size = (best.len() / 2).max(1);
		while size >= 1 && !out(&t0) {
			let mut i = best.len();
			while i > 0 && !out(&t0) {
				let lo = i.saturating_sub(size);
				let mut c = best.clone();
				c.drain(lo..i.min(c.len()));
				match ok(&c, &mut tries) {
					Some(t) if smaller(&t, &best) => {
						best = t;
						i = lo.min(best.len());
					}
					_ => i = lo,
				}
			}
			size /= 2;
		}
		// zero chunks
		let mut size = (best.len() / 2).max(1);
		while size >= 1 && !out(&t0) {
			let mut i = 0;
			while i < best.len() && !out(&t0) {
				let hi = (i + size).min(best.len());
				if best[i..hi].iter().any(|x| *x != 0) {
					let mut c = best.clone();
					for x in c[i..hi].iter_mut() {
						*x = 0;
					}
					if let Some(t) = ok(&c, &mut tries) {
						if smaller(&t, &best) {
							best = t;
						}
					}
				}
				i += size;
			}
			size /= 2;
		}
		// lower values
		let mut i = 0;
		while i < best.len() && !out(&t0) {
			let mut v = best[i];
			let mut cand = vec![];
			while v > 0 {
				cand.push(best[i] - v);
				v /= 2;
				if cand.len() > 10 {
					break;
				}
			}
			cand.push(best[i].saturating_sub(1));
			for x in cand {
				if i < best.len() && x < best[i] {
					let mut c = best.clone();
					c[i] = x;
					if let Some(t) = ok(&c, &mut tries) {
						if smaller(&t, &best) {
							best = t;
							break;
						}
					}
				}
			}
			i += 1;
		}
		if before == best || out(&t0) {
			return (best, tries);
		}
	}
}

struct Batch {
	runs: u64,
	nontrivial: HashSet<u64>,
	distinct: HashSet<u64>,
	inter: HashSet<u64>,
	faults: BTreeMap<String, u64>,
	probes: BTreeMap<String, u64>,
	known: BTreeMap<String, u64>,
	events: u64,
	steps: u64,
	now_us: u64,
	tape_max: u64,
	samples: Vec<Value>,
	digest: u64,
}

fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
	if let Some(o) = v.as_object() {
		for (k, n) in o {
			*m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
		}
	}
}

impl Batch {
	fn new() -> Batch {
		Batch {
			runs: 0,
			nontrivial: HashSet::new(),
			distinct: HashSet::new(),
			inter: HashSet::new(),
			faults: BTreeMap::new(),
			probes: BTreeMap::new(),
			known: BTreeMap::new(),
			events: 0,
			steps: 0,
			now_us: 0,
			tape_max: 0,
			samples: vec![],
			digest: 0,
		}
	}
	fn take(&mut self, idx: u64, i: &Value) {
		self.runs += 1;
		let h = i["hash"].as_u64().unwrap_or(0);
		self.distinct.insert(h);
		if !i["trivial"].as_bool().unwrap_or(false) {
			self.nontrivial.insert(h);
		}
		if let Some(x) = i["inter"].as_array() {
			for v in x {
				self.inter.insert(v.as_u64().unwrap_or(0));
			}
		}
		// order-independent digest of (run, event log): equal for equal seeds at any worker count
		self.digest = self.digest.wrapping_add(mix(mix(idx) ^ h));
		add(&mut self.faults, &i["faults"]);
		add(&mut self.probes, &i["probes"]);
		if let Some(k) = i["known"].as_array() {
			for s in k {
				*self.known.entry(s.as_str().unwrap_or("").to_string()).or_insert(0) += 1;
			}
		}
		self.events += i["events"].as_u64().unwrap_or(0);
		self.steps += i["steps"].as_u64().unwrap_or(0);
		self.now_us += i["now_us"].as_u64().unwrap_or(0);
		self.tape_max = self.tape_max.max(i["tape_len"].as_u64().unwrap_or(0));
		if let Some(s) = i.get("sample") {
			if self.samples.len() < 4 {
				self.samples.push(json!({"run": idx, "case": s}));
			}
		}
	}
}

fn search(p: &Prop, seed: u64, runs: u64, cap_s: u64, workers: usize, shms: &[Shm]) -> (Batch, Option<(u64, Outcome)>, Option<String>) {
	let t0 = Instant::now();
	let mut b = Batch::new();
	let mut slot: Vec<Option<(i32, u64)>> = vec![None; workers];
	let mut next = 0u64;
	let mut found: Option<(u64, Outcome)> = None;
	let mut harness = None;
	loop {
		let stop = found.is_some() || harness.is_some() || next >= runs || t0.elapsed().as_secs() >= cap_s;
		if !stop {
			if let Some(k) = slot.iter().position(|s| s.is_none()) {
				let sample = next < 4;
				let pid = start(p, &Src::Seed(run_seed(seed, p.id, next)), &shms[k], false, sample);
				slot[k] = Some((pid, next));
				next += 1;
				continue;
			}
		}
		if slot.iter().all(|s| s.is_none()) {
			break;
		}
		let mut st = 0;
		let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
		if pid <= 0 {
			continue;
		}
		let Some(k) = slot.iter().position(|s| s.map(|x| x.0) == Some(pid)) else { continue };
		let idx = slot[k].take().unwrap().1;
		let o = outcome(st, &shms[k]);
		if let Some(h) = &o.harness {
			if harness.is_none() {
				harness = Some(format!("run {}: {}", idx, h));
			}
		} else if o.violation.is_some() {
			// the earliest failing run is the one reported, whatever the completion order
			if found.as_ref().map(|f| idx < f.0).unwrap_or(true) {
				found = Some((idx, o));
			}
		} else {
			b.take(idx, &o.info);
		}
	}
	(b, found, harness)
}

pub fn verif_dir() -> String {
	std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn arg(args: &[String], k: &str) -> Option<String> {
	args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn main(props: &[Prop]) -> i32 {
	let args: Vec<String> = std::env::args().collect();
	let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
	simrt::edge::init_shared();
	match cmd {
		"check" => {
			let id = arg(&args, "--prop").unwrap_or_default();
			let Some(p) = props.iter().find(|p| p.id == id) else {
				eprintln!("unknown property {}", id);
				return 2;
			};
			let tier = arg(&args, "--tier").unwrap_or_else(|| "quick".into());
			let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
			let t = (tier == "thorough") as usize;
			let runs = arg(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(p.runs[t]);
			let cap = arg(&args, "--cap").and_then(|s| s.parse().ok()).unwrap_or(p.cap_s[t]);
			check(p, &tier, seed, runs, cap, args.iter().any(|a| a == "--no-evidence"))
		}
		"replay" => {
			let Some(f) = args.get(2) else { return 2 };
			replay(props, f)
		}
		"digest" => {
			// event-log digest of a batch at a given worker count: the determinism self-test
			let id = arg(&args, "--prop").unwrap_or_default();
			let Some(p) = props.iter().find(|p| p.id == id) else { return 2 };
			if let Some(f) = p.prepare {
				if let Err(e) = f() {
					eprintln!("prepare: {}", e);
					return 2;
				}
			}
			let seed: u64 = arg(&args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
			let runs = arg(&args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
			let w: usize = arg(&args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(4);
			let shms: Vec<Shm> = (0..w).map(|_| Shm::new()).collect();
			let (b, f, h) = search(p, seed, runs, 600, w, &shms);
			println!("{} runs={} digest={:016x} found={} harness={:?}", id, b.runs, b.digest, f.is_some(), h);
			0
		}
		"list" => {
			for p in props {
				println!("{}", p.id);
			}
			0
		}
		_ => {
			eprintln!("usage: check --prop ID [--tier T] [--seed N] | replay FILE | digest --prop ID --workers N");
			2
		}
	}
}

fn replay(props: &[Prop], file: &str) -> i32 {
	let Ok(s) = std::fs::read_to_string(file) else {
		eprintln!("cannot read {}", file);
		return 2;
	};
	let Ok(v) = serde_json::from_str::<Value>(&s) else {
		eprintln!("bad replay file");
		return 2;
	};
	let id = v["property"].as_str().unwrap_or("");
	let Some(p) = props.iter().find(|p| p.id == id) else {
		eprintln!("unknown property {}", id);
		return 2;
	};
	if let Some(f) = p.prepare {
		if let Err(e) = f() {
			eprintln!("prepare: {}", e);
			return 2;
		}
	}
	let tape: Vec<u64> = v["tape"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
	let shm = Shm::new();
	let o = exec(p, &Src::Tape(tape), &shm, true);
	if let Some(h) = o.harness {
		eprintln!("harness error: {}", h);
		return 2;
	}
	if let Some(t) = o.info["trace"].as_array() {
		for l in t {
			println!("  {}", l.as_str().unwrap_or(""));
		}
	}
	match o.violation {
		Some(x) => {
			println!("class: {}\ndetail: {}", x.class, x.detail);
			println!("VIOLATION property={} replay={}", id, file);
			if Some(x.class.as_str()) == v["class"].as_str() {
				1
			} else {
				3
			}
		}
		None => {
			println!("no violation");
			0
		}
	}
}

fn check(p: &Prop, tier: &str, seed: u64, runs: u64, cap: u64, no_evidence: bool) -> i32 {
	let t0 = Instant::now();
	if let Some(f) = p.prepare {
		if let Err(e) = f() {
			eprintln!("prepare: {}", e);
			return 2;
		}
	}
	println!("{} tier={} seed={} runs<={} cap={}s", p.id, tier, seed, runs, cap);
	let shms: Vec<Shm> = (0..SLOTS).map(|_| Shm::new()).collect();
	let (b, found, harness) = search(p, seed, runs, cap, SLOTS, &shms);
	let wall = t0.elapsed().as_secs_f64();
	let mut code = 0;
	let mut replay_path = Value::Null;
	let mut violations = 0;
	if let Some((idx, o)) = found {
		violations = 1;
		let v = o.violation.clone().unwrap();
		println!("run {} (seed {}): {}: {}", idx, run_seed(seed, p.id, idx), v.class, v.detail);
		// the same tape in another process must fail the same way
		let again = exec(p, &Src::Tape(o.tape.clone()), &shms[0], false);
		if class_of(&again).as_deref() != Some(v.class.as_str()) {
			eprintln!("harness error: the violation did not replay ({:?})", again.violation);
			return 2;
		}
		let (tape, tries) = minimise(p, o.tape.clone(), &v.class, &shms[0], 25);
		let fin = exec(p, &Src::Tape(tape.clone()), &shms[0], true);
		let fv = fin.violation.clone().unwrap_or(v.clone());
		let dir = format!("{}/replays", verif_dir());
		let _ = std::fs::create_dir_all(&dir);
		let path = format!("{}/{}-{:016x}.json", dir, p.id, run_seed(seed, p.id, idx));
		let doc = json!({
			"property": p.id, "seed": seed, "run": idx, "run_seed": run_seed(seed, p.id, idx), "class": fv.class,
			"detail": fv.detail, "tape": tape, "choices_before_minimising": o.tape.len(), "minimising_runs": tries,
			"trace": fin.info["trace"], "faults": fin.info["faults"],
		});
		if std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap()).is_err() {
			eprintln!("cannot write {}", path);
			return 2;
		}
		let st = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
		match st {
			Ok(o) if o.status.code() == Some(1) => {}
			x => {
				eprintln!("harness error: the replay file did not reproduce: {:?}", x.map(|o| o.status));
				return 2;
			}
		}
		println!("minimised from {} to {} choices in {} runs", o.tape.len(), tape.len(), tries);
		if let Some(t) = fin.info["trace"].as_array() {
			for l in t.iter().take(60) {
				let l = l.as_str().unwrap_or("");
				println!("  {}", l.chars().take(300).collect::<String>());
			}
		}
		println!("{}: {}", fv.class, fv.detail.chars().take(2000).collect::<String>());
		println!("VIOLATION property={} replay={}", p.id, path);
		replay_path = Value::String(path);
		code = 1;
	} else if let Some(h) = harness {
		eprintln!("harness error: {}", h);
		return 2;
	} else {
		if b.runs >= runs {
			let missing: Vec<_> = p.must.iter().filter(|m| !b.faults.contains_key(**m) && !b.probes.contains_key(**m)).collect();
			if !missing.is_empty() {
				eprintln!("note: never reached in this batch: {:?}", missing);
			}
		}
		for (k, n) in &b.known {
			println!("KNOWN-FINDING: property={} {} (met in {} runs)", p.id, k, n);
		}
		println!("{}: {} runs, {} distinct, held ({:.1}s)", p.id, b.runs, b.distinct.len(), wall);
	}
	if !no_evidence {
		let cov = simrt::edge::covered();
		let mut samples = b.samples.clone();
		if samples.is_empty() {
			samples.push(json!({"note": "no run completed without a violation"}));
		}
		let ev = json!({
			"property": p.id, "tier": tier, "seed": seed, "level": p.level,
			"coverage": {
				"evaluations": b.runs + violations,
				"distinct_nontrivial": b.nontrivial.len(),
				"rule": p.rule,
				"samples": samples,
				"runs_per_hour": (b.runs as f64 / wall.max(0.001) * 3600.0) as u64,
				"seeds": b.runs,
				"simulated_seconds": b.now_us as f64 / 1e6,
				"events": b.events,
				"steps_in_code_under_test": b.steps,
				"faults_injected": b.faults,
				"probes": b.probes,
				"distinct_interleavings": b.inter.len(),
				"distinct_measure": "event-log hash per run; interleavings by the hash of the (thread, step) switch sequence or of the delivery order",
				"edges_of_code_under_test_reached": cov,
				"edges_of_code_under_test_total": simrt::edge::edges_total(),
				"longest_tape": b.tape_max,
				"event_log_digest": format!("{:016x}", b.digest),
				"real_components": p.real,
				"stub_components": p.stub,
				"replay": replay_path,
			},
			"assumptions": p.assumptions,
			"wall_s": wall,
			"violations": violations,
		});
		let path = format!("{}/evidence/{}.json", verif_dir(), p.id);
		let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
		if std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n").is_err() {
			eprintln!("cannot write {}", path);
			return 2;
		}
	}
	code
}
