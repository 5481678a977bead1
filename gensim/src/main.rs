//! C11: generating bindings from ABI files that are read well, badly or not at all.
use heck::{CamelCase, SnakeCase};
use simcore::child::{exec, scratch, Page};
use simcore::doc::*;
use simcore::driver::Prop;
use simcore::json;
use simcore::mty::*;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Tape, Violation};
use std::collections::{BTreeMap, BTreeSet};

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

type Res = Result<(), Violation>;
const FILE: &str = "sim.abi";

// ---- documents -------------------------------------------------------------------------------

const CLEAN: &[&str] = &["foo", "barBaz", "transferFrom", "Deposit", "OwnerSet", "x1", "balanceOf", "HTTPPing", "snake_case", "approve", "Big", "zeta9"];
const CLEANP: &[&str] = &["a", "toWhom", "value", "_data", "Owner", "snake_p", "n0"];
/// Ordinary names that generated code might also use for itself.
const PLAIN: &[&str] = &["f", "c", "e", "i", "v", "t", "out", "raw", "log", "code", "tokens", "inner", "iter", "output", "result", "input", "_code", "F", "data", "topic", "param", "name", "kind", "to", "from"];

/// A document every entry of which the generator supports: no structs, ordinary distinct names.
fn clean_doc(t: &mut Tape) -> MContract {
	let mut cfg = DocCfg::draw(t);
	cfg.types.tuples = false;
	cfg.types.depth = cfg.types.depth.min(3);
	cfg.types.max_fixed = cfg.types.max_fixed.min(5);
	cfg.max_entries = cfg.max_entries.min(9);
	cfg.max_params = cfg.max_params.min(6);
	cfg.odd_names = false;
	cfg.overloads = false;
	let mut m = gen_contract(t, &cfg);
	let (mut fs, mut es): (BTreeSet<usize>, BTreeSet<usize>) = Default::default();
	let tidy = |t: &mut Tape, i: usize, unnamed: bool| {
		if unnamed && t.chance(1, 4) {
			String::new()
		} else if t.chance(1, 3) {
			(*t.pick(PLAIN)).into()
		} else {
			format!("{}{}", t.pick(CLEANP), ["x", "y", "zed", "uv", "w", "kk", "mm", "nn"][i % 8])
		}
	};
	let mut keep = vec![];
	for mut e in m.entries.drain(..) {
		match &mut e {
			Entry::Func(f) => {
				let k = t.below(CLEAN.len() as u64) as usize;
				if !fs.insert(k) {
					continue;
				}
				f.name = CLEAN[k].into();
				for (i, p) in f.inputs.iter_mut().chain(f.outputs.iter_mut()).enumerate() {
					p.name = tidy(t, i, true);
				}
				for i in 0..f.inputs.len() {
					if f.inputs[..i].iter().any(|p| !p.name.is_empty() && p.name.to_snake_case() == f.inputs[i].name.to_snake_case()) {
						f.inputs[i].name = String::new();
					}
				}
			}
			Entry::Event(f) => {
				let k = t.below(CLEAN.len() as u64) as usize;
				if !es.insert(k) {
					continue;
				}
				f.name = CLEAN[k].into();
				for i in 0..f.inputs.len() {
					let n = tidy(t, i, true);
					let dup = f.inputs[..i].iter().any(|p| !p.name.is_empty() && p.name.to_snake_case() == n.to_snake_case());
					f.inputs[i].name = if dup { String::new() } else { n };
				}
			}
			Entry::Constructor(ps) => {
				for i in 0..ps.len() {
					let n = tidy(t, i, true);
					let dup = ps[..i].iter().any(|p| !p.name.is_empty() && p.name.to_snake_case() == n.to_snake_case());
					ps[i].name = if dup { String::new() } else { n };
				}
			}
			_ => {}
		}
		keep.push(e);
	}
	m.entries = keep;
	lengthen(t, &mut m);
	m
}

/// Now and then, many more entries, small ones with names of their own.
fn lengthen(t: &mut Tape, m: &mut MContract) {
	if !t.chance(1, 40) {
		return;
	}
	let n = [20u64, 40, 80, 150, 600][t.weighted(&[4, 4, 4, 4, 1])];
	let events = t.weighted(&[2, 1, 1]);
	let mut cfg = DocCfg::draw(t);
	cfg.types.tuples = false;
	cfg.types.depth = 1;
	cfg.types.max_fixed = 2;
	cfg.max_params = 2;
	for k in 0..n {
		let e = if events == 0 || events == 1 && k % 2 == 0 {
			let mut f = gen_func(t, &cfg, format!("pad{}", k));
			f.inputs.iter_mut().chain(f.outputs.iter_mut()).for_each(|p| p.name.clear());
			Entry::Func(f)
		} else {
			let mut f = gen_event(t, &cfg, format!("Pad{}", k));
			f.inputs.iter_mut().for_each(|p| p.name.clear());
			Entry::Event(f)
		};
		let at = t.below(m.entries.len() as u64 + 1) as usize;
		m.entries.insert(at, e);
	}
}

/// Any document at all: structs, overloads, names that are not identifiers.
fn wild_doc(t: &mut Tape) -> MContract {
	let mut cfg = DocCfg::draw(t);
	cfg.types.max_fixed = cfg.types.max_fixed.min(5);
	if t.chance(2, 3) {
		cfg.types.tuples = false;
	}
	cfg.overloads |= t.chance(1, 2);
	let mut m = gen_contract(t, &cfg);
	lengthen(t, &mut m);
	m
}

// ---- reading ---------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Trouble {
	None,
	Truncated(usize),
	ZeroTail(usize),
	ReadFails(usize, i32),
	OpenFails(i32),
	Missing,
	IsDirectory,
}

fn draw_trouble(t: &mut Tape, len: usize) -> Trouble {
	match t.weighted(&[0, 4, 1, 3, 2, 1, 1]) {
		1 => Trouble::Truncated(t.below(len as u64) as usize),
		2 => Trouble::ZeroTail(t.below(len as u64) as usize),
		3 => Trouble::ReadFails(t.below(len as u64 + 1) as usize, [libc::EIO, libc::ESTALE, libc::EAGAIN, libc::ENOMEM][t.below(4) as usize]),
		4 => Trouble::OpenFails([libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOENT, libc::ELOOP][t.below(5) as usize]),
		5 => Trouble::Missing,
		6 => Trouble::IsDirectory,
		_ => Trouble::None,
	}
}

fn name_of(t: &Trouble) -> &'static str {
	match t {
		Trouble::None => "none",
		Trouble::Truncated(_) => "file_truncated",
		Trouble::ZeroTail(_) => "file_zero_tail",
		Trouble::ReadFails(..) => "read_error",
		Trouble::OpenFails(_) => "open_error",
		Trouble::Missing => "file_missing",
		Trouble::IsDirectory => "path_is_a_directory",
	}
}

/// Interrupted and short reads: per call a cap or a negative errno.
fn arrival(t: &mut Tape) -> (Vec<i64>, Vec<i64>) {
	let n = t.below(40) as usize;
	let reads = (0..n)
		.map(|_| match t.weighted(&[3, 2, 2]) {
			0 => 1 + t.below(64) as i64,
			1 => -(libc::EINTR as i64),
			_ => 1,
		})
		.collect();
	let opens = (0..t.below(3)).map(|_| libc::EINTR as i64).collect();
	(reads, opens)
}

struct Dir(String);
impl Dir {
	fn new(k: u64) -> Dir {
		let d = Dir(format!("{}/{}-{}", scratch(), std::process::id(), k));
		drop(Dir(d.0.clone()));
		if std::fs::create_dir(&d.0).is_err() {
			panic!("scratch directory");
		}
		d
	}
	/// Puts the file there as the trouble leaves it. Gives whether the bytes still are the document.
	fn place(&self, text: &str, tr: &Trouble) -> bool {
		let path = format!("{}/{}", self.0, FILE);
		let _ = std::fs::remove_file(&path);
		let _ = std::fs::remove_dir(&path);
		let mut b = text.as_bytes().to_vec();
		let mut whole = true;
		match tr {
			Trouble::Truncated(k) => {
				b.truncate(*k);
				whole = json::parse(&b).is_some();
			}
			Trouble::ZeroTail(k) => {
				for x in b[*k..].iter_mut() {
					*x = 0;
				}
				whole = json::parse(&b).is_some();
			}
			Trouble::Missing => return false,
			Trouble::IsDirectory => {
				if std::fs::create_dir(&path).is_err() {
					panic!("scratch directory");
				}
				return false;
			}
			_ => {}
		}
		if std::fs::write(&path, b).is_err() {
			panic!("scratch file");
		}
		whole
	}
}
impl Drop for Dir {
	fn drop(&mut self) {
		let path = format!("{}/{}", self.0, FILE);
		let _ = std::fs::remove_file(&path);
		let _ = std::fs::remove_dir(&path);
		let _ = std::fs::remove_file(format!("{}/lib.rs", self.0));
		let _ = std::fs::remove_file(format!("{}/out.rmeta", self.0));
		let _ = std::fs::remove_dir(&self.0);
	}
}

fn clip(s: &str) -> String {
	s.chars().take(1500).collect()
}

// ---- expansion inside the simulator ----------------------------------------------------------

/// What an expansion binds: functions, events, logs by item name (with text), and the constructor.
#[derive(PartialEq, Default, Debug)]
struct Bound {
	constructor: Vec<String>,
	functions: Vec<(String, String)>,
	events: Vec<(String, String)>,
	logs: Vec<(String, String)>,
}

fn read_expansion(s: &str) -> Result<Bound, String> {
	let f: syn::File = syn::parse_str(s).map_err(|e| format!("the generated code does not parse: {}", e))?;
	let mut b = Bound::default();
	let text = |i: &dyn quote::ToTokens| i.to_token_stream().to_string();
	for i in &f.items {
		match i {
			syn::Item::Fn(f) if f.sig.ident == "constructor" => b.constructor.push(text(f)),
			syn::Item::Mod(m) => {
				let out = match m.ident.to_string().as_str() {
					"functions" => &mut b.functions,
					"events" => &mut b.events,
					"logs" => &mut b.logs,
					_ => continue,
				};
				for j in m.content.iter().flat_map(|c| &c.1) {
					match j {
						syn::Item::Mod(x) => out.push((x.ident.to_string(), text(x))),
						syn::Item::Struct(x) => out.push((x.ident.to_string(), text(x))),
						_ => {}
					}
				}
			}
			_ => {}
		}
	}
	for v in [&mut b.functions, &mut b.events, &mut b.logs] {
		v.sort();
	}
	Ok(b)
}

fn names(v: &[(String, String)]) -> Vec<String> {
	v.iter().map(|x| x.0.clone()).collect()
}

/// One binding for the constructor, for every function and for every event.
fn complete(b: &Bound, m: &MContract) -> Result<(), String> {
	let ctor = m.constructor().is_some() as usize;
	if b.constructor.len() != ctor {
		return Err(format!("{} constructor bindings for {} constructors", b.constructor.len(), ctor));
	}
	let want = |it: Vec<String>| {
		let mut v = it;
		v.sort();
		v
	};
	for (what, got, exp) in [
		("functions", names(&b.functions), want(m.funcs().map(|f| f.name.to_snake_case()).collect())),
		("events", names(&b.events), want(m.events().map(|f| f.name.to_snake_case()).collect())),
		("logs", names(&b.logs), want(m.events().map(|f| f.name.to_camel_case()).collect())),
	] {
		if got != exp {
			return Err(format!("{} bound are {:?}, the file has {:?}", what, got, exp));
		}
	}
	Ok(())
}

#[cfg(feature = "inside")]
mod inside {
	use super::*;
	use simrt::os::{set_file, FilePlan};

	/// Expands in the current simulated process. `Err`: the compilation fails (error or panic).
	pub fn expand(dir: &str, open_errs: Vec<i32>, reads: Vec<i64>, fail_at: Option<(usize, i32)>, c: &mut Counted) -> Result<String, String> {
		std::env::set_var("CARGO_MANIFEST_DIR", dir);
		set_file(Some(FilePlan { watch: FILE.into(), open_errs, reads, fail_at }));
		let ast: syn::DeriveInput = syn::parse_str(&format!("#[ethabi_contract_options(path = \"{}\")] struct _Dummy;", FILE)).unwrap();
		let r = simrt::lib(|| derivesim::expand(&ast).map(|t| t.to_string()).map_err(|e| e.to_string()));
		let st = set_file(None).unwrap();
		for (k, _) in &st.fired {
			*c.0.entry(k).or_insert(0) += 1;
		}
		match r {
			Err(p) => Err(format!("panic: {}", p)),
			Ok(r) => r,
		}
	}
}

#[derive(Default)]
struct Counted(BTreeMap<&'static str, u64>);
impl Counted {
	fn add(&self, c: &mut Ctx) {
		for (k, n) in &self.0 {
			*c.faults.entry(k).or_insert(0) += n;
		}
	}
	fn hard(&self) -> bool {
		self.0.contains_key("read_error") || self.0.contains_key("open_error")
	}
}

#[cfg(feature = "inside")]
fn expansions(c: &mut Ctx) -> Res {
	let clean = c.tape.chance(2, 3);
	let nfiles = 1 + c.tape.weighted(&[4, 2, 1]);
	let mut files: Vec<(MContract, String, Option<String>)> = vec![];
	for _ in 0..nfiles {
		let m = if clean { clean_doc(&mut c.tape) } else { wild_doc(&mut c.tape) };
		let f = Form::draw(&mut c.tape);
		let t = to_text(&m, &f);
		if let Some(tr) = &mut c.trace {
			tr.push(format!("file: {}", clip(&t)));
		}
		files.push((m, t, None));
	}
	let dir = Dir::new(0);
	// several compiler processes, each expanding some of the files in some order
	let procs = 2 + c.tape.below(2);
	let mut stirred = false;
	let mut good: Vec<Option<Bound>> = files.iter().map(|_| None).collect();
	for p in 0..procs {
		let hs = c.tape.below(1 << 16);
		let steps: Vec<(usize, Trouble, (Vec<i64>, Vec<i64>))> = (0..1 + c.tape.below(2 * nfiles as u64))
			.map(|_| {
				let k = c.tape.below(nfiles as u64) as usize;
				let tr = if c.tape.chance(1, 3) { draw_trouble(&mut c.tape, files[k].1.len()) } else { Trouble::None };
				let a = if c.tape.chance(1, 2) { arrival(&mut c.tape) } else { (vec![], vec![]) };
				(k, tr, a)
			})
			.collect();
		let texts: Vec<String> = files.iter().map(|f| f.1.clone()).collect();
		let (d, st) = (&dir, &steps);
		let out: Vec<(Result<String, String>, bool, Counted)> = simrt::process(hs, move || {
			st.iter()
				.map(|(k, tr, (reads, opens))| {
					let whole = d.place(&texts[*k], tr);
					let mut oe: Vec<i32> = opens.iter().map(|e| *e as i32).collect();
					let mut fail = None;
					match tr {
						Trouble::OpenFails(e) => oe.push(*e),
						Trouble::ReadFails(at, e) => fail = Some((*at, *e)),
						_ => {}
					}
					let mut cn = Counted::default();
					let r = inside::expand(&d.0, oe, reads.clone(), fail, &mut cn);
					(r, whole, cn)
				})
				.collect()
		});
		for ((k, tr, _), (r, whole, cn)) in steps.iter().zip(out) {
			let r = r.map_err(|e| e.replace(&dir.0, "DIR"));
			cn.add(c);
			stirred |= !cn.0.is_empty();
			if !matches!(tr, Trouble::None | Trouble::ReadFails(..) | Trouble::OpenFails(_)) {
				c.fault(name_of(tr));
			}
			let sound = whole && !cn.hard();
			ev!(c, "process {} (hash seed {}) expands file {} ({:?}, {:?}): {}", p, hs, k, tr, cn.0, match &r {
				Ok(s) => format!("{} bytes", s.len()),
				Err(e) => format!("fails: {}", e),
			});
			let (m, text, first) = &mut files[*k];
			match r {
				Err(e) => {
					if sound && clean {
						return violation("refused", format!("a supported file was refused: {} on {}", e, clip(text)));
					}
					if sound && first.is_some() {
						return violation("unstable", format!("the expansion succeeded before and now fails: {} on {}", e, clip(text)));
					}
					c.probe(if sound { "unsupported" } else { "trouble_reported" });
				}
				Ok(s) => {
					if !sound {
						return violation("partial", format!("bindings were generated although {} ({:?}) on {}", name_of(tr), tr, clip(text)));
					}
					let b = match read_expansion(&s) {
						Ok(b) => b,
						Err(_) if !clean => continue,
						Err(e) => return violation("unparsable", format!("{} on {}", e, clip(text))),
					};
					if let Err(e) = complete(&b, m) {
						return violation("incomplete", format!("{} on {}", e, clip(text)));
					}
					// the order of items within a module has no meaning
					match &good[*k] {
						Some(f) if *f != b => {
							let (x, y) = (format!("{:?}", f), format!("{:?}", b));
							return violation("unstable", format!("two expansions of one file differ on {}: {}", clip(text), first_difference(&x, &y)));
						}
						_ => *first = Some(s),
					}
					good[*k] = Some(b);
					c.probe("expanded");
				}
			}
		}
	}
	// each entry alone gives the binding it gives in company
	let k = c.tape.below(nfiles as u64) as usize;
	if let Some(b) = &good[k] {
		let m = &files[k].0;
		if !m.entries.is_empty() {
			let i = c.tape.below(m.entries.len() as u64) as usize;
			let one = MContract { entries: vec![m.entries[i].clone()] };
			// the same name may belong to several entries: any of them will do
			let text = to_text(&one, &Form::draw(&mut c.tape));
			dir.place(&text, &Trouble::None);
			let hs = c.tape.below(1 << 16);
			let d = &dir;
			let r = simrt::process(hs, move || inside::expand(&d.0, vec![], vec![], None, &mut Counted::default()));
			c.probe("entry_alone");
			let r = match r {
				Ok(s) => read_expansion(&s),
				Err(e) => Err(e),
			};
			match r {
				Err(e) => return violation("context", format!("entry {} alone fails: {} on {}", i, e, clip(&text))),
				Ok(a) => {
					if let Err(e) = complete(&a, &one) {
						return violation("incomplete", format!("{} on {}", e, clip(&text)));
					}
					let inside = a.constructor.iter().all(|x| b.constructor.contains(x))
						&& a.functions.iter().all(|x| b.functions.contains(x))
						&& a.events.iter().all(|x| b.events.contains(x))
						&& a.logs.iter().all(|x| b.logs.contains(x));
					if !inside {
						return violation("context", format!("entry {} is bound differently alone and in company on {}", i, clip(&files[k].1)));
					}
				}
			}
		}
	}
	c.trivial = !stirred && good.iter().all(|g| g.is_none());
	if c.want_sample {
		c.sample = Some(format!("{} files, {} compiler processes, {}", nfiles, procs, if clean { "supported" } else { "anything goes" }));
	}
	Ok(())
}

#[cfg(not(feature = "inside"))]
fn expansions(c: &mut Ctx) -> Res {
	compilation(c)
}

#[cfg(feature = "inside")]
fn first_difference(a: &str, b: &str) -> String {
	let i = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
	let cut = |s: &str| s.chars().skip(i.saturating_sub(40)).take(160).collect::<String>();
	format!("…{}… against …{}…", cut(a), cut(b))
}

// ---- real compilations -----------------------------------------------------------------------

/// A crate that binds the file and refers to every binding.
fn source(m: &MContract, refer: bool) -> String {
	let mut s = String::from("#![allow(warnings)]\nethabi_contract::use_contract!(sim, \"sim.abi\");\n");
	if refer {
		s.push_str("pub mod refs {\n");
		let mut k = 0;
		let mut u = |s: &mut String, p: String| {
			s.push_str(&format!("\tuse crate::sim::{} as _r{};\n", p, k));
			k += 1;
		};
		if m.constructor().is_some() {
			u(&mut s, "constructor".into());
		}
		for f in m.funcs() {
			for x in ["encode_input", "decode_output", "call"] {
				u(&mut s, format!("functions::{}::{}", f.name.to_snake_case(), x));
			}
		}
		for e in m.events() {
			for x in ["event", "filter", "wildcard_filter", "parse_log"] {
				u(&mut s, format!("events::{}::{}", e.name.to_snake_case(), x));
			}
			u(&mut s, format!("logs::{}", e.name.to_camel_case()));
		}
		s.push_str("}\n");
	}
	s
}

fn externs() -> Vec<String> {
	let p = format!("{}/target/extern/args", simcore::driver::verif_dir());
	std::fs::read_to_string(p).expect("externs").lines().map(|s| s.to_string()).collect()
}

fn compilation(c: &mut Ctx) -> Res {
	let clean = c.tape.chance(3, 4);
	let m = if clean { clean_doc(&mut c.tape) } else { wild_doc(&mut c.tape) };
	let form = Form::draw(&mut c.tape);
	let text = to_text(&m, &form);
	if let Some(tr) = &mut c.trace {
		tr.push(format!("file: {}", clip(&text)));
	}
	let dir = Dir::new(1);
	let tr = if c.tape.chance(1, 2) { draw_trouble(&mut c.tape, text.len()) } else { Trouble::None };
	let whole = dir.place(&text, &tr);
	let mut page = Page::calm(c.tape.below(1 << 16), FILE);
	let (reads, opens) = if c.tape.chance(2, 3) { arrival(&mut c.tape) } else { (vec![], vec![]) };
	page.n_reads = reads.len() as i64;
	page.reads[..reads.len()].copy_from_slice(&reads);
	page.n_opens = opens.len() as i64;
	page.opens[..opens.len()].copy_from_slice(&opens);
	match tr {
		Trouble::OpenFails(e) => {
			page.opens[page.n_opens as usize] = e as i64;
			page.n_opens += 1;
		}
		Trouble::ReadFails(at, e) => {
			page.read_fail_at = at as i64;
			page.read_fail_errno = e as i64;
		}
		_ => {}
	}
	// with nothing referred to, only the macro itself can notice that something is missing
	let refer = matches!(tr, Trouble::None) && clean;
	if std::fs::write(format!("{}/lib.rs", dir.0), source(&m, refer)).is_err() {
		panic!("scratch file");
	}
	let mut lines = externs().into_iter();
	let rustc = lines.next().expect("externs");
	let mut args: Vec<String> = ["--crate-type", "lib", "--crate-name", "bound", "--edition", "2021", "--emit=metadata", "-o", "out.rmeta", "--cap-lints", "allow", "lib.rs"]
		.iter()
		.map(|s| s.to_string())
		.collect();
	args.extend(lines);
	let env = vec![format!("CARGO_MANIFEST_DIR={}", dir.0), "PATH=/usr/bin:/bin".to_string()];
	let r = exec(&rustc, &args, &env, &dir.0, &page, 100);
	for (n, k) in [("short_read", r.c.read_short), ("read_interrupted", r.c.read_eintr), ("read_error", r.c.read_err), ("open_error", r.c.open_err)] {
		if k > 0 {
			*c.faults.entry(n).or_insert(0) += k as u64;
		}
	}
	if !matches!(tr, Trouble::None | Trouble::ReadFails(..) | Trouble::OpenFails(_)) {
		c.fault(name_of(&tr));
	}
	let sound = whole && r.c.read_err + r.c.open_err == 0;
	ev!(c, "compilation of a file of {} bytes ({:?}; opens {} reads {} interrupted {}): {}", text.len(), tr, r.c.open, r.c.read, r.c.read_eintr, r.show());
	if !libc::WIFEXITED(r.status) {
		panic!("the compiler died: {}", r.show());
	}
	c.probe("compiled_for_real");
	let err = || String::from_utf8_lossy(&r.err).chars().take(1200).collect::<String>();
	if r.c.open == 0 && !r.ok() && clean {
		// the macro never came to look at the file
		return violation("refused", format!("the macro fails before reading the file: {}", err()));
	}
	if r.ok() && !sound {
		return violation("partial", format!("the build succeeded although {} ({:?}) on {}", name_of(&tr), tr, clip(&text)));
	}
	if clean && sound && !r.ok() {
		return violation("refused", format!("the bindings of a supported file do not compile or are missing: {} on {}", err(), clip(&text)));
	}
	c.probe(if r.ok() { "build_succeeded" } else { "build_failed" });
	if c.want_sample {
		c.sample = Some(format!("rustc with the real macro on a file of {} bytes, {:?}", text.len(), tr));
	}
	Ok(())
}

fn c11(c: &mut Ctx) -> Res {
	if c.tape.chance(1, 60) {
		compilation(c)
	} else {
		expansions(c)
	}
}

fn main() {
	let inside = cfg!(feature = "inside");
	std::process::exit(simcore::driver::main(&[Prop {
		id: "C11",
		run: c11,
		runs: if inside { [20_000, 600_000] } else { [400, 12_000] },
		cap_s: [70, 800],
		level: "exploration",
		rule: "one run = either up to three ABI files expanded several times in simulated compiler processes with different hash seeds, read splits and file faults, or one real compilation with the real macro under an interposed file layer; non-trivial when something was expanded or a fault fired",
		real: &["ethabi-derive expansion code and macro, ethabi-contract, ethabi loader", "rustc (in the real compilations)"],
		stub: &["open and read of the ABI file", "hash-seed source", "compiler process (in the expansions)"],
		assumptions: &["the expansion code reached through the guarded hook is what the macro entry point calls; the real compilations check the entry point itself"],
		must: if inside {
			&["expanded", "trouble_reported", "entry_alone", "compiled_for_real", "file_truncated", "read_error", "open_error", "file_missing", "path_is_a_directory", "read_interrupted", "build_succeeded", "build_failed"]
		} else {
			&["compiled_for_real", "file_truncated", "read_error", "open_error", "build_succeeded", "build_failed"]
		},
		prepare: None,
	}]));
}
