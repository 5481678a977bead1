//! C10: runs of the command-line executable over an operating system that misbehaves.
use crate::load::{draw_doc_with, ev_doc, Need};
use crate::logs::{read_log, Reading};
use crate::ops::{emit, log_vals};
use crate::wire::{self, Res};
use simcore::child::{exec, scratch, Ended, Page, NOPENS, NREADS, NWRITES};
use simcore::codec::{self, DecErr};
use simcore::doc::*;
use simcore::mty::*;
use simcore::{json, text};
use simrt::ctx::violation;
use simrt::{ev, Ctx, Tape, Violation};

const FILE: &str = "contract.abi";

/// A request to the tool and what it has to answer.
struct Req {
	args: Vec<String>,
	/// The answer, if there is a correct one.
	answer: Option<String>,
	/// Whether refusing is allowed although there is an answer (damaged data).
	may_refuse: bool,
	uses_file: bool,
	what: &'static str,
}

fn plain_name(s: &str) -> bool {
	!s.is_empty() && s.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '$')
}

/// Text that denotes no value of the type.
fn wrong_text(t: &mut Tape, ty: &MType, v: &MVal, lenient: bool, d: u32) -> Option<String> {
	if d < 5 && t.chance(1, 2) {
		let inner = match (v, ty) {
			(MVal::Array(x), MType::Array(e)) | (MVal::FixedArray(x), MType::FixedArray(e, _)) if !x.is_empty() => {
				Some((x, vec![(**e).clone(); x.len()], '[', ']'))
			}
			(MVal::Tuple(x), MType::Tuple(ts)) => Some((x, ts.clone(), '(', ')')),
			_ => None,
		};
		if let Some((x, ts, o, e)) = inner {
			let k = t.below(x.len() as u64) as usize;
			let mut p = vec![];
			for (i, y) in x.iter().enumerate() {
				p.push(if i == k { wrong_text(t, &ts[i], y, lenient, d + 1)? } else { text::item(t, y, lenient)? });
			}
			return Some(format!("{}{}{}", o, p.join(","), e));
		}
	}
	// text around or after a complete list or struct, or a quotation that does not end
	if let MVal::Array(x) | MVal::FixedArray(x) | MVal::Tuple(x) = v {
		if t.chance(1, 3) {
			let p = x.iter().map(|y| text::item(t, y, lenient)).collect::<Option<Vec<_>>>()?.join(",");
			let (o, e) = if matches!(v, MVal::Tuple(_)) { ('(', ')') } else { ('[', ']') };
			let extra = *t.pick(&["x", "0", "é", "_"]);
			return Some(match t.below(5) {
				0 => format!("{}{}{}{}", o, p, e, extra),
				1 => format!("{}{}{}{}", extra, o, p, e),
				2 => format!("{}{}{}{}{}{}", o, p, e, o, p, e),
				3 => format!("{}{}{}{}{}{}", o, p, e, extra, extra, e),
				_ => format!("{}{}\"{}", o, p, e),
			});
		}
	}
	let parts = |t: &mut Tape, x: &[MVal]| x.iter().map(|y| text::item(t, y, lenient)).collect::<Option<Vec<_>>>();
	Some(match v {
		MVal::Bool(_) => (*t.pick(&["2", "yes", "True", "truee", "01", "-"])).into(),
		MVal::Address(a) => match t.below(4) {
			0 => hex(&a[..19]),
			1 => format!("{}00", hex(a)),
			2 => format!("{}g", &hex(a)[..39]),
			_ => hex(a)[..39].into(),
		},
		MVal::FixedBytes(b) => match t.below(3) {
			0 => format!("{}00", hex(b)),
			1 => format!("{}z", &hex(b)[..b.len() * 2 - 1]),
			_ => hex(b)[..b.len() * 2 - 1].into(),
		},
		MVal::Bytes(b) => match t.below(2) {
			0 => format!("{}0", hex(b)),
			_ => format!("{}xy", hex(b)),
		},
		MVal::Uint(w) | MVal::Int(w) => {
			let signed = matches!(v, MVal::Int(_));
			if lenient && t.chance(1, 3) {
				// not quite decimal numbers
				let odd: &[&str] = match (d == 0, signed) {
					(true, false) => &["", "+5", " 5", "5 ", "0x10", "1_000", "1.0", "٣", "5,", "-5"],
					(true, true) => &["", "+5", " 5", "5 ", "0x10", "5-", "1.0", "٣", "- 5", "1e3"],
					(false, false) => &["+5", " 5", "5 ", "0x10", "1_000", "1.0", "٣", "-5", "-0", "-"],
					(false, true) => &["+5", " 5", "5 ", "0x10", "5-", "1.0", "٣", "--5", "-", "--", "-+5", "--0"],
				};
				return Some((*t.pick(odd)).into());
			}
			match t.below(4) {
				0 if !lenient => hex(&w[1..]),
				0 => "115792089237316195423570985008687907853269984665640564039457584007913129639936".into(),
				1 => format!("{}g", &hex(w)[..63]),
				2 if lenient && signed => "57896044618658097711785492504343953926634992332820282019728792003956564819968".into(),
				2 => format!("{}0a", hex(w)),
				_ if lenient && !signed => "12x".into(),
				_ => "1f".into(),
			}
		}
		MVal::Str(_) => return None,
		MVal::FixedArray(x) => {
			let mut p = parts(t, x)?;
			match t.below(4) {
				0 => {
					p.pop();
				}
				1 => p.push(p[0].clone()),
				2 => return Some(format!("[{}", p.join(","))),
				_ => return Some(format!("{{{}}}", p.join(","))),
			}
			if p.len() == 1 && p[0].is_empty() {
				return None;
			}
			format!("[{}]", p.join(","))
		}
		MVal::Array(x) => {
			let p = parts(t, x)?;
			match t.below(3) {
				0 => format!("[{}", p.join(",")),
				1 => format!("{}]", p.join(",")),
				_ => format!("({})", p.join(",")),
			}
		}
		MVal::Tuple(x) => {
			let mut p = parts(t, x)?;
			match t.below(4) {
				0 if p.len() > 1 => {
					p.pop();
				}
				0 | 1 => p.push("0".into()),
				2 => return Some(format!("({}", p.join(","))),
				_ => return Some(format!("[{}]", p.join(","))),
			}
			format!("({})", p.join(","))
		}
	})
}

/// Values in the tool's notation; `None` if one cannot be written.
fn texts(t: &mut Tape, types: &[MType], lenient: bool, hyphen_ok: bool) -> Option<(Vec<MVal>, Vec<String>)> {
	let mut vals = vec![];
	let mut out = vec![];
	for ty in types {
		let mut done = false;
		for _ in 0..4 {
			let mut v = gen_val(t, ty, &mut 40);
			if t.chance(1, 3) {
				text::dress(t, &mut v);
			}
			if let Some(s) = text::arg(t, &v, lenient) {
				let hyphen = s.starts_with('-') && !(hyphen_ok && matches!(v, MVal::Int(_)));
				if !s.contains('\0') && !hyphen && s.len() < 60_000 {
					vals.push(v);
					out.push(s);
					done = true;
					break;
				}
			}
		}
		if !done {
			return None;
		}
	}
	Some((vals, out))
}

fn lines(names: &[String], vals: &[MVal]) -> String {
	names.iter().zip(vals).map(|(n, v)| format!("{} {}", n, text::display(v))).collect::<Vec<_>>().join("\n")
}

/// Data for a decode request: intact, damaged, or not hexadecimal at all.
fn data_for(c: &mut Ctx, types: &[MType], names: &[String]) -> Option<(String, Option<String>, bool)> {
	let vals = gen_vals(&mut c.tape, types, &mut 60);
	let mut data = codec::encode(&vals);
	match c.tape.weighted(&[6, 3, 1]) {
		1 => {
			wire::damage(c, &mut data, 0);
			let h = hex(&data);
			match codec::decode(types, &data, wire::FUEL).0 {
				Ok(v) => Some((h, Some(lines(names, &v)), true)),
				Err(DecErr::Invalid) => Some((h, None, false)),
				Err(DecErr::TooBig) => None,
			}
		}
		2 => {
			c.fault("not_hexadecimal");
			let mut h = hex(&data);
			match c.tape.below(3) {
				0 => h.push('0'),
				1 => h.push_str("0g"),
				_ => h.insert_str(0, "é"),
			}
			Some((h, None, false))
		}
		_ => Some((hex(&data), Some(lines(names, &vals)), false)),
	}
}

/// How the tool may be asked for a function, and whether that is enough to find it.
fn address_func(c: &mut Ctx, m: &MContract, f: &MFunc) -> (String, bool) {
	let same = m.funcs().filter(|g| g.name == f.name).count();
	match c.tape.weighted(&[5, 5, 1, 1]) {
		0 => (f.name.clone(), same == 1),
		1 => (f.full_sig(), true),
		2 => {
			let n = format!("{}Q", f.name);
			let known = m.funcs().any(|g| g.name == n);
			(n, known)
		}
		_ => {
			let s = format!("{}(uint7)", f.name);
			(s, false)
		}
	}
}

fn request(c: &mut Ctx, m: &MContract) -> Option<Req> {
	let funcs: Vec<&MFunc> = m.funcs().filter(|f| plain_name(&f.name)).collect();
	let evs: Vec<&MEvent> = m.events().filter(|e| plain_name(&e.name)).collect();
	let kind = c.tape.weighted(&[3, if funcs.is_empty() { 0 } else { 4 }, 3, if funcs.is_empty() { 0 } else { 4 }, if evs.is_empty() { 0 } else { 4 }, 1]);
	let own = {
		let cfg = TypeCfg::draw(&mut c.tape);
		gen_types(&mut c.tape, &cfg, 4)
	};
	let lenient = c.tape.chance(1, 2);
	Some(match kind {
		0 | 1 => {
			let mut good = true;
			let (f, target) = if kind == 1 {
				let f = *c.tape.pick(&funcs);
				let (n, ok) = address_func(c, m, f);
				good &= ok;
				(Some(f), n)
			} else {
				(None, String::new())
			};
			let types = f.map(|f| f.in_types()).unwrap_or(own);
			let (vals, mut tx) = texts(&mut c.tape, &types, lenient, kind == 0)?;
			match c.tape.weighted(&[5, 2, 1]) {
				1 if !types.is_empty() => {
					let k = c.tape.below(types.len() as u64) as usize;
					let w = wrong_text(&mut c.tape, &types[k], &vals[k], lenient, 0)?;
					if w.starts_with('-') {
						return None;
					}
					c.fault("malformed_value");
					tx[k] = w;
					good = false;
				}
				2 if kind == 1 => {
					c.fault("wrong_number_of_values");
					if tx.is_empty() || c.tape.chance(1, 2) {
						tx.push(if tx.is_empty() { "0".into() } else { tx[0].clone() });
					} else {
						tx.pop();
					}
					good = false;
				}
				_ => {}
			}
			let mut args: Vec<String> = vec!["encode".into()];
			let mut opts: Vec<String> = vec![];
			if kind == 0 {
				args.push("params".into());
				for (t, v) in types.iter().zip(&tx) {
					opts.extend(["-v".to_string(), t.canonical(), v.clone()]);
				}
			} else {
				args.extend(["function".to_string(), FILE.into(), target]);
				for v in &tx {
					opts.extend(["-p".to_string(), v.clone()]);
				}
			}
			if lenient {
				let l = if c.tape.chance(1, 2) { "-l" } else { "--lenient" }.to_string();
				if c.tape.chance(1, 2) {
					opts.push(l);
				} else {
					opts.insert(0, l);
				}
			}
			args.extend(opts);
			let mut want = f.map(|f| codec::selector(&f.sig()).to_vec()).unwrap_or_default();
			want.extend(codec::encode(&vals));
			Req { args, answer: if good { Some(hex(&want)) } else { None }, may_refuse: false, uses_file: kind == 1, what: if kind == 0 { "encode_params" } else { "encode_function" } }
		}
		2 | 3 => {
			let mut good = true;
			let (f, target) = if kind == 3 {
				let f = *c.tape.pick(&funcs);
				let (n, ok) = address_func(c, m, f);
				good &= ok;
				(Some(f), n)
			} else {
				(None, String::new())
			};
			let types = f.map(|f| f.out_types()).unwrap_or(own);
			let names: Vec<String> = types.iter().map(|t| t.canonical()).collect();
			let (h, answer, may) = data_for(c, &types, &names)?;
			if h.len() > 100_000 {
				return None;
			}
			let mut args: Vec<String> = vec!["decode".into()];
			if kind == 2 {
				args.push("params".into());
				for n in &names {
					args.extend(["-t".to_string(), n.clone()]);
				}
			} else {
				args.extend(["function".to_string(), FILE.into(), target]);
			}
			args.push(h);
			Req { args, answer: if good { answer } else { None }, may_refuse: may, uses_file: kind == 3, what: if kind == 2 { "decode_params" } else { "decode_function" } }
		}
		4 => {
			let i = c.tape.below(evs.len() as u64) as usize;
			let mut e = evs[i];
			let same = evs.iter().filter(|g| g.name == e.name).count();
			let mut good = true;
			let target = match c.tape.weighted(&[5, 5, 1]) {
				0 => {
					good &= same == 1;
					e.name.clone()
				}
				1 => {
					// the first event of that signature is meant
					e = evs.iter().find(|g| g.name == e.name && g.sig() == e.sig()).unwrap();
					let s = e.sig();
					if c.tape.chance(1, 4) {
						s.replace(',', ", ")
					} else {
						s
					}
				}
				_ => {
					good = false;
					format!("{}(uint7)", e.name)
				}
			};
			let vals = gen_vals(&mut c.tape, &e.types(), &mut 60);
			let (mut topics, mut data) = emit(e, &vals);
			let answer;
			let mut may = false;
			if c.tape.chance(1, 3) {
				match c.tape.below(3) {
					0 if !topics.is_empty() => {
						c.fault("topic_lost");
						let k = c.tape.below(topics.len() as u64) as usize;
						topics.remove(k);
					}
					1 => {
						c.fault("topic_added");
						topics.push([7; 32]);
					}
					_ => wire::damage(c, &mut data, 0),
				}
				may = true;
				answer = match read_log(e, &topics, &data) {
					Reading::Refuse(_) => None,
					Reading::Exactly(v) => Some(v.iter().map(|(n, v)| format!("{} {}", n, text::display(v))).collect::<Vec<_>>().join("\n")),
					Reading::Unbounded => return None,
				};
			} else {
				let v = log_vals(e, &vals);
				answer = Some(v.iter().map(|(n, v)| format!("{} {}", n, text::display(v))).collect::<Vec<_>>().join("\n"));
			}
			let mut args: Vec<String> = vec!["decode".into(), "log".into(), FILE.into(), target];
			for t in &topics {
				args.extend(["-l".to_string(), hex(t)]);
			}
			let h = hex(&data);
			if h.len() > 100_000 {
				return None;
			}
			args.push(h);
			Req { args, answer: if good { answer } else { None }, may_refuse: may, uses_file: true, what: "decode_log" }
		}
		_ => {
			// type names that are no types
			c.fault("malformed_type");
			let mut bad: String = (*c.tape.pick(&["uint256[", "foo", "(uint256", "uint256)", "uint256[x]", "tupl", "uint256[]]", "[]", "é", "bytes[,]", "(bool,)x", "", "(bool)(bool)"])).into();
			let mut given = "1".to_string();
			if c.tape.chance(1, 2) {
				// a sound name without one of its brackets, and a value that would do for the rest
				let mut cfg = TypeCfg::draw(&mut c.tape);
				cfg.depth = cfg.depth.max(2);
				let ty = gen_type(&mut c.tape, &cfg);
				let name = ty.canonical();
				let brackets: Vec<usize> = name.char_indices().filter(|(_, x)| "()[]".contains(*x)).map(|(i, _)| i).collect();
				if !brackets.is_empty() {
					let at = *c.tape.pick(&brackets);
					bad = format!("{}{}", &name[..at], &name[at + 1..]);
					let v = gen_val(&mut c.tape, &ty, &mut 20);
					given = text::arg(&mut c.tape, &v, false).filter(|s| !s.starts_with('-') && !s.contains('\0') && s.len() < 60_000).unwrap_or(given);
				}
			}
			let args = if c.tape.chance(1, 2) {
				vec!["encode".into(), "params".into(), "-v".into(), bad, given]
			} else {
				vec!["decode".into(), "params".into(), "-t".into(), bad, hex(&[0; 64])]
			};
			Req { args, answer: None, may_refuse: false, uses_file: false, what: "malformed_type" }
		}
	})
}

/// Draws what the operating system does during one execution. Gives (plan, name, whether it can only
/// delay: then the outcome has to be that of a calm execution).
fn weather(c: &mut Ctx, file_len: usize, answer_len: usize) -> (Page, &'static str) {
	let hs = c.tape.below(1 << 16);
	let mut p = Page::calm(hs, FILE);
	// benign disturbances
	if c.tape.chance(2, 3) {
		let n = c.tape.below(NREADS as u64 + 1) as usize;
		p.n_reads = n as i64;
		for i in 0..n {
			p.reads[i] = match c.tape.weighted(&[3, 2, 2]) {
				0 => 1 + c.tape.below(64) as i64,
				1 => -(libc::EINTR as i64),
				_ => 1,
			};
		}
		p.read_cap = [0i64, 1, 7, 512, 4096][c.tape.weighted(&[4, 1, 1, 1, 1])];
		if file_len > 20_000 && p.read_cap == 1 {
			p.read_cap = 7;
		}
		let n = c.tape.below(4) as usize;
		p.n_opens = n as i64;
		for i in 0..n {
			p.opens[i] = libc::EINTR as i64;
		}
	}
	if c.tape.chance(2, 3) {
		let n = c.tape.below(NWRITES as u64 + 1) as usize;
		p.n_writes = n as i64;
		for i in 0..n {
			p.writes[i] = match c.tape.weighted(&[3, 2, 2]) {
				0 => 1 + c.tape.below(64) as i64,
				1 => -(libc::EINTR as i64),
				_ => 1,
			};
		}
		p.write_cap = [0i64, 1, 7, 512][c.tape.weighted(&[4, 1, 1, 1])];
		if answer_len > 20_000 && p.write_cap == 1 {
			p.write_cap = 7;
		}
	}
	// one failure
	let kind = c.tape.weighted(&[5, 2, 2, 4, 3]);
	let name = match kind {
		1 => {
			let at = (p.n_opens as usize).min(NOPENS - 1);
			p.opens[at] = [libc::EACCES, libc::ENOENT, libc::EMFILE, libc::EIO, libc::ENOMEM][c.tape.below(5) as usize] as i64;
			p.n_opens = at as i64 + 1;
			"open_fails"
		}
		2 => {
			p.read_fail_at = c.tape.below(file_len as u64 + 1) as i64;
			p.read_fail_errno = [libc::EIO, libc::ESTALE, libc::ENOMEM, libc::EAGAIN][c.tape.below(4) as usize] as i64;
			"read_fails"
		}
		3 => {
			let total = answer_len as u64 + 1;
			p.write_fail_at = match c.tape.weighted(&[3, 3, 2]) {
				0 => 0,
				1 => c.tape.below(total),
				_ => total.saturating_sub(1 + c.tape.below(3)),
			} as i64;
			p.write_fail_errno = [libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EDQUOT, libc::EFBIG, 0][c.tape.below(6) as usize] as i64;
			if c.tape.chance(1, 3) {
				p.stderr_errno = libc::ENOSPC as i64;
			}
			"output_fails"
		}
		4 => {
			let span = [20u64, 100, 400, 2000][c.tape.below(4) as usize];
			p.alloc_fail_at = 1 + c.tape.below(span) as i64;
			p.alloc_fail_n = [1i64, 2, 1 << 40][c.tape.weighted(&[4, 1, 2])];
			p.alloc_min = [0i64, 64, 512][c.tape.weighted(&[4, 1, 1])];
			"allocation_fails"
		}
		_ => "calm_or_slow",
	};
	(p, name)
}

struct Dir(String);
impl Drop for Dir {
	fn drop(&mut self) {
		let _ = std::fs::remove_file(format!("{}/{}", self.0, FILE));
		let _ = std::fs::remove_dir(&self.0);
	}
}

fn quote(a: &[String]) -> String {
	let s: Vec<String> = a.iter().map(|s| if s.is_empty() || s.contains([' ', '"', '\n', '(', '[']) { format!("{:?}", s) } else { s.clone() }).collect();
	let s = s.join(" ");
	if s.chars().count() > 3000 {
		format!("{}…", s.chars().take(3000).collect::<String>())
	} else {
		s
	}
}

fn cut(b: &[u8]) -> String {
	let s = String::from_utf8_lossy(b);
	if s.chars().count() > 700 {
		format!("{:?}… ({} bytes)", s.chars().take(700).collect::<String>(), b.len())
	} else {
		format!("{:?}", s)
	}
}

/// Judges one execution.
fn verdict(r: &Ended, cmd: &str, answer: Option<&str>, must: bool) -> Result<bool, Violation> {
	if libc::WIFSIGNALED(r.status) && libc::WTERMSIG(r.status) == libc::SIGALRM {
		return violation("no-progress", format!("`{}` did not end", cmd));
	}
	if libc::WIFEXITED(r.status) && libc::WEXITSTATUS(r.status) >= 250 {
		panic!("the executable could not be started");
	}
	let full = answer.map(|a| format!("{}\n", a));
	if r.ok() {
		return match &full {
			Some(f) if *f.as_bytes() == r.out[..] => Ok(true),
			Some(f) => violation("wrong-answer", format!("`{}` exited 0 with {} instead of {}", cmd, cut(&r.out), cut(f.as_bytes()))),
			None => violation("false-success", format!("`{}` exited 0 with {} although it has no answer", cmd, cut(&r.out))),
		};
	}
	if must {
		return violation("refused", format!("`{}` ended with {} although nothing failed: {}", cmd, r.show(), cut(&r.err)));
	}
	let fine = match &full {
		Some(f) => f.as_bytes().starts_with(&r.out) && r.out.len() < f.len(),
		None => r.out.is_empty(),
	};
	if !fine {
		return violation("false-answer", format!("`{}` ended with {} but wrote {}", cmd, r.show(), cut(&r.out)));
	}
	Ok(false)
}

pub fn c10(c: &mut Ctx) -> Res {
	let need = [Need::Func, Need::Event, Need::Nothing][c.tape.weighted(&[3, 2, 1])];
	let (m, doc) = draw_doc_with(c, need);
	ev_doc(c, &doc);
	let dir = Dir(format!("{}/{}", scratch(), std::process::id()));
	// a directory left by an earlier process of the same number is emptied
	drop(Dir(dir.0.clone()));
	if std::fs::create_dir(&dir.0).is_err() {
		panic!("scratch directory");
	}
	let n = 1 + c.tape.weighted(&[3, 2, 1]);
	let mut done = 0;
	for _ in 0..n {
		let Some(q) = request(c, &m) else { continue };
		let cmd = quote(&q.args);
		c.probe(q.what);
		ev!(c, "request: {} ({})", cmd, if q.answer.is_some() { "has an answer" } else { "has none" });
		let times = 1 + c.tape.below(2);
		for k in 0..times {
			let mut bytes = doc.clone().into_bytes();
			let mut answer = q.answer.clone();
			let (mut page, mut kind) = weather(c, bytes.len(), answer.as_ref().map(|a| a.len()).unwrap_or(200));
			let path = format!("{}/{}", dir.0, FILE);
			let mut present = true;
			if kind == "calm_or_slow" && q.uses_file {
				match c.tape.weighted(&[8, 2, 1, 1]) {
					1 => {
						let at = c.tape.below(bytes.len() as u64) as usize;
						bytes.truncate(at);
						kind = "file_truncated";
						if json::parse(&bytes).is_none() {
							answer = None;
						}
					}
					2 => {
						present = false;
						answer = None;
						kind = "file_missing";
					}
					3 => {
						// the newest part of the file was never written
						let at = c.tape.below(bytes.len() as u64) as usize;
						for b in bytes[at..].iter_mut() {
							*b = 0;
						}
						kind = "file_zero_tail";
						if json::parse(&bytes).is_none() {
							answer = None;
						} else {
							// cut inside a trailing white space at most
							page.read_cap = 0;
						}
					}
					_ => {}
				}
			}
			let _ = std::fs::remove_file(&path);
			if present {
				if std::fs::write(&path, &bytes).is_err() {
					panic!("scratch file");
				}
			}
			let shipped = c.tape.chance(1, 2);
			let bin = format!("{}/target/cli/{}/ethabi", simcore::driver::verif_dir(), if shipped { "release" } else { "checked" });
			let r = exec(&bin, &q.args, &[], &dir.0, &page, 20);
			let w = &r.c;
			for (n, k) in [
				("short_read", w.read_short),
				("interrupted_read", w.read_eintr),
				("read_error", w.read_err),
				("open_error", w.open_err),
				("short_write", w.write_short),
				("interrupted_write", w.write_eintr),
				("write_error", w.write_err),
				("stderr_error", w.stderr_err),
				("allocation_failure", w.alloc_fail),
			] {
				if k > 0 {
					*c.faults.entry(n).or_insert(0) += k as u64;
				}
			}
			if kind.starts_with("file_") {
				c.fault(kind);
			}
			let hard = w.read_err + w.open_err + w.write_err + w.alloc_fail > 0;
			let must = answer.is_some() && !hard && !q.may_refuse;
			ev!(c, "execution {} ({}, {} build, hash seed {}): {:?}: {} wrote {} bytes", k, kind, if shipped { "shipped" } else { "checked" }, page.hash_seed, w, r.show(), r.out.len());
			let ok = verdict(&r, &cmd, answer.as_deref(), must)?;
			c.probe(if ok { "answered" } else { "not_answered" });
			done += 1;
		}
	}
	c.trivial = done == 0;
	if c.want_sample {
		c.sample = Some(format!("{} executions against a file of {} bytes", done, doc.len()));
	}
	Ok(())
}
