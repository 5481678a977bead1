//! C04: documents damaged in storage.
use crate::load::{clip, draw_doc, ev_doc};
use crate::wire::{self, Res};
use simcore::adapt::kind_to_m;
use simcore::codec;
use simcore::doc::*;
use simcore::json::{self, render, J};
use simcore::mty::*;
use simcore::stream::*;
use simrt::ctx::violation;
use simrt::{ev, Ctx, Tape};

// ---- damage to the text of type names and to the tree --------------------------------------------

const ODD_TYPES: &[&str] = &[
	"", "[", "]", "[]", "][", "uint256[", "uint256]", "uint256[[]", "uint256[]]", "[3]uint", "(", ")", "()", "(,)", "(uint256", "uint256)",
	"uint256)(", "(uint256,bool)", "((uint256)", "(uint256))", "(uint256),(bool)", "(uint256)x", "(()", "tuple(uint256)", "tuple[", "tuple[]",
	"tuple[2][]", "uint0", "uint", "uint-8", "uint+8", "uint 8", "uint99999999999999999999999", "int257", "uint7", "bytes0", "bytes33",
	"bytes4294967296", "bytes-1", "bytes18446744073709551615", "address[18446744073709551615]", "address[18446744073709551616]",
	"address[-1]", "address[0]", "address[0][]", "bool[4294967295]", "string[4294967296][4294967296]", "uint256[2][0]", "é", "uint256[é]",
	"é[]", "[é", "(é)", "é)", "(é,é)", "日本", "日]", "\u{0}", "uint256\u{0}", " uint256", "uint256 ", "Uint256", "fixed128x18", "function",
	"mapping(address => uint256)", "uint256[][", "uint256[1,2]", "(uint256[],(bool,bytes)[2])[]", "(((((uint8)))))", "(uint8,)", "(,uint8)",
	"(uint8,,bool)", "uint8,bool", "uint8[9999999999]", "int8[1][1][1][1][1][1][1][1]",
];

fn odd_type(t: &mut Tape, old: &str) -> String {
	match t.weighted(&[5, 3, 3, 2, 2, 2]) {
		0 => t.pick(ODD_TYPES).to_string(),
		1 => {
			// one character of the old name changed, lost, doubled or inserted
			let mut cs: Vec<char> = old.chars().collect();
			let k = t.below(cs.len() as u64 + 1) as usize;
			let new = *t.pick(&['[', ']', '(', ')', ',', '0', '9', 'é', '日', ' ', '\u{0}', 'u', '😀', '-']);
			match t.below(3) {
				0 if k < cs.len() => cs[k] = new,
				1 if k < cs.len() => {
					cs.remove(k);
				}
				_ => cs.insert(k, new),
			}
			cs.into_iter().collect()
		}
		2 => format!("{}{}", old, t.pick(&["[]", "[", "]", "[2]", "[0]", ")", "(", ",", "[18446744073709551615]", "[1e3]", "é"])),
		3 => {
			let n = [20usize, 100, 127, 128, 129, 300, 5000, 20_000][t.below(8) as usize];
			format!("{}{}", old, t.pick(&["[]", "[1]", "["]).repeat(n))
		}
		4 => {
			let n = [20usize, 50, 60, 64, 100, 127, 128, 129, 300, 5000, 20_000][t.below(11) as usize];
			let close = if t.chance(1, 4) { n - 1 } else { n };
			format!("{}{}{}", "(".repeat(n), old, ")".repeat(close))
		}
		_ => {
			// many components
			let n = [2usize, 30, 2000][t.below(3) as usize];
			format!("({})", vec![old; n].join(","))
		}
	}
}

/// Every place in the tree, as a path.
fn paths(j: &J, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
	out.push(cur.clone());
	let n = match j {
		J::Arr(v) => v.len(),
		J::Obj(v) => v.len(),
		_ => 0,
	};
	for i in 0..n {
		cur.push(i);
		match j {
			J::Arr(v) => paths(&v[i], cur, out),
			J::Obj(v) => paths(&v[i].1, cur, out),
			_ => {}
		}
		cur.pop();
	}
}

fn at<'a>(j: &'a mut J, p: &[usize]) -> &'a mut J {
	let mut x = j;
	for i in p {
		x = match x {
			J::Arr(v) => &mut v[*i],
			J::Obj(v) => &mut v[*i].1,
			_ => unreachable!(),
		};
	}
	x
}

fn odd_value(t: &mut Tape) -> J {
	match t.below(11) {
		0 => J::Null,
		1 => J::Bool(t.chance(1, 2)),
		2 => J::Num(t.pick(&["0", "1", "-1", "1e400", "18446744073709551616", "0.5"]).to_string()),
		3 => J::s(""),
		4 => J::Arr(vec![]),
		5 => J::Obj(vec![]),
		6 => J::s(t.pick(&["function", "event", "constructor", "fallback", "receive", "error", "Function", "tuple", "view"])),
		7 => J::Arr(vec![J::Null]),
		8 => {
			let n = [3usize, 100, 130, 260][t.below(4) as usize];
			let mut x = J::Null;
			for _ in 0..n {
				x = J::Arr(vec![x]);
			}
			x
		}
		9 => J::Obj(vec![("type".into(), J::s("tuple")), ("name".into(), J::s("x"))]),
		_ => J::s(&"x".repeat(3000)),
	}
}

/// Nested structs: `n` levels of components.
fn nested(t: &mut Tape, n: usize) -> J {
	let arr = t.below(3);
	let mut x = vec![("name".to_string(), J::s("leaf")), ("type".to_string(), J::s("uint256"))];
	for i in 0..n {
		let suffix = ["", "[]", "[2]"][arr as usize];
		x = vec![
			("name".to_string(), J::Str(format!("n{}", i))),
			("type".to_string(), J::Str(format!("tuple{}", suffix))),
			("components".to_string(), J::Arr(vec![J::Obj(x)])),
		];
	}
	J::Obj(x)
}

fn tree_damage(t: &mut Tape, j: &mut J) -> &'static str {
	let mut ps = vec![];
	paths(j, &mut vec![], &mut ps);
	let kind = t.weighted(&[6, 3, 3, 2, 2, 2, 1]);
	let pick_where = |t: &mut Tape, j: &mut J, f: &dyn Fn(&J) -> bool| -> Option<Vec<usize>> {
		let c: Vec<&Vec<usize>> = ps.iter().filter(|p| f(at(j, p))).collect();
		if c.is_empty() {
			None
		} else {
			Some((*t.pick(&c)).clone())
		}
	};
	match kind {
		0 => {
			// a type name
			let has = |x: &J| matches!(x.get("type"), Some(J::Str(_)));
			if let Some(p) = pick_where(t, j, &has) {
				if let J::Obj(v) = at(j, &p) {
					if let Some((_, J::Str(s))) = v.iter_mut().find(|x| x.0 == "type") {
						*s = odd_type(t, s);
					}
				}
			}
			"type_name_damaged"
		}
		1 => {
			if let Some(p) = pick_where(t, j, &|x| matches!(x, J::Obj(v) if !v.is_empty())) {
				if let J::Obj(v) = at(j, &p) {
					let k = t.below(v.len() as u64) as usize;
					v.remove(k);
				}
			}
			"field_lost"
		}
		2 => {
			let k = t.below(ps.len() as u64) as usize;
			*at(j, &ps[k]) = odd_value(t);
			"value_replaced"
		}
		3 => {
			if let Some(p) = pick_where(t, j, &|x| matches!(x, J::Obj(v) if !v.is_empty())) {
				if let J::Obj(v) = at(j, &p) {
					let k = t.below(v.len() as u64) as usize;
					let mut x = v[k].clone();
					if t.chance(1, 2) {
						x.1 = odd_value(t);
					}
					let w = t.below(v.len() as u64 + 1) as usize;
					v.insert(w, x);
				}
			}
			"field_doubled"
		}
		4 => {
			if let Some(p) = pick_where(t, j, &|x| matches!(x, J::Obj(v) if !v.is_empty())) {
				if let J::Obj(v) = at(j, &p) {
					let k = t.below(v.len() as u64) as usize;
					v[k].0 = t.pick(&["type", "name", "inputs", "components", "indexed", "Type", "", "anonymous", "outputs"]).to_string();
				}
			}
			"key_changed"
		}
		5 => {
			if let Some(p) = pick_where(t, j, &|x| matches!(x, J::Arr(v) if !v.is_empty())) {
				if let J::Arr(v) = at(j, &p) {
					let k = t.below(v.len() as u64) as usize;
					if t.chance(1, 2) {
						v.remove(k);
					} else {
						let x = v[k].clone();
						v.push(x);
					}
				}
			}
			"element_lost_or_doubled"
		}
		_ => {
			let n = [10usize, 55, 60, 61, 62, 63, 64, 90, 140][t.below(9) as usize];
			let x = nested(t, n);
			if let J::Arr(v) = j {
				v.push(J::Obj(vec![
					("type".to_string(), J::s("function")),
					("name".to_string(), J::s("deep")),
					("inputs".to_string(), J::Arr(vec![x])),
					("outputs".to_string(), J::Arr(vec![])),
				]));
			}
			"deep_components"
		}
	}
}

fn byte_damage(t: &mut Tape, b: &mut Vec<u8>) -> &'static str {
	let n = b.len();
	if n == 0 {
		b.push(b'[');
		return "bytes_inserted";
	}
	let k = t.below(n as u64) as usize;
	match t.weighted(&[4, 3, 2, 2, 2, 2, 2]) {
		0 => {
			b[k] ^= 1 << t.below(8);
			"bit_flipped"
		}
		1 => {
			b[k] = *t.pick(b"[](){}\",:0919eE+-.\\u \n\0\xff\xc3\xa9tfn");
			"byte_overwritten"
		}
		2 => {
			b.remove(k);
			"byte_lost"
		}
		3 => {
			let m = t.below(40) as usize + 1;
			let x: Vec<u8> = b[k..(k + m).min(n)].to_vec();
			let at = t.below(n as u64 + 1) as usize;
			for (i, y) in x.into_iter().enumerate() {
				b.insert(at + i, y);
			}
			"bytes_duplicated"
		}
		4 => {
			let m = (1 + t.below(64) as usize).min(n - k);
			let z = *t.pick(&[0u8, 0xff, b' ', b'[', b'{', b'"', b'9']);
			for x in b[k..k + m].iter_mut() {
				*x = z;
			}
			"run_overwritten"
		}
		5 => {
			let m = (1 + t.below(64) as usize).min(n - k);
			b.drain(k..k + m);
			"run_lost"
		}
		_ => {
			// two structural characters change places
			let m: Vec<usize> = (0..n).filter(|i| matches!(b[*i], b'[' | b']' | b'{' | b'}' | b',' | b':' | b'"')).collect();
			if m.len() > 1 {
				let (x, y) = (*t.pick(&m), *t.pick(&m));
				b.swap(x, y);
			}
			"marks_swapped"
		}
	}
}

// ---- the check -------------------------------------------------------------------------------

/// Can be generated for: neither huge nor very deep.
fn small(t: &MType, d: u32) -> Option<u64> {
	if d > 12 {
		return None;
	}
	match t {
		MType::FixedArray(e, n) => {
			let x = small(e, d + 1)?.checked_mul(*n as u64)?;
			if x > 300 {
				None
			} else {
				Some(x)
			}
		}
		MType::Array(e) => small(e, d + 1).map(|x| x + 1),
		MType::Tuple(ts) => {
			let mut s = 1;
			for x in ts {
				s += small(x, d + 1)?;
			}
			if s > 300 {
				None
			} else {
				Some(s)
			}
		}
		_ => Some(1),
	}
}

/// Every value occupies bytes of the payload.
fn sized(t: &MType) -> bool {
	match t {
		MType::Array(e) => sized(e),
		MType::FixedArray(e, n) => *n > 0 && sized(e),
		MType::Tuple(ts) => !ts.is_empty() && ts.iter().all(sized),
		MType::FixedBytes(n) => *n > 0,
		_ => true,
	}
}

fn struct_depth(k: &ethabi::Contract) -> usize {
	fn d(t: &ethabi::ParamType) -> usize {
		match t {
			ethabi::ParamType::Array(e) | ethabi::ParamType::FixedArray(e, _) => d(e),
			ethabi::ParamType::Tuple(ts) => 1 + ts.iter().map(d).max().unwrap_or(0),
			_ => 0,
		}
	}
	let f = k.functions().flat_map(|f| f.inputs.iter().chain(&f.outputs)).map(|p| d(&p.kind)).max().unwrap_or(0);
	let e = k.events().flat_map(|f| f.inputs.iter()).map(|p| d(&p.kind)).max().unwrap_or(0);
	let c = k.constructor().iter().flat_map(|f| f.inputs.iter()).map(|p| d(&p.kind)).max().unwrap_or(0);
	f.max(e).max(c)
}

fn some_bytes(c: &mut Ctx, types: &[MType]) -> Vec<u8> {
	if types.iter().all(|t| t.is_solidity() && small(t, 0).is_some()) && c.tape.chance(2, 3) {
		let v = gen_vals(&mut c.tape, types, &mut 60);
		let mut d = codec::encode(&v);
		if c.tape.chance(2, 3) {
			wire::damage(c, &mut d, 0);
		}
		d
	} else {
		let n = [0usize, 1, 31, 32, 33, 64, 320, 1000][c.tape.below(8) as usize];
		let mut d = c.tape.bytes(n);
		if c.tape.chance(1, 2) {
			for w in d.chunks_mut(32) {
				let m = w.len().min(31);
				w[..m].fill(0);
			}
		}
		d
	}
}

fn usable(c: &mut Ctx, k: &ethabi::Contract, text: &[u8]) -> Res {
	let show = || clip(&String::from_utf8_lossy(text));
	// every signature can be computed
	let len = text.len() as u64;
	simrt::edge::limit_steps(10_000_000 + 20_000 * len);
	let r = simrt::lib(|| {
		let a: Vec<String> = k.functions().map(|f| f.signature()).collect();
		let b: Vec<ethabi::Hash> = k.events().map(|e| e.signature()).collect();
		(a.len(), b.len())
	});
	if let Err(p) = r {
		return violation("panic", format!("a signature of an accepted contract panicked: {} on {}", p, show()));
	}
	// it serialises and reloads to an equal contract
	let hs = c.tape.below(1 << 16);
	let saved = match simrt::lib(|| bridge::save_vec(k)) {
		Err(p) => return violation("panic", format!("saving an accepted contract panicked: {} on {}", p, show())),
		Ok(Err(e)) => return violation("save-refused", format!("an accepted contract cannot be saved: {} on {}", e, show())),
		Ok(Ok(v)) => v,
	};
	let (r, _) = simrt::process(hs, || load(&saved, &ReadPlan::whole(), ""));
	match r {
		Err(p) => return violation("panic", format!("reloading an accepted contract panicked: {} on {}", p, show())),
		// the JSON reader has a nesting limit of its own, which printed structs can exceed
		Ok(Err(_)) if struct_depth(k) > 50 => c.probe("beyond_json_nesting"),
		Ok(Err(e)) => return violation("not-reloaded", format!("an accepted contract, saved, is refused: {} on {}", e, show())),
		Ok(Ok(x)) => {
			if x != *k {
				return violation("unequal-reload", format!("an accepted contract, saved and reloaded, differs on {}", show()));
			}
		}
	}
	// bytes can be decoded against it. Zero-size types are not ABI types, nor bounded by the data.
	let mut fs: Vec<&ethabi::Function> = k.functions().collect();
	fs.sort_by_key(|f| f.name.clone());
	let n = fs.len();
	for i in 0..n.min(6) {
		let f = if n > 6 { fs[c.tape.below(n as u64) as usize] } else { fs[i] };
		for out in [false, true] {
			let ps = if out { &f.outputs } else { &f.inputs };
			let types: Vec<MType> = ps.iter().map(|p| kind_to_m(&p.kind)).collect();
			if !types.iter().all(sized) {
				continue;
			}
			let d = some_bytes(c, &types);
			if wire::too_big(&types, &d) {
				continue;
			}
			c.probe("decoded_against_damaged");
			let got = simrt::lib(|| if out { f.decode_output(&d) } else { f.decode_input(&d) });
			if !types.iter().all(|t| t.is_solidity()) {
				// sizes that no ABI type has: a value or an error, whichever
				c.probe("decoded_against_odd_size");
				if let Err(p) = got {
					return violation("panic", format!("decoding {} against an accepted function panicked: {} on {}", wire::clip_hex(&d), p, show()));
				}
				continue;
			}
			wire::judge(&types, &d, None, got, "decoding against an accepted function")?;
		}
	}
	let mut es: Vec<&ethabi::Event> = k.events().collect();
	es.sort_by_key(|f| f.name.clone());
	for e in es.into_iter().take(4) {
		let data_types: Vec<MType> = e.inputs.iter().filter(|p| !p.indexed).map(|p| kind_to_m(&p.kind)).collect();
		let all: Vec<MType> = e.inputs.iter().map(|p| kind_to_m(&p.kind)).collect();
		if !all.iter().all(sized) {
			continue;
		}
		let d = some_bytes(c, &data_types);
		if wire::too_big(&data_types, &d) {
			continue;
		}
		let sig = match simrt::lib(|| e.signature()) {
			Ok(s) => s,
			Err(p) => return violation("panic", format!("event signature panicked: {}", p)),
		};
		let mut topics = vec![];
		if !e.anonymous {
			topics.push(sig);
		}
		for _ in e.inputs.iter().filter(|p| p.indexed) {
			let b = c.tape.bytes(32);
			topics.push(ethabi::Hash::from_slice(&b));
		}
		let raw = ethabi::RawLog { topics, data: d };
		c.probe("parsed_against_damaged");
		if let Err(p) = simrt::lib(|| e.parse_log(raw)) {
			return violation("panic", format!("parsing a log against an accepted event panicked: {} on {}", p, show()));
		}
	}
	simrt::edge::limit_steps(u64::MAX);
	Ok(())
}

pub fn c04(c: &mut Ctx) -> Res {
	let (m, text) = draw_doc(c);
	let f = Form::draw(&mut c.tape);
	let mut b = text.clone().into_bytes();
	let mode = c.tape.weighted(&[4, 4, 1]);
	if mode != 1 {
		let mut j = to_json(&m, &f);
		for _ in 0..1 + c.tape.weighted(&[4, 2, 1]) {
			let k = tree_damage(&mut c.tape, &mut j);
			c.fault(k);
			ev!(c, "{}", k);
		}
		b = render(&j, &f.style, f.seed).into_bytes();
	}
	if mode != 0 {
		for _ in 0..1 + c.tape.weighted(&[4, 2, 1, 1]) {
			let k = byte_damage(&mut c.tape, &mut b);
			c.fault(k);
			ev!(c, "{}", k);
		}
	}
	ev!(c, "document {} bytes, damaged", b.len());
	ev_doc(c, &String::from_utf8_lossy(&b));
	let len = b.len() as u64;
	let plan = ReadPlan::arrival(&mut c.tape);
	let hs = c.tape.below(1 << 16);
	simrt::edge::limit_steps(10_000_000 + 20_000 * len);
	let ((r, fired), _) = simrt::process(hs, || simrt::alloc::measured((64 << 20) + 2000 * len as i64, || load(&b, &plan, "")));
	simrt::edge::limit_steps(u64::MAX);
	fired.count(c);
	let show = || clip(&String::from_utf8_lossy(&b));
	let got = match r {
		Err(p) => return violation("panic", format!("loading a damaged document panicked: {} on {}", p, show())),
		Ok(g) => g,
	};
	ev!(c, "accepted {}", got.is_ok());
	// encodings that a tolerant reader may skip over without looking at them
	let plain = std::str::from_utf8(&b).map(|s| !s.to_lowercase().contains("\\ud")).unwrap_or(false);
	let parsed = json::parse(&b);
	if parsed.is_none() && plain && got.is_ok() {
		return violation("accepted", format!("a document that is not JSON was accepted: {}", show()));
	}
	if let Ok(k) = &got {
		c.probe("damaged_but_accepted");
		if let Some(m) = parsed.as_ref().and_then(interpret) {
			if let Err(e) = compare(k, &m) {
				return violation("wrong-contract", format!("{} on {}", e, show()));
			}
		}
		usable(c, k, &b)?;
	} else {
		c.probe("damaged_and_refused");
	}
	c.trivial = false;
	if c.want_sample {
		c.sample = Some(format!("{} bytes after damage, accepted: {}; begins {}", b.len(), got.is_ok(), show().chars().take(200).collect::<String>()));
	}
	Ok(())
}
