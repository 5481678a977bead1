//! Contract documents: the model of a JSON ABI, its generator, its rendering, and the comparison of
//! a loaded contract with the model.
use crate::adapt::kind_to_m;
use crate::json::{render, Style, J};
use crate::mty::*;
use simrt::Tape;

#[derive(Clone, Debug, PartialEq)]
pub struct MParam {
	pub name: String,
	pub ty: MType,
	pub internal: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MFunc {
	pub name: String,
	pub inputs: Vec<MParam>,
	pub outputs: Vec<MParam>,
	pub constant: Option<bool>,
	pub mutability: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MEvParam {
	pub name: String,
	pub ty: MType,
	pub indexed: Option<bool>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MEvent {
	pub name: String,
	pub inputs: Vec<MEvParam>,
	pub anonymous: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
	Constructor(Vec<MParam>),
	Func(MFunc),
	Event(MEvent),
	Fallback,
	Receive,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct MContract {
	pub entries: Vec<Entry>,
}

pub const MUT: [&str; 4] = ["nonpayable", "pure", "view", "payable"];

impl MFunc {
	pub fn in_types(&self) -> Vec<MType> {
		self.inputs.iter().map(|p| p.ty.clone()).collect()
	}
	pub fn out_types(&self) -> Vec<MType> {
		self.outputs.iter().map(|p| p.ty.clone()).collect()
	}
	pub fn sig(&self) -> String {
		signature(&self.name, &self.in_types())
	}
	/// `Function::signature` in its documented form.
	pub fn full_sig(&self) -> String {
		let j = |v: Vec<MType>| v.iter().map(|t| t.canonical()).collect::<Vec<_>>().join(",");
		if self.outputs.is_empty() {
			format!("{}({})", self.name, j(self.in_types()))
		} else {
			format!("{}({}):({})", self.name, j(self.in_types()), j(self.out_types()))
		}
	}
}

impl MEvent {
	pub fn types(&self) -> Vec<MType> {
		self.inputs.iter().map(|p| p.ty.clone()).collect()
	}
	pub fn sig(&self) -> String {
		signature(&self.name, &self.types())
	}
	pub fn topic0(&self) -> [u8; 32] {
		crate::keccak::keccak256(self.sig().as_bytes())
	}
}

impl MEvParam {
	pub fn ix(&self) -> bool {
		self.indexed == Some(true)
	}
}

impl MContract {
	pub fn funcs(&self) -> impl Iterator<Item = &MFunc> {
		self.entries.iter().filter_map(|e| if let Entry::Func(f) = e { Some(f) } else { None })
	}
	pub fn events(&self) -> impl Iterator<Item = &MEvent> {
		self.entries.iter().filter_map(|e| if let Entry::Event(f) = e { Some(f) } else { None })
	}
	pub fn constructor(&self) -> Option<&Vec<MParam>> {
		self.entries.iter().rev().find_map(|e| if let Entry::Constructor(p) = e { Some(p) } else { None })
	}
	/// Position of the i-th function among its overloads.
	pub fn overload(&self, f: &MFunc) -> usize {
		self.funcs().filter(|g| g.name == f.name).position(|g| g == f).unwrap_or(0)
	}
	pub fn overload_ev(&self, f: &MEvent) -> usize {
		self.events().filter(|g| g.name == f.name).position(|g| g == f).unwrap_or(0)
	}
}

/// What documents a run uses.
#[derive(Clone, Debug)]
pub struct DocCfg {
	pub types: TypeCfg,
	pub max_entries: u64,
	pub max_params: u64,
	pub odd_names: bool,
	pub max_indexed: usize,
	pub unnamed: bool,
	pub overloads: bool,
}

impl DocCfg {
	pub fn draw(t: &mut Tape) -> DocCfg {
		DocCfg {
			types: TypeCfg::draw(t),
			max_entries: [4u64, 1, 2, 9, 30][t.weighted(&[5, 1, 2, 3, 1])],
			max_params: [3u64, 1, 6, 12, 40][t.weighted(&[24, 8, 8, 4, 1])],
			odd_names: t.chance(1, 3),
			max_indexed: 3,
			unnamed: t.chance(1, 3),
			overloads: t.chance(1, 2),
		}
	}
}

const NAMES: &[&str] = &[
	"foo", "bar", "transfer", "balanceOf", "approve", "Transfer", "a", "x1", "_under", "setValue", "Approval", "get",
	"b", "owner", "mint", "burn", "snake_case_name", "HTTPServer", "v2", "$dollar", "deposit", "Withdraw",
];
const ODD: &[&str] = &["ünï", "名前", "with space", "quo\"te", "back\\slash", "", "new\nline", "😀", "type", "name", "inputs"];
/// Words that mean something elsewhere in a document or a program.
const WORDS: &[&str] = &[
	"fallback", "receive", "constructor", "event", "function", "error", "default", "tuple", "string", "uint256", "bytes", "indexed",
	"anonymous", "components", "internalType", "outputs", "stateMutability", "constant", "payable", "view", "self", "this", "null", "true", "FOO",
	"Foo", "BAR", "transferFrom", "TRANSFER", "__proto__", "toString", "0", "1a",
];
const PNAMES: &[&str] = &["a", "b", "c", "to", "from", "value", "amount", "_owner", "data", "who", "Case", "camelCase", "type", "x0"];

fn pname(t: &mut Tape, c: &DocCfg, i: usize) -> String {
	if c.unnamed && t.chance(1, 3) {
		return String::new();
	}
	if c.odd_names && t.chance(1, 4) {
		let pool = if t.chance(1, 3) { WORDS } else { ODD };
		return t.pick(pool).to_string();
	}
	let base = t.pick(PNAMES).to_string();
	// usually distinct, now and then two parameters share a name
	if t.chance(1, 12) {
		base
	} else {
		format!("{}{}", base, i)
	}
}

fn internal(t: &mut Tape, ty: &MType) -> Option<String> {
	match t.weighted(&[3, 3, 1]) {
		0 => None,
		1 => Some(if ty.has_tuple() { format!("struct Lib.S{}", t.below(3)) } else { ty.canonical() }),
		_ => Some(["enum E.K", "contract IERC20", "", "address payable"][t.below(4) as usize].to_string()),
	}
}

fn gen_params(t: &mut Tape, c: &DocCfg) -> Vec<MParam> {
	let n = t.below(c.max_params + 1);
	(0..n)
		.map(|i| {
			let ty = gen_type(t, &c.types);
			MParam { name: pname(t, c, i as usize), internal: internal(t, &ty), ty }
		})
		.collect()
}

pub fn gen_func(t: &mut Tape, c: &DocCfg, name: String) -> MFunc {
	MFunc {
		name,
		inputs: gen_params(t, c),
		outputs: gen_params(t, c),
		constant: [None, Some(true), Some(false)][t.weighted(&[4, 1, 1])],
		mutability: match t.weighted(&[2, 4]) {
			0 => None,
			_ => Some(t.below(4) as usize),
		},
	}
}

pub fn gen_event(t: &mut Tape, c: &DocCfg, name: String) -> MEvent {
	let anonymous = t.chance(1, 5);
	let n = t.below(c.max_params.max(3) + 1);
	let mut ix = 0;
	let inputs = (0..n)
		.map(|i| {
			let ty = gen_type(t, &c.types);
			let mut indexed = [Some(false), Some(true), None][t.weighted(&[4, 4, 1])];
			if indexed == Some(true) {
				if ix >= c.max_indexed + anonymous as usize {
					indexed = Some(false);
				} else {
					ix += 1;
				}
			}
			MEvParam { name: pname(t, c, i as usize), ty, indexed }
		})
		.collect();
	MEvent { name, inputs, anonymous }
}

pub fn gen_name(t: &mut Tape, c: &DocCfg) -> String {
	if c.odd_names && t.chance(1, 6) {
		t.pick(ODD).to_string()
	} else if t.chance(1, 12) {
		t.pick(WORDS).to_string()
	} else if t.chance(1, 24) {
		// long, or a longer form of a common one
		let b = *t.pick(NAMES);
		match t.below(4) {
			0 => b.repeat(1 + t.below(40) as usize),
			1 => format!("{}{}", b, t.below(1000)),
			2 => format!("{}_", b),
			_ => format!("{}{}", b, b),
		}
	} else {
		t.pick(NAMES).to_string()
	}
}

pub fn gen_contract(t: &mut Tape, c: &DocCfg) -> MContract {
	let n = t.range(1, c.max_entries);
	let mut entries: Vec<Entry> = vec![];
	let mut names: Vec<String> = vec![];
	for _ in 0..n {
		let name = if c.overloads && !names.is_empty() && t.chance(1, 2) {
			names[t.below(names.len() as u64) as usize].clone()
		} else {
			gen_name(t, c)
		};
		if !c.overloads && names.contains(&name) {
			continue;
		}
		names.push(name.clone());
		if t.chance(2, 5) {
			entries.push(Entry::Event(gen_event(t, c, name)));
		} else {
			entries.push(Entry::Func(gen_func(t, c, name)));
		}
	}
	if t.chance(1, 3) {
		let at = t.below(entries.len() as u64 + 1) as usize;
		entries.insert(at, Entry::Constructor(gen_params(t, c)));
	}
	for e in [Entry::Fallback, Entry::Receive] {
		if t.chance(1, 6) {
			let at = t.below(entries.len() as u64 + 1) as usize;
			entries.insert(at, e);
		}
	}
	MContract { entries }
}

/// Pads a document with further entries until it is at least `bytes` long when rendered.
pub fn enlarge(t: &mut Tape, c: &DocCfg, m: &mut MContract, bytes: usize) {
	let mut size = 0;
	let mut k = 0u64;
	// names of their own, or few names with many overloads
	let names = [u64::MAX, 1, 3][t.weighted(&[3, 1, 1])];
	let events = names != u64::MAX && t.chance(1, 2);
	while size < bytes {
		let name = if names == u64::MAX { format!("pad{}", k) } else { NAMES[(k % names) as usize].to_string() };
		k += 1;
		if events && k % 2 == 0 {
			let e = gen_event(t, c, name);
			size += 60 + e.inputs.iter().map(|p| 40 + p.name.len() + p.ty.canonical().len() * 3).sum::<usize>();
			let at = t.below(m.entries.len() as u64 + 1) as usize;
			m.entries.insert(at, Entry::Event(e));
			continue;
		}
		let f = gen_func(t, c, name);
		size += 60 + f.inputs.iter().chain(&f.outputs).map(|p| 40 + p.name.len() + p.ty.canonical().len() * 3).sum::<usize>();
		let at = t.below(m.entries.len() as u64 + 1) as usize;
		m.entries.insert(at, Entry::Func(f));
	}
}

// ---- rendering -------------------------------------------------------------------------------

/// How freely the JSON form varies, drawn per document.
#[derive(Clone, Debug)]
pub struct Form {
	pub style: Style,
	pub shuffle_keys: bool,
	pub unknown_keys: bool,
	pub aliases: bool,
	pub suffix_names: bool,
	pub seed: u64,
}

impl Form {
	pub fn draw(t: &mut Tape) -> Form {
		Form {
			style: Style::draw(t),
			shuffle_keys: t.chance(1, 2),
			unknown_keys: t.chance(1, 3),
			aliases: t.chance(1, 3),
			suffix_names: t.chance(1, 4),
			seed: t.word(),
		}
	}
	pub fn plain() -> Form {
		Form { style: Style::default(), shuffle_keys: false, unknown_keys: false, aliases: false, suffix_names: false, seed: 0 }
	}
}

struct B<'a> {
	f: &'a Form,
	r: simrt::tape::Rng,
}

impl<'a> B<'a> {
	fn finish(&mut self, mut v: Vec<(String, J)>) -> J {
		if self.f.unknown_keys && self.r.below(2) == 0 {
			let j = match self.r.below(6) {
				0 => J::Null,
				1 => J::Num("-12.5e3".into()),
				2 => J::Arr(vec![J::Bool(true), J::Obj(vec![("type".into(), J::s("function"))])]),
				3 => J::Obj(vec![("name".into(), J::s("x")), ("inputs".into(), J::Arr(vec![]))]),
				4 => J::s("0x70a08231"),
				_ => J::Num("21000".into()),
			};
			let k = ["gas", "signature", "documentation", "payable", "x-unknown", "kind"][self.r.below(6) as usize];
			if !v.iter().any(|x| x.0 == k) {
				v.push((k.to_string(), j));
			}
		}
		if self.f.shuffle_keys {
			for i in (1..v.len()).rev() {
				let k = self.r.below(i as u64 + 1) as usize;
				v.swap(i, k);
			}
		}
		J::Obj(v)
	}
	fn name(&mut self, n: &str, types: &[MType]) -> J {
		if self.f.suffix_names && self.r.below(2) == 0 {
			return match self.r.below(3) {
				0 => J::Str(format!("{}()", n)),
				1 => J::Str(signature(n, types)),
				_ => J::Str(format!("{}(", n)),
			};
		}
		J::s(n)
	}
	fn tyname(&mut self, t: &MType) -> String {
		match t {
			MType::Array(e) => format!("{}[]", self.tyname(e)),
			MType::FixedArray(e, n) => format!("{}[{}]", self.tyname(e), n),
			MType::Uint(256) if self.f.aliases && self.r.below(2) == 0 => "uint".into(),
			MType::Int(256) if self.f.aliases && self.r.below(2) == 0 => "int".into(),
			t => t.json_name(),
		}
	}
	fn components(&mut self, ts: &[MType]) -> J {
		let v = ts
			.iter()
			.enumerate()
			.map(|(i, t)| {
				let mut o = vec![("type".to_string(), J::Str(self.tyname(t)))];
				if self.r.below(3) > 0 {
					o.insert(0, ("name".into(), J::Str(if self.r.below(5) == 0 { String::new() } else { format!("m{}", i) })));
				}
				if self.r.below(3) == 0 {
					o.push(("internalType".into(), J::s("struct X.Y")));
				}
				if let Some(ts) = t.inner_tuple() {
					o.push(("components".into(), self.components(ts)));
				}
				self.finish(o)
			})
			.collect();
		J::Arr(v)
	}
	fn param(&mut self, p: &MParam) -> J {
		let mut o = vec![("name".to_string(), J::s(&p.name)), ("type".to_string(), J::Str(self.tyname(&p.ty)))];
		if let Some(i) = &p.internal {
			o.insert(0, ("internalType".into(), J::s(i)));
		}
		if let Some(ts) = p.ty.inner_tuple() {
			o.push(("components".into(), self.components(ts)));
		}
		self.finish(o)
	}
	fn evparam(&mut self, p: &MEvParam) -> J {
		let mut o = vec![("name".to_string(), J::s(&p.name)), ("type".to_string(), J::Str(self.tyname(&p.ty)))];
		if let Some(i) = p.indexed {
			o.insert(0, ("indexed".into(), J::Bool(i)));
		}
		if self.r.below(3) == 0 {
			o.push(("internalType".into(), J::s("whatever")));
		}
		if let Some(ts) = p.ty.inner_tuple() {
			o.push(("components".into(), self.components(ts)));
		}
		self.finish(o)
	}
	fn entry(&mut self, e: &Entry) -> J {
		let o = match e {
			Entry::Constructor(ps) => {
				let mut o = vec![
					("inputs".to_string(), J::Arr(ps.iter().map(|p| self.param(p)).collect())),
					("type".to_string(), J::s("constructor")),
				];
				if self.r.below(2) == 0 {
					o.push(("stateMutability".into(), J::s("payable")));
				}
				o
			}
			Entry::Func(f) => {
				let mut o = vec![
					("type".to_string(), J::s("function")),
					("name".to_string(), self.name(&f.name, &f.in_types())),
					("inputs".to_string(), J::Arr(f.inputs.iter().map(|p| self.param(p)).collect())),
					("outputs".to_string(), J::Arr(f.outputs.iter().map(|p| self.param(p)).collect())),
				];
				if let Some(c) = f.constant {
					o.push(("constant".into(), J::Bool(c)));
				}
				if let Some(m) = f.mutability {
					o.push(("stateMutability".into(), J::s(MUT[m])));
				}
				o
			}
			Entry::Event(e) => vec![
				("anonymous".to_string(), J::Bool(e.anonymous)),
				("inputs".to_string(), J::Arr(e.inputs.iter().map(|p| self.evparam(p)).collect())),
				("name".to_string(), self.name(&e.name, &e.types())),
				("type".to_string(), J::s("event")),
			],
			Entry::Fallback => vec![("type".to_string(), J::s("fallback")), ("stateMutability".to_string(), J::s("payable"))],
			Entry::Receive => vec![("type".to_string(), J::s("receive"))],
		};
		self.finish(o)
	}
}

pub fn to_json(m: &MContract, f: &Form) -> J {
	let mut b = B { f, r: simrt::tape::Rng::new(f.seed) };
	J::Arr(m.entries.iter().map(|e| b.entry(e)).collect())
}

pub fn to_text(m: &MContract, f: &Form) -> String {
	render(&to_json(m, f), &f.style, f.seed)
}

// ---- interpretation --------------------------------------------------------------------------

fn parse_simple(s: &str) -> Option<MType> {
	if let Some(x) = s.strip_suffix(']') {
		let k = x.rfind('[')?;
		let e = parse_simple(&x[..k])?;
		let n = &x[k + 1..];
		return if n.is_empty() {
			Some(MType::Array(Box::new(e)))
		} else {
			Some(MType::FixedArray(Box::new(e), n.parse().ok()?))
		};
	}
	Some(match s {
		"address" => MType::Address,
		"bytes" => MType::Bytes,
		"bool" => MType::Bool,
		"string" => MType::Str,
		"int" => MType::Int(256),
		"uint" => MType::Uint(256),
		"tuple" => MType::Tuple(vec![]),
		_ => {
			if let Some(n) = s.strip_prefix("int") {
				MType::Int(n.parse().ok()?)
			} else if let Some(n) = s.strip_prefix("uint") {
				MType::Uint(n.parse().ok()?)
			} else if let Some(n) = s.strip_prefix("bytes") {
				MType::FixedBytes(n.parse().ok()?)
			} else {
				return None;
			}
		}
	})
}

fn put(t: &mut MType, ts: Vec<MType>) {
	match t {
		MType::Array(e) | MType::FixedArray(e, _) => put(e, ts),
		MType::Tuple(x) => *x = ts,
		_ => {}
	}
}

fn jstr(j: Option<&J>) -> Option<String> {
	match j? {
		J::Str(s) => Some(s.clone()),
		_ => None,
	}
}

fn interp_ty(p: &J) -> Option<MType> {
	let mut t = parse_simple(&jstr(p.get("type"))?)?;
	if t.has_tuple() {
		let J::Arr(c) = p.get("components")? else { return None };
		let ts = c.iter().map(interp_ty).collect::<Option<Vec<_>>>()?;
		put(&mut t, ts);
	}
	Some(t)
}

fn dup_keys(j: &J) -> bool {
	match j {
		J::Arr(v) => v.iter().any(dup_keys),
		J::Obj(v) => {
			v.iter().enumerate().any(|(i, (k, _))| v[..i].iter().any(|(n, _)| n == k)) || v.iter().any(|(_, x)| dup_keys(x))
		}
		_ => false,
	}
}

/// The contract a JSON document plainly describes; `None` when it is not plainly an ABI (the
/// document may still be accepted by a tolerant loader).
pub fn interpret(j: &J) -> Option<MContract> {
	let J::Arr(v) = j else { return None };
	if dup_keys(j) {
		return None;
	}
	let params = |j: Option<&J>| -> Option<Vec<MParam>> {
		let J::Arr(v) = j? else { return None };
		v.iter()
			.map(|p| {
				let internal = match p.get("internalType") {
					None => None,
					Some(J::Str(s)) => Some(s.clone()),
					_ => return None,
				};
				Some(MParam { name: jstr(p.get("name"))?, ty: interp_ty(p)?, internal })
			})
			.collect()
	};
	let obool = |j: Option<&J>| -> Option<Option<bool>> {
		match j {
			None => Some(None),
			Some(J::Bool(b)) => Some(Some(*b)),
			_ => None,
		}
	};
	let cut = |s: String| s.split('(').next().unwrap_or("").to_string();
	let mut entries = vec![];
	for e in v {
		entries.push(match jstr(e.get("type"))?.as_str() {
			"constructor" => Entry::Constructor(params(e.get("inputs"))?),
			"function" => Entry::Func(MFunc {
				name: cut(jstr(e.get("name"))?),
				inputs: params(e.get("inputs"))?,
				outputs: params(e.get("outputs"))?,
				constant: obool(e.get("constant"))?,
				mutability: match e.get("stateMutability") {
					None => None,
					Some(J::Str(s)) => Some(MUT.iter().position(|m| m == s)?),
					_ => return None,
				},
			}),
			"event" => {
				let J::Arr(v) = e.get("inputs")? else { return None };
				let inputs = v
					.iter()
					.map(|p| Some(MEvParam { name: jstr(p.get("name"))?, ty: interp_ty(p)?, indexed: obool(p.get("indexed"))? }))
					.collect::<Option<Vec<_>>>()?;
				Entry::Event(MEvent { name: cut(jstr(e.get("name"))?), inputs, anonymous: obool(e.get("anonymous"))?? })
			}
			"fallback" => Entry::Fallback,
			"receive" => Entry::Receive,
			_ => return None,
		});
	}
	Some(MContract { entries })
}

// ---- comparison ------------------------------------------------------------------------------

fn cmp_kind(k: &ethabi::ParamType, t: &MType) -> Result<(), String> {
	let x = kind_to_m(k);
	if x == *t {
		Ok(())
	} else {
		Err(format!("type {} instead of {}", x.canonical(), t.canonical()))
	}
}

fn cmp_params(got: &[ethabi::Param], want: &[MParam], what: &str) -> Result<(), String> {
	if got.len() != want.len() {
		return Err(format!("{}: {} parameters instead of {}", what, got.len(), want.len()));
	}
	for (i, (g, w)) in got.iter().zip(want).enumerate() {
		if g.name != w.name {
			return Err(format!("{}: parameter {} named {:?} instead of {:?}", what, i, g.name, w.name));
		}
		cmp_kind(&g.kind, &w.ty).map_err(|e| format!("{}: parameter {}: {}", what, i, e))?;
		if g.internal_type != w.internal {
			return Err(format!("{}: parameter {} internal type {:?} instead of {:?}", what, i, g.internal_type, w.internal));
		}
	}
	Ok(())
}

#[allow(deprecated)]
pub fn cmp_func(g: &ethabi::Function, w: &MFunc) -> Result<(), String> {
	let what = format!("function {:?}", w.sig());
	if g.name != w.name {
		return Err(format!("{}: name is {:?}", what, g.name));
	}
	cmp_params(&g.inputs, &w.inputs, &format!("{} inputs", what))?;
	cmp_params(&g.outputs, &w.outputs, &format!("{} outputs", what))?;
	if g.constant != w.constant.unwrap_or(false) {
		return Err(format!("{}: constant is {}", what, g.constant));
	}
	let m = match g.state_mutability {
		ethabi::StateMutability::NonPayable => 0,
		ethabi::StateMutability::Pure => 1,
		ethabi::StateMutability::View => 2,
		ethabi::StateMutability::Payable => 3,
	};
	if m != w.mutability.unwrap_or(0) {
		return Err(format!("{}: state mutability is {}", what, MUT[m]));
	}
	Ok(())
}

pub fn cmp_event(g: &ethabi::Event, w: &MEvent) -> Result<(), String> {
	let what = format!("event {:?}", w.sig());
	if g.name != w.name {
		return Err(format!("{}: name is {:?}", what, g.name));
	}
	if g.anonymous != w.anonymous {
		return Err(format!("{}: anonymous is {}", what, g.anonymous));
	}
	if g.inputs.len() != w.inputs.len() {
		return Err(format!("{}: {} parameters instead of {}", what, g.inputs.len(), w.inputs.len()));
	}
	for (i, (g, w)) in g.inputs.iter().zip(&w.inputs).enumerate() {
		if g.name != w.name {
			return Err(format!("{}: parameter {} named {:?} instead of {:?}", what, i, g.name, w.name));
		}
		cmp_kind(&g.kind, &w.ty).map_err(|e| format!("{}: parameter {}: {}", what, i, e))?;
		if g.indexed != w.ix() {
			return Err(format!("{}: parameter {} indexed is {}", what, i, g.indexed));
		}
	}
	Ok(())
}

/// The loaded contract is exactly the one the model describes.
pub fn compare(c: &ethabi::Contract, m: &MContract) -> Result<(), String> {
	match (c.constructor(), m.constructor()) {
		(None, None) => {}
		(Some(g), Some(w)) => cmp_params(&g.inputs, w, "constructor")?,
		(g, _) => return Err(format!("constructor present: {}", g.is_some())),
	}
	let fb = m.entries.iter().any(|e| matches!(e, Entry::Fallback));
	let rc = m.entries.iter().any(|e| matches!(e, Entry::Receive));
	if c.fallback != fb {
		return Err(format!("fallback is {}", c.fallback));
	}
	if c.receive != rc {
		return Err(format!("receive is {}", c.receive));
	}
	let mut names: Vec<&str> = m.funcs().map(|f| f.name.as_str()).collect();
	names.sort();
	names.dedup();
	for n in &names {
		let want: Vec<&MFunc> = m.funcs().filter(|f| f.name == *n).collect();
		let got = c.functions_by_name(n).map_err(|e| format!("function {:?} not found: {}", n, e))?;
		if got.len() != want.len() {
			return Err(format!("{} overloads of {:?} instead of {}", got.len(), n, want.len()));
		}
		for (g, w) in got.iter().zip(want.iter()) {
			cmp_func(g, w)?;
		}
		let first = c.function(n).map_err(|e| format!("function {:?} not found: {}", n, e))?;
		cmp_func(first, want[0]).map_err(|e| format!("first overload: {}", e))?;
	}
	if c.functions().count() != m.funcs().count() {
		return Err(format!("{} functions instead of {}", c.functions().count(), m.funcs().count()));
	}
	let mut enames: Vec<&str> = m.events().map(|f| f.name.as_str()).collect();
	enames.sort();
	enames.dedup();
	for n in &enames {
		let want: Vec<&MEvent> = m.events().filter(|f| f.name == *n).collect();
		let got = c.events_by_name(n).map_err(|e| format!("event {:?} not found: {}", n, e))?;
		if got.len() != want.len() {
			return Err(format!("{} events {:?} instead of {}", got.len(), n, want.len()));
		}
		for (g, w) in got.iter().zip(want.iter()) {
			cmp_event(g, w)?;
		}
		let first = c.event(n).map_err(|e| format!("event {:?} not found: {}", n, e))?;
		cmp_event(first, want[0]).map_err(|e| format!("first event: {}", e))?;
	}
	if c.events().count() != m.events().count() {
		return Err(format!("{} events instead of {}", c.events().count(), m.events().count()));
	}
	// each of the iterated entries is one of the described ones
	for f in c.functions() {
		if !names.contains(&f.name.as_str()) {
			return Err(format!("unknown function {:?} listed", f.name));
		}
	}
	for f in c.events() {
		if !enames.contains(&f.name.as_str()) {
			return Err(format!("unknown event {:?} listed", f.name));
		}
	}
	for absent in ["noSuchEntry", "foo "] {
		if !names.contains(&absent) && (c.function(absent).is_ok() || c.functions_by_name(absent).is_ok()) {
			return Err(format!("function {:?} found", absent));
		}
		if !enames.contains(&absent) && (c.event(absent).is_ok() || c.events_by_name(absent).is_ok()) {
			return Err(format!("event {:?} found", absent));
		}
	}
	Ok(())
}

// ---- documents that are no ABI ---------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
enum Role {
	Entry,
	Param,
	EvParam,
	Component,
}

/// The objects of the document that have a meaning, as paths.
fn places(j: &J) -> Vec<(Vec<usize>, Role)> {
	fn below(j: &J, path: &mut Vec<usize>, role: Role, out: &mut Vec<(Vec<usize>, Role)>) {
		let J::Obj(v) = j else { return };
		out.push((path.clone(), role));
		let event = role == Role::Entry && j.get("type") == Some(&J::s("event"));
		let plain = matches!(j.get("type"), Some(J::Str(s)) if s == "fallback" || s == "receive");
		for (i, (k, x)) in v.iter().enumerate() {
			let inner = match (role, k.as_str()) {
				(Role::Entry, "inputs") if event => Role::EvParam,
				(Role::Entry, "inputs") if !plain => Role::Param,
				(Role::Entry, "outputs") if j.get("type") == Some(&J::s("function")) => Role::Param,
				(Role::Param | Role::EvParam | Role::Component, "components") => Role::Component,
				_ => continue,
			};
			if let J::Arr(a) = x {
				for (n, y) in a.iter().enumerate() {
					path.extend([i, n]);
					below(y, path, inner, out);
					path.truncate(path.len() - 2);
				}
			}
		}
	}
	let mut out = vec![];
	if let J::Arr(v) = j {
		for (i, e) in v.iter().enumerate() {
			below(e, &mut vec![i], Role::Entry, &mut out);
		}
	}
	out
}

fn at<'a>(j: &'a mut J, path: &[usize]) -> &'a mut Vec<(String, J)> {
	let mut cur = match j {
		J::Arr(v) => &mut v[path[0]],
		_ => unreachable!(),
	};
	for p in path[1..].chunks(2) {
		let J::Obj(v) = cur else { unreachable!() };
		let J::Arr(a) = &mut v[p[0]].1 else { unreachable!() };
		cur = &mut a[p[1]];
	}
	match cur {
		J::Obj(v) => v,
		_ => unreachable!(),
	}
}

/// Names that denote no type.
pub const NO_TYPE: &[&str] = &["", "uint256[", "foo", "(uint256", "uint256)", "uint256[x]", "tupl", "uint256[]]", "[]", "Uint256", "uint256 ", "int-8", "bytes-1", "uint8[-1]", "bytes[2", "function256"];

/// Makes a document describe no contract; says how, or `None` if it found nothing to spoil.
pub fn spoil(t: &mut Tape, j: &mut J) -> Option<&'static str> {
	let ps = places(j);
	if ps.is_empty() || t.chance(1, 25) {
		*j = match t.below(6) {
			0 => J::Obj(vec![("abi".into(), j.clone())]),
			1 => J::Null,
			2 => J::s("[]"),
			3 => J::Num("1".into()),
			4 => J::Arr(vec![j.clone()]),
			_ => J::Bool(true),
		};
		if *j == J::Arr(vec![J::Arr(vec![])]) {
			*j = J::Null;
		}
		return Some("no_list_of_entries");
	}
	let (path, role) = t.pick(&ps).clone();
	let o = at(j, &path);
	let kind = match o.iter().find(|x| x.0 == "type") {
		Some((_, J::Str(s))) => s.clone(),
		_ => return None,
	};
	let is_tuple = role != Role::Entry && o.iter().any(|x| x.0 == "components");
	// fields that have to be there
	let needed: &[&str] = match (role, kind.as_str()) {
		(Role::Entry, "function") => &["type", "name", "inputs", "outputs"],
		(Role::Entry, "event") => &["type", "name", "inputs", "anonymous"],
		(Role::Entry, "constructor") => &["type", "inputs"],
		(Role::Entry, _) => &["type"],
		(Role::Component, _) if is_tuple => &["type", "components"],
		(Role::Component, _) => &["type"],
		_ if is_tuple => &["name", "type", "components"],
		_ => &["name", "type"],
	};
	// fields that mean something
	let meant: Vec<usize> = o
		.iter()
		.enumerate()
		.filter(|(_, (k, _))| {
			needed.contains(&k.as_str())
				|| (role == Role::Entry && kind == "function" && (k == "constant" || k == "stateMutability"))
				|| (role == Role::EvParam && k == "indexed")
				|| (role == Role::Component && k == "name")
				|| (matches!(role, Role::Param | Role::Component) && k == "internalType")
		})
		.map(|(i, _)| i)
		.collect();
	Some(match t.weighted(&[4, 4, 3, 3]) {
		0 => {
			let k = *t.pick(needed);
			o.retain(|x| x.0 != k);
			"field_missing"
		}
		1 => {
			let i = *t.pick(&meant);
			let mut again = o[i].clone();
			if again.0 == "type" && role == Role::Entry && t.chance(1, 2) {
				again.1 = J::s(t.pick(&["function", "event", "constructor", "fallback", "receive"]));
			}
			let k = t.below(o.len() as u64 + 1) as usize;
			o.insert(k, again);
			"field_twice"
		}
		2 => {
			let i = *t.pick(&meant);
			let j = match o[i].1 {
				J::Str(_) => [J::Num("7".into()), J::Bool(true), J::Obj(vec![("a".into(), J::Null)])][t.below(3) as usize].clone(),
				J::Bool(_) => [J::Num("1".into()), J::s("true"), J::Null, J::Arr(vec![])][t.below(4) as usize].clone(),
				_ => [J::s("[]"), J::Bool(false), J::Null, J::Num("0".into()), J::Obj(vec![])][t.below(5) as usize].clone(),
			};
			o[i].1 = j;
			"field_of_wrong_kind"
		}
		_ => {
			let x = if role == Role::Entry {
				if kind == "function" && o.iter().any(|x| x.0 == "stateMutability") && t.chance(1, 3) {
					for x in o.iter_mut().filter(|x| x.0 == "stateMutability") {
						x.1 = J::s(t.pick(&["constant", "View", "", "nonpayable "]));
					}
					return Some("unknown_mutability");
				}
				J::s(t.pick(&["", "Function", "struct", "functions", "event ", "modifier", "library"]))
			} else {
				J::s(t.pick(NO_TYPE))
			};
			for f in o.iter_mut().filter(|x| x.0 == "type") {
				f.1 = x.clone();
			}
			if role == Role::Entry {
				"entry_of_unknown_kind"
			} else {
				"no_type"
			}
		}
	})
}
