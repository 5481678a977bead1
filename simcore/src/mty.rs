//! The reference model of ABI types and values, and their generators. Independent of the library.
use simrt::Tape;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MType {
	Address,
	Bytes,
	Int(usize),
	Uint(usize),
	Bool,
	Str,
	FixedBytes(usize),
	Array(Box<MType>),
	FixedArray(Box<MType>, usize),
	Tuple(Vec<MType>),
}
use MType::*;

impl MType {
	pub fn is_dynamic(&self) -> bool {
		match self {
			Bytes | Str | Array(_) => true,
			FixedArray(t, _) => t.is_dynamic(),
			Tuple(ts) => ts.iter().any(|t| t.is_dynamic()),
			_ => false,
		}
	}
	/// Bytes this type occupies in the head.
	pub fn head(&self) -> usize {
		if self.is_dynamic() {
			return 32;
		}
		match self {
			FixedArray(t, n) => t.head().saturating_mul(*n),
			Tuple(ts) => ts.iter().map(|t| t.head()).fold(0, |a, b| a.saturating_add(b)),
			_ => 32,
		}
	}
	/// Least number of leaves in a value of this type.
	pub fn leaves(&self) -> usize {
		match self {
			FixedArray(t, n) => t.leaves().saturating_mul(*n),
			Tuple(ts) => ts.iter().map(|t| t.leaves()).fold(0, |a, b| a.saturating_add(b)),
			_ => 1,
		}
	}
	/// The canonical name, as used in signatures.
	pub fn canonical(&self) -> String {
		match self {
			Address => "address".into(),
			Bytes => "bytes".into(),
			Int(n) => format!("int{}", n),
			Uint(n) => format!("uint{}", n),
			Bool => "bool".into(),
			Str => "string".into(),
			FixedBytes(n) => format!("bytes{}", n),
			Array(t) => format!("{}[]", t.canonical()),
			FixedArray(t, n) => format!("{}[{}]", t.canonical(), n),
			Tuple(ts) => format!("({})", ts.iter().map(|t| t.canonical()).collect::<Vec<_>>().join(",")),
		}
	}
	/// The name in the JSON ABI, where structs read `tuple`.
	pub fn json_name(&self) -> String {
		match self {
			Array(t) => format!("{}[]", t.json_name()),
			FixedArray(t, n) => format!("{}[{}]", t.json_name(), n),
			Tuple(_) => "tuple".into(),
			t => t.canonical(),
		}
	}
	pub fn inner_tuple(&self) -> Option<&Vec<MType>> {
		match self {
			Array(t) | FixedArray(t, _) => t.inner_tuple(),
			Tuple(ts) => Some(ts),
			_ => None,
		}
	}
	pub fn has_tuple(&self) -> bool {
		self.inner_tuple().is_some()
	}
	/// No component occupies zero bytes and every size is one Solidity allows.
	pub fn is_solidity(&self) -> bool {
		match self {
			Int(n) | Uint(n) => *n > 0 && *n <= 256 && n % 8 == 0,
			FixedBytes(n) => *n >= 1 && *n <= 32,
			Array(t) => t.is_solidity(),
			FixedArray(t, n) => *n > 0 && t.is_solidity(),
			Tuple(ts) => !ts.is_empty() && ts.iter().all(|t| t.is_solidity()),
			_ => true,
		}
	}
	/// A value of this type is one topic word when indexed.
	pub fn is_value_type(&self) -> bool {
		matches!(self, Address | Int(_) | Uint(_) | Bool | FixedBytes(_))
	}
}

pub fn signature(name: &str, types: &[MType]) -> String {
	format!("{}({})", name, types.iter().map(|t| t.canonical()).collect::<Vec<_>>().join(","))
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MVal {
	Address([u8; 20]),
	Bytes(Vec<u8>),
	Int([u8; 32]),
	Uint([u8; 32]),
	Bool(bool),
	/// Raw bytes; what is read back is their lossy UTF-8 decoding.
	Str(Vec<u8>),
	FixedBytes(Vec<u8>),
	Array(Vec<MVal>),
	FixedArray(Vec<MVal>),
	Tuple(Vec<MVal>),
}

/// What shape of types a run may use (swarm: drawn per run).
#[derive(Clone, Debug)]
pub struct TypeCfg {
	pub depth: u32,
	pub tuples: bool,
	pub max_fixed: usize,
	pub max_tuple: usize,
}

impl TypeCfg {
	pub fn draw(t: &mut Tape) -> TypeCfg {
		TypeCfg {
			depth: [0u32, 1, 2, 3, 4, 8][t.weighted(&[6, 8, 8, 4, 2, 1])],
			tuples: !t.chance(1, 4),
			max_fixed: [3usize, 1, 2, 5, 40, 300][t.weighted(&[12, 2, 4, 4, 2, 1])],
			max_tuple: [3usize, 1, 5, 9][t.weighted(&[6, 1, 2, 1])],
		}
	}
}

pub fn gen_type(t: &mut Tape, c: &TypeCfg) -> MType {
	gen_type_d(t, c, c.depth)
}

fn leaf(t: &mut Tape) -> MType {
	match t.weighted(&[6, 3, 3, 3, 4, 4, 4]) {
		0 => Uint(match t.weighted(&[6, 2, 5, 4]) {
			0 => 256,
			1 => 8,
			2 => [16usize, 32, 64, 128, 248][t.below(5) as usize],
			_ => 8 * t.range(1, 32) as usize,
		}),
		1 => Address,
		2 => Bool,
		3 => Int(match t.weighted(&[5, 2, 3, 3]) {
			0 => 256,
			1 => 8,
			2 => [64usize, 128, 16, 248][t.below(4) as usize],
			_ => 8 * t.range(1, 32) as usize,
		}),
		4 => FixedBytes(match t.weighted(&[4, 2, 2, 4]) {
			0 => 32,
			1 => 4,
			2 => 1,
			_ => t.range(1, 32) as usize,
		}),
		5 => Str,
		_ => Bytes,
	}
}

fn gen_type_d(t: &mut Tape, c: &TypeCfg, d: u32) -> MType {
	if d == 0 {
		return leaf(t);
	}
	match t.weighted(&[5, 3, 3, if c.tuples { 3 } else { 0 }]) {
		0 => leaf(t),
		1 => Array(Box::new(gen_type_d(t, c, d - 1))),
		2 => {
			let n = 1 + t.below(c.max_fixed as u64) as usize;
			let e = gen_type_d(t, c, d - 1);
			let n = if e.leaves().saturating_mul(n) > if d == 1 { 320 } else { 200 } { 1 } else { n };
			FixedArray(Box::new(e), n)
		}
		_ => {
			if c.max_tuple > 2 && t.chance(1, 12) {
				// a wide one, of elementary fields
				let n = 4 + t.below(36) as usize;
				return Tuple((0..n).map(|_| leaf(t)).collect());
			}
			let n = 1 + t.below(c.max_tuple as u64) as usize;
			Tuple((0..n).map(|_| gen_type_d(t, c, d - 1)).collect())
		}
	}
}

pub fn gen_types(t: &mut Tape, c: &TypeCfg, max: u64) -> Vec<MType> {
	let n = t.below(max + 1);
	(0..n).map(|_| gen_type(t, c)).collect()
}

const STRS: &[&str] = &[
	"", "a", "hello", "Ünïcödé", "日本語テキスト", "😀", "0x", "\u{0}", "null", "a,b(c)[d]\"e\"", "\n\t",
	"an exactly 32-byte long string!!", "a string that does not fit in a single thirty-two byte word at all",
];

/// Strings somebody might tidy up.
const RAW_STRS: &[&str] = &[
	"\u{feff}mark", " leading", "trailing ", "\ttab\t", "line\nbreak\n", "\r\n", " ", "0x1234", "0X", "007", "null", "e\u{301}", "\u{e9}",
	"\u{200f}rtl", "\u{fffd}", "\u{10ffff}", "\u{2028}", "\u{7f}\u{1b}[0m", "UPPER", "\u{130}", "straße", "'single'", "a\\n", "%s{}", "\u{a0}nbsp\u{a0}",
];

fn word(t: &mut Tape, bits: usize, signed: bool) -> [u8; 32] {
	let mut w = [0u8; 32];
	match t.weighted(&[4, 6, 6, 12, 3]) {
		0 => {}
		1 => w[31] = t.range(1, if signed { 127 } else { 255 }) as u8,
		2 => {
			// the largest value, or the smallest negative one
			let neg = signed && t.chance(1, 2);
			if signed {
				for i in 0..bits {
					w[31 - i / 8] |= 1 << (i % 8);
				}
				w[31 - (bits - 1) / 8] &= 0x7f;
				if neg {
					for b in w.iter_mut() {
						*b = !*b;
					}
				}
			} else {
				for b in w[32 - bits / 8..].iter_mut() {
					*b = 0xff;
				}
			}
		}
		4 => {
			// a power of two, or one less
			let k = t.below(bits as u64 - signed as u64) as usize;
			w[31 - k / 8] = 1 << (k % 8);
			if t.chance(1, 2) {
				w[31 - k / 8] -= 1;
				for b in w[32 - k / 8..].iter_mut() {
					*b = 0xff;
				}
			}
		}
		_ => {
			let b = t.bytes(bits / 8);
			w[32 - bits / 8..].copy_from_slice(&b);
			if signed && b[0] & 0x80 != 0 {
				for x in w[..32 - bits / 8].iter_mut() {
					*x = 0xff;
				}
			}
		}
	}
	w
}

/// A value of the given type. `fuel` bounds the number of elements.
pub fn gen_val(t: &mut Tape, ty: &MType, fuel: &mut i64) -> MVal {
	*fuel -= 1;
	match ty {
		Uint(b) => MVal::Uint(word(t, *b, false)),
		Int(b) => MVal::Int(word(t, *b, true)),
		Bool => MVal::Bool(t.chance(1, 2)),
		Address => {
			let mut a = [0u8; 20];
			a.copy_from_slice(&blob(t, 20));
			MVal::Address(a)
		}
		FixedBytes(n) => MVal::FixedBytes(blob(t, *n)),
		Bytes => {
			let n = blob_len(t, fuel);
			MVal::Bytes(blob(t, n))
		}
		Str => MVal::Str(match t.weighted(&[6, 2, 1]) {
			0 => t.pick(STRS).as_bytes().to_vec(),
			2 => t.pick(RAW_STRS).as_bytes().to_vec(),
			_ => {
				let n = blob_len(t, fuel);
				t.bytes(n).iter().map(|b| b' ' + b % 95).collect()
			}
		}),
		Array(e) => {
			let n = if *fuel <= 0 { t.below(2) } else { [0u64, 1, 2, 3, 7, 33, 256][t.weighted(&[16, 24, 24, 16, 8, 8, 1])] };
			if n == 256 && e.leaves() == 1 {
				// long, with few distinct elements
				let n = [255usize, 256, 257, 1000, 65537][t.weighted(&[20, 20, 20, 8, 1])];
				*fuel -= 60;
				let few: Vec<MVal> = (0..3).map(|_| gen_val(t, e, &mut 0)).collect();
				return MVal::Array((0..n).map(|i| few[i % 3].clone()).collect());
			}
			let n = if *fuel < 40 { n.min(3) } else { n };
			MVal::Array((0..n).map(|_| gen_val(t, e, fuel)).collect())
		}
		FixedArray(e, n) => MVal::FixedArray((0..*n).map(|_| gen_val(t, e, fuel)).collect()),
		Tuple(ts) => MVal::Tuple(ts.iter().map(|e| gen_val(t, e, fuel)).collect()),
	}
}

/// Bytes, sometimes all alike or with zeros at an end.
fn blob(t: &mut Tape, n: usize) -> Vec<u8> {
	let mut b = t.bytes(n);
	match t.weighted(&[12, 1, 1, 1, 1]) {
		1 => b.iter_mut().for_each(|x| *x = 0),
		2 => b.iter_mut().for_each(|x| *x = 0xff),
		3 => b.iter_mut().take(n / 2 + 1).for_each(|x| *x = 0),
		4 => b.iter_mut().rev().take(n / 2 + 1).for_each(|x| *x = 0),
		_ => {}
	}
	b
}

fn blob_len(t: &mut Tape, fuel: &mut i64) -> usize {
	let n = match t.weighted(&[3, 1, 2, 2, 3, 1, 1]) {
		0 => t.below(8) as usize,
		1 => 0,
		2 => 32,
		3 => [31usize, 33, 63, 64, 65][t.below(5) as usize],
		4 => t.below(100) as usize,
		5 => t.below(700) as usize,
		_ => [255usize, 256, 257, 1024, 4096, 65535, 65536][t.weighted(&[4, 4, 4, 2, 1, 1, 1])],
	};
	if *fuel <= 0 {
		return n.min(40);
	}
	*fuel -= (n / 64) as i64;
	n
}

pub fn gen_vals(t: &mut Tape, tys: &[MType], fuel: &mut i64) -> Vec<MVal> {
	tys.iter().map(|ty| gen_val(t, ty, fuel)).collect()
}

/// Makes the first byte string or text among the values longer than 24 bits can count.
pub fn huge(t: &mut Tape, vals: &mut [MVal]) -> bool {
	for v in vals {
		let done = match v {
			MVal::Bytes(b) | MVal::Str(b) => {
				let n = (1 << 24) + t.below(70) as usize;
				*b = (0..n).map(|i| b'a' + (i % 23) as u8).collect();
				true
			}
			MVal::Array(x) | MVal::FixedArray(x) | MVal::Tuple(x) => huge(t, x),
			_ => false,
		};
		if done {
			return true;
		}
	}
	false
}

/// Number of elements in a value, counting every node.
pub fn nodes(v: &MVal) -> u64 {
	match v {
		MVal::Array(x) | MVal::FixedArray(x) | MVal::Tuple(x) => 1 + x.iter().map(nodes).sum::<u64>(),
		_ => 1,
	}
}

/// `got` is a value that `want` allows.
pub fn matches(got: &MVal, want: &MVal) -> bool {
	match (got, want) {
		(MVal::Str(a), MVal::Str(b)) => a == b || *a == String::from_utf8_lossy(b).as_bytes(),
		(MVal::Array(a), MVal::Array(b))
		| (MVal::FixedArray(a), MVal::FixedArray(b))
		| (MVal::Tuple(a), MVal::Tuple(b)) => all_match(a, b),
		(a, b) => a == b,
	}
}

pub fn all_match(got: &[MVal], want: &[MVal]) -> bool {
	got.len() == want.len() && got.iter().zip(want).all(|(a, b)| matches(a, b))
}

/// The value inhabits the type.
pub fn inhabits(v: &MVal, t: &MType) -> bool {
	match (v, t) {
		(MVal::Address(_), Address) | (MVal::Bytes(_), Bytes) | (MVal::Bool(_), Bool) | (MVal::Str(_), Str) => true,
		(MVal::Int(_), Int(_)) | (MVal::Uint(_), Uint(_)) => true,
		(MVal::FixedBytes(b), FixedBytes(n)) => b.len() == *n,
		(MVal::Array(x), Array(e)) => x.iter().all(|v| inhabits(v, e)),
		(MVal::FixedArray(x), FixedArray(e, n)) => x.len() == *n && x.iter().all(|v| inhabits(v, e)),
		(MVal::Tuple(x), Tuple(ts)) => x.len() == ts.len() && x.iter().zip(ts).all(|(v, t)| inhabits(v, t)),
		_ => false,
	}
}

pub fn hex(b: &[u8]) -> String {
	let mut s = String::with_capacity(b.len() * 2);
	for x in b {
		s.push_str(&format!("{:02x}", x));
	}
	s
}

/// Short rendering for traces and reports.
pub fn show(v: &MVal) -> String {
	fn cut(s: String) -> String {
		if s.len() > 80 {
			let mut k = 77;
			while !s.is_char_boundary(k) {
				k -= 1;
			}
			format!("{}…({})", &s[..k], s.len())
		} else {
			s
		}
	}
	match v {
		MVal::Address(a) => format!("addr:{}", hex(a)),
		MVal::Bytes(b) => cut(format!("bytes:{}", hex(b))),
		MVal::FixedBytes(b) => format!("b{}:{}", b.len(), hex(b)),
		MVal::Int(w) => format!("int:{}", trim(w)),
		MVal::Uint(w) => format!("uint:{}", trim(w)),
		MVal::Bool(b) => format!("{}", b),
		MVal::Str(s) => cut(format!("{:?}", String::from_utf8_lossy(s))),
		MVal::Array(x) => cut(format!("[{}]", x.iter().map(show).collect::<Vec<_>>().join(","))),
		MVal::FixedArray(x) => cut(format!("<{}>", x.iter().map(show).collect::<Vec<_>>().join(","))),
		MVal::Tuple(x) => cut(format!("({})", x.iter().map(show).collect::<Vec<_>>().join(","))),
	}
}

fn trim(w: &[u8; 32]) -> String {
	let h = hex(w);
	let s = h.trim_start_matches('0');
	if s.is_empty() {
		"0".into()
	} else {
		s.into()
	}
}

pub fn show_all(v: &[MVal]) -> String {
	v.iter().map(show).collect::<Vec<_>>().join(", ")
}
