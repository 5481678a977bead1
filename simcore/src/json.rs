//! A small JSON tree with its own renderer (varied formatting) and strict parser (RFC 8259).
use simrt::Tape;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
	Null,
	Bool(bool),
	Num(String),
	Str(String),
	Arr(Vec<J>),
	Obj(Vec<(String, J)>),
}

impl J {
	pub fn s(x: &str) -> J {
		J::Str(x.to_string())
	}
	pub fn get(&self, k: &str) -> Option<&J> {
		match self {
			J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|x| &x.1),
			_ => None,
		}
	}
}

/// Formatting of a document, drawn per document.
#[derive(Clone, Debug, Default)]
pub struct Style {
	/// 0 compact, 1 two-space pretty, 2 random white space
	pub ws: usize,
	/// Escape this many in 16 characters needlessly.
	pub escape: u64,
	pub lead: String,
	pub trail: String,
}

impl Style {
	pub fn draw(t: &mut Tape) -> Style {
		let ws = t.weighted(&[3, 2, 2]);
		let escape = [0u64, 1, 8][t.weighted(&[6, 2, 1])];
		let sp = |t: &mut Tape| -> String {
			let n = [0u64, 1, 3, 40][t.weighted(&[6, 2, 2, 1])];
			(0..n).map(|_| *t.pick(&[' ', '\n', '\t', '\r'])).collect()
		};
		let lead = sp(t);
		let trail = sp(t);
		Style { ws, escape, lead, trail }
	}
}

struct R<'a> {
	st: &'a Style,
	rng: simrt::tape::Rng,
	out: String,
}

impl<'a> R<'a> {
	fn gap(&mut self, depth: usize, nl: bool) {
		match self.st.ws {
			0 => {}
			1 => {
				if nl {
					self.out.push('\n');
					for _ in 0..depth {
						self.out.push_str("  ");
					}
				}
			}
			_ => {
				for _ in 0..self.rng.below(4) {
					let c = [' ', '\n', '\t', '\r'][self.rng.below(4) as usize];
					self.out.push(c);
				}
			}
		}
	}
	fn str(&mut self, s: &str) {
		self.out.push('"');
		for c in s.chars() {
			let force = self.st.escape > 0 && self.rng.below(16) < self.st.escape;
			match c {
				'"' if !force => self.out.push_str("\\\""),
				'\\' if !force => self.out.push_str("\\\\"),
				'/' if force => self.out.push_str("\\/"),
				'\n' if !force => self.out.push_str("\\n"),
				c if (c as u32) < 0x20 || force => {
					let mut b = [0u16; 2];
					let up = self.rng.below(2) == 0;
					for u in c.encode_utf16(&mut b) {
						self.out.push_str(&if up { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) });
					}
				}
				c => self.out.push(c),
			}
		}
		self.out.push('"');
	}
	fn val(&mut self, j: &J, d: usize) {
		match j {
			J::Null => self.out.push_str("null"),
			J::Bool(b) => self.out.push_str(if *b { "true" } else { "false" }),
			J::Num(n) => self.out.push_str(n),
			J::Str(s) => self.str(s),
			J::Arr(v) => {
				self.out.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 {
						self.out.push(',');
					}
					self.gap(d + 1, true);
					self.val(x, d + 1);
				}
				if !v.is_empty() || self.st.ws == 2 {
					self.gap(d, true);
				}
				self.out.push(']');
			}
			J::Obj(v) => {
				self.out.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 {
						self.out.push(',');
					}
					self.gap(d + 1, true);
					self.str(k);
					self.gap(d, false);
					self.out.push(':');
					if self.st.ws == 1 {
						self.out.push(' ');
					}
					self.gap(d, false);
					self.val(x, d + 1);
				}
				if !v.is_empty() || self.st.ws == 2 {
					self.gap(d, true);
				}
				self.out.push('}');
			}
		}
	}
}

pub fn render(j: &J, st: &Style, seed: u64) -> String {
	let mut r = R { st, rng: simrt::tape::Rng::new(seed), out: String::new() };
	r.out.push_str(&st.lead);
	r.val(j, 0);
	r.out.push_str(&st.trail);
	r.out
}

struct P<'a> {
	b: &'a [u8],
	i: usize,
	depth: u32,
}

impl<'a> P<'a> {
	fn ws(&mut self) {
		while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\t' | b'\r') {
			self.i += 1;
		}
	}
	fn lit(&mut self, s: &str) -> Option<()> {
		if self.b[self.i..].starts_with(s.as_bytes()) {
			self.i += s.len();
			Some(())
		} else {
			None
		}
	}
	fn hex4(&mut self) -> Option<u32> {
		let s = std::str::from_utf8(self.b.get(self.i..self.i + 4)?).ok()?;
		if !s.bytes().all(|c| c.is_ascii_hexdigit()) {
			return None;
		}
		self.i += 4;
		u32::from_str_radix(s, 16).ok()
	}
	fn string(&mut self) -> Option<String> {
		self.lit("\"")?;
		let mut out = vec![];
		loop {
			let c = *self.b.get(self.i)?;
			self.i += 1;
			match c {
				b'"' => return String::from_utf8(out).ok(),
				b'\\' => {
					let e = *self.b.get(self.i)?;
					self.i += 1;
					let ch = match e {
						b'"' => '"',
						b'\\' => '\\',
						b'/' => '/',
						b'b' => '\u{8}',
						b'f' => '\u{c}',
						b'n' => '\n',
						b'r' => '\r',
						b't' => '\t',
						b'u' => {
							let h = self.hex4()?;
							if (0xd800..0xdc00).contains(&h) {
								self.lit("\\u")?;
								let l = self.hex4()?;
								if !(0xdc00..0xe000).contains(&l) {
									return None;
								}
								char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00))?
							} else {
								char::from_u32(h)?
							}
						}
						_ => return None,
					};
					let mut buf = [0u8; 4];
					out.extend_from_slice(ch.encode_utf8(&mut buf).as_bytes());
				}
				c if c < 0x20 => return None,
				c => out.push(c),
			}
		}
	}
	fn num(&mut self) -> Option<String> {
		let s = self.i;
		if self.b.get(self.i) == Some(&b'-') {
			self.i += 1;
		}
		let digits = |p: &mut Self| {
			let a = p.i;
			while p.i < p.b.len() && p.b[p.i].is_ascii_digit() {
				p.i += 1;
			}
			p.i - a
		};
		let a = self.i;
		let n = digits(self);
		if n == 0 || (n > 1 && self.b[a] == b'0') {
			return None;
		}
		if self.b.get(self.i) == Some(&b'.') {
			self.i += 1;
			if digits(self) == 0 {
				return None;
			}
		}
		if matches!(self.b.get(self.i), Some(b'e') | Some(b'E')) {
			self.i += 1;
			if matches!(self.b.get(self.i), Some(b'+') | Some(b'-')) {
				self.i += 1;
			}
			if digits(self) == 0 {
				return None;
			}
		}
		Some(String::from_utf8_lossy(&self.b[s..self.i]).into())
	}
	fn val(&mut self) -> Option<J> {
		self.depth += 1;
		if self.depth > 400 {
			return None;
		}
		self.ws();
		let r = match *self.b.get(self.i)? {
			b'n' => self.lit("null").map(|_| J::Null),
			b't' => self.lit("true").map(|_| J::Bool(true)),
			b'f' => self.lit("false").map(|_| J::Bool(false)),
			b'"' => self.string().map(J::Str),
			b'[' => {
				self.i += 1;
				let mut v = vec![];
				self.ws();
				if self.lit("]").is_none() {
					loop {
						v.push(self.val()?);
						self.ws();
						if self.lit(",").is_some() {
							continue;
						}
						self.lit("]")?;
						break;
					}
				}
				Some(J::Arr(v))
			}
			b'{' => {
				self.i += 1;
				let mut v = vec![];
				self.ws();
				if self.lit("}").is_none() {
					loop {
						self.ws();
						let k = self.string()?;
						self.ws();
						self.lit(":")?;
						let x = self.val()?;
						v.push((k, x));
						self.ws();
						if self.lit(",").is_some() {
							continue;
						}
						self.lit("}")?;
						break;
					}
				}
				Some(J::Obj(v))
			}
			_ => self.num().map(J::Num),
		};
		self.depth -= 1;
		r
	}
}

/// `None` if the bytes are not one complete JSON document.
pub fn parse(b: &[u8]) -> Option<J> {
	let mut p = P { b, i: 0, depth: 0 };
	let v = p.val()?;
	p.ws();
	if p.i == b.len() {
		Some(v)
	} else {
		None
	}
}
