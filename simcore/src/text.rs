//! Values as text: what a user types on a command line, and what the tool prints.
use crate::mty::{hex, MVal};
use simrt::Tape;

/// A 256-bit number in decimal.
pub fn decimal(w: &[u8; 32]) -> String {
	let mut digits: Vec<u8> = vec![];
	let mut n = w.to_vec();
	while n.iter().any(|b| *b != 0) {
		let mut rem = 0u32;
		for b in n.iter_mut() {
			let cur = rem * 256 + *b as u32;
			*b = (cur / 10) as u8;
			rem = cur % 10;
		}
		digits.push(b'0' + rem as u8);
	}
	if digits.is_empty() {
		digits.push(b'0');
	}
	digits.reverse();
	String::from_utf8(digits).unwrap()
}

fn negate(w: &[u8; 32]) -> [u8; 32] {
	let mut o = [0u8; 32];
	let mut carry = 1u16;
	for i in (0..32).rev() {
		let x = !w[i] as u16 + carry;
		o[i] = x as u8;
		carry = x >> 8;
	}
	o
}

fn hexes(t: &mut Tape, b: &[u8]) -> String {
	let h = hex(b);
	if t.chance(1, 5) {
		h.to_uppercase()
	} else {
		h
	}
}

fn has_array(v: &MVal) -> bool {
	match v {
		MVal::Array(_) | MVal::FixedArray(_) => true,
		MVal::Tuple(x) => x.iter().any(has_array),
		_ => false,
	}
}

/// Whether a string can be an element or member: quoted stretches are taken as they stand, quotes
/// included; outside of them a comma ends the item, and so do the brackets the value is made of.
fn fits(s: &str, brackets: bool, parens: bool) -> bool {
	let mut quoted = false;
	for ch in s.chars() {
		match ch {
			'"' => quoted = !quoted,
			',' if !quoted => return false,
			'[' | ']' if !quoted && brackets => return false,
			'(' | ')' if !quoted && parens => return false,
			_ => {}
		}
	}
	!quoted
}

/// The text of a value as an argument; `None` if the notation cannot express it.
pub fn arg(t: &mut Tape, v: &MVal, lenient: bool) -> Option<String> {
	match v {
		MVal::Str(s) => Some(std::str::from_utf8(s).ok()?.to_string()),
		_ => write(t, v, lenient, has_array(v), false),
	}
}

/// The text of a value as one of several, whatever they are part of.
pub fn item(t: &mut Tape, v: &MVal, lenient: bool) -> Option<String> {
	write(t, v, lenient, true, true)
}

/// Gives some strings inside the value stretches in quotes, or brackets that mean nothing where they are.
pub fn dress(t: &mut Tape, v: &mut MVal) {
	match v {
		MVal::Array(x) | MVal::FixedArray(x) | MVal::Tuple(x) => {
			for y in x.iter_mut() {
				if let MVal::Str(s) = y {
					if t.chance(1, 2) {
						let own: Vec<u8> = s.iter().copied().filter(|b| *b != b'"').take(40).collect();
						let own = String::from_utf8_lossy(&own).into_owned();
						let mark = *t.pick(&[",", "[", "]", "(", ")", "a,b", "](", "x,(y]", "é,[", ""]);
						*s = match t.weighted(&[4, 2, 1, 1]) {
							0 => format!("\"{}{}\"", mark, own),
							1 => format!("\"{}\"{}", mark, own.replace([',', '[', ']', '(', ')'], "")),
							2 => format!("f({})", own.replace([',', '[', ']'], "")),
							_ => format!("a[{}]", own.replace([',', '(', ')'], "")),
						}
						.into_bytes();
					}
				} else {
					dress(t, y);
				}
			}
		}
		_ => {}
	}
}

/// The text of a value inside lists (`brackets`) and structs (`parens`), or of a value made of them.
fn write(t: &mut Tape, v: &MVal, lenient: bool, brackets: bool, parens: bool) -> Option<String> {
	Some(match v {
		MVal::Address(a) => hexes(t, a),
		MVal::Bytes(b) | MVal::FixedBytes(b) => hexes(t, b),
		MVal::Bool(b) => {
			if t.chance(1, 2) {
				["false", "true"][*b as usize].into()
			} else {
				["0", "1"][*b as usize].into()
			}
		}
		MVal::Uint(w) if lenient && t.chance(2, 3) => {
			let d = decimal(w);
			// sixty-four decimal digits read as hexadecimal
			if d.len() == 64 {
				hexes(t, w)
			} else {
				d
			}
		}
		MVal::Int(w) if lenient && t.chance(2, 3) => {
			let neg = w[0] & 0x80 != 0;
			let minus = neg || (w == &[0; 32] && t.chance(1, 4));
			let d = if minus { format!("-{}", decimal(&negate(w))) } else { decimal(w) };
			if d.len() == 64 {
				hexes(t, w)
			} else {
				d
			}
		}
		MVal::Uint(w) | MVal::Int(w) => hexes(t, w),
		MVal::Str(s) => {
			let s = std::str::from_utf8(s).ok()?;
			if !fits(s, brackets, parens) {
				return None;
			}
			s.to_string()
		}
		MVal::Array(x) | MVal::FixedArray(x) => {
			let p = x.iter().map(|e| write(t, e, lenient, brackets, parens)).collect::<Option<Vec<_>>>()?;
			if p.len() == 1 && p[0].is_empty() {
				return None;
			}
			format!("[{}]", p.join(","))
		}
		MVal::Tuple(x) => {
			let p = x.iter().map(|e| write(t, e, lenient, brackets, true)).collect::<Option<Vec<_>>>()?;
			format!("({})", p.join(","))
		}
	})
}

fn short(w: &[u8; 32]) -> String {
	let h = hex(w);
	let s = h.trim_start_matches('0');
	if s.is_empty() {
		"0".into()
	} else {
		s.into()
	}
}

/// How a value is printed.
pub fn display(v: &MVal) -> String {
	let list = |x: &[MVal]| x.iter().map(display).collect::<Vec<_>>().join(",");
	match v {
		MVal::Address(a) => hex(a),
		MVal::Bytes(b) | MVal::FixedBytes(b) => hex(b),
		MVal::Bool(b) => b.to_string(),
		MVal::Uint(w) | MVal::Int(w) => short(w),
		MVal::Str(s) => String::from_utf8_lossy(s).into_owned(),
		MVal::Array(x) | MVal::FixedArray(x) => format!("[{}]", list(x)),
		MVal::Tuple(x) => format!("({})", list(x)),
	}
}
