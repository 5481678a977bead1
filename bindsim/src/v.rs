//! Values between the model and the Rust types the bindings use.
use ethabi::{Address, Hash, RawLog, Topic, TopicFilter, Uint};
use simcore::mty::{MType, MVal};

pub trait V: Sized {
	fn from_m(v: &MVal) -> Self;
	fn to_m(&self, t: &MType) -> MVal;
}

fn bad<T>(v: &MVal) -> T {
	panic!("glue: {:?}", v)
}

impl V for Address {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::Address(a) => (*a).into(),
			_ => bad(v),
		}
	}
	fn to_m(&self, _: &MType) -> MVal {
		MVal::Address(self.0)
	}
}
impl V for Vec<u8> {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::Bytes(b) => b.clone(),
			_ => bad(v),
		}
	}
	fn to_m(&self, _: &MType) -> MVal {
		MVal::Bytes(self.clone())
	}
}
impl V for Hash {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::FixedBytes(b) => Hash::from_slice(b),
			_ => bad(v),
		}
	}
	fn to_m(&self, _: &MType) -> MVal {
		MVal::FixedBytes(self.0.to_vec())
	}
}
impl<const N: usize> V for [u8; N] {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::FixedBytes(b) => b.clone().try_into().unwrap_or_else(|_| bad(v)),
			_ => bad(v),
		}
	}
	fn to_m(&self, _: &MType) -> MVal {
		MVal::FixedBytes(self.to_vec())
	}
}
impl V for Uint {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::Int(w) | MVal::Uint(w) => (*w).into(),
			_ => bad(v),
		}
	}
	fn to_m(&self, t: &MType) -> MVal {
		match t {
			MType::Int(_) => MVal::Int((*self).into()),
			_ => MVal::Uint((*self).into()),
		}
	}
}
impl V for bool {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::Bool(b) => *b,
			_ => bad(v),
		}
	}
	fn to_m(&self, _: &MType) -> MVal {
		MVal::Bool(*self)
	}
}
impl V for String {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::Str(b) => String::from_utf8_lossy(b).into_owned(),
			_ => bad(v),
		}
	}
	fn to_m(&self, _: &MType) -> MVal {
		MVal::Str(self.clone().into_bytes())
	}
}
impl<T: V> V for Vec<T> {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::Array(x) => x.iter().map(T::from_m).collect(),
			_ => bad(v),
		}
	}
	fn to_m(&self, t: &MType) -> MVal {
		let MType::Array(e) = t else { panic!("glue: {:?}", t) };
		MVal::Array(self.iter().map(|x| x.to_m(e)).collect())
	}
}
impl<T: V, const N: usize> V for [T; N] {
	fn from_m(v: &MVal) -> Self {
		match v {
			MVal::FixedArray(x) => x.iter().map(T::from_m).collect::<Vec<T>>().try_into().unwrap_or_else(|_| bad(v)),
			_ => bad(v),
		}
	}
	fn to_m(&self, t: &MType) -> MVal {
		let MType::FixedArray(e, _) = t else { panic!("glue: {:?}", t) };
		MVal::FixedArray(self.iter().map(|x| x.to_m(e)).collect())
	}
}

/// A criterion for one indexed parameter.
#[derive(Clone, Debug)]
pub enum Crit {
	Any,
	This(MVal),
	OneOf(Vec<MVal>),
}

pub fn topics<T: V>(c: &Crit) -> Topic<T> {
	match c {
		Crit::Any => Topic::Any,
		Crit::This(v) => Topic::This(T::from_m(v)),
		Crit::OneOf(v) => Topic::OneOf(v.iter().map(T::from_m).collect()),
	}
}

pub type Decode = Box<dyn Fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>>;

pub struct FnGlue {
	pub name: &'static str,
	pub encode: fn(&[MVal]) -> Vec<u8>,
	pub decode: fn(&[MType], &[u8]) -> Result<Vec<MVal>, String>,
	pub call: fn(&[MVal]) -> (Vec<u8>, Decode),
}

pub struct EvGlue {
	pub name: &'static str,
	pub event: fn() -> ethabi::Event,
	pub filter: fn(&[Crit]) -> TopicFilter,
	pub wildcard: fn() -> TopicFilter,
	pub parse: fn(&[MType], RawLog) -> Result<Vec<MVal>, String>,
}

pub struct Abi {
	pub name: &'static str,
	pub text: &'static str,
	pub ctor: Option<fn(Vec<u8>, &[MVal]) -> Vec<u8>>,
	pub fns: Vec<FnGlue>,
	pub evs: Vec<EvGlue>,
}
