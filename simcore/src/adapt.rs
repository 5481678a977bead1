//! Conversions between the model and the library's public types.
use crate::mty::{MType, MVal};
use ethabi::{ParamType, Token};

pub fn kind_to_m(k: &ParamType) -> MType {
	match k {
		ParamType::Address => MType::Address,
		ParamType::Bytes => MType::Bytes,
		ParamType::Int(n) => MType::Int(*n),
		ParamType::Uint(n) => MType::Uint(*n),
		ParamType::Bool => MType::Bool,
		ParamType::String => MType::Str,
		ParamType::Array(t) => MType::Array(Box::new(kind_to_m(t))),
		ParamType::FixedBytes(n) => MType::FixedBytes(*n),
		ParamType::FixedArray(t, n) => MType::FixedArray(Box::new(kind_to_m(t)), *n),
		ParamType::Tuple(ts) => MType::Tuple(ts.iter().map(kind_to_m).collect()),
	}
}

pub fn to_kind(t: &MType) -> ParamType {
	match t {
		MType::Address => ParamType::Address,
		MType::Bytes => ParamType::Bytes,
		MType::Int(n) => ParamType::Int(*n),
		MType::Uint(n) => ParamType::Uint(*n),
		MType::Bool => ParamType::Bool,
		MType::Str => ParamType::String,
		MType::Array(t) => ParamType::Array(Box::new(to_kind(t))),
		MType::FixedBytes(n) => ParamType::FixedBytes(*n),
		MType::FixedArray(t, n) => ParamType::FixedArray(Box::new(to_kind(t)), *n),
		MType::Tuple(ts) => ParamType::Tuple(ts.iter().map(to_kind).collect()),
	}
}

pub fn to_token(v: &MVal) -> Token {
	match v {
		MVal::Address(a) => Token::Address((*a).into()),
		MVal::Bytes(b) => Token::Bytes(b.clone()),
		MVal::Int(w) => Token::Int((*w).into()),
		MVal::Uint(w) => Token::Uint((*w).into()),
		MVal::Bool(b) => Token::Bool(*b),
		MVal::Str(s) => Token::String(String::from_utf8_lossy(s).into_owned()),
		MVal::FixedBytes(b) => Token::FixedBytes(b.clone()),
		MVal::Array(x) => Token::Array(x.iter().map(to_token).collect()),
		MVal::FixedArray(x) => Token::FixedArray(x.iter().map(to_token).collect()),
		MVal::Tuple(x) => Token::Tuple(x.iter().map(to_token).collect()),
	}
}

pub fn to_tokens(v: &[MVal]) -> Vec<Token> {
	v.iter().map(to_token).collect()
}

pub fn from_token(t: &Token) -> MVal {
	match t {
		Token::Address(a) => MVal::Address(a.0),
		Token::Bytes(b) => MVal::Bytes(b.clone()),
		Token::Int(w) => MVal::Int((*w).into()),
		Token::Uint(w) => MVal::Uint((*w).into()),
		Token::Bool(b) => MVal::Bool(*b),
		Token::String(s) => MVal::Str(s.clone().into_bytes()),
		Token::FixedBytes(b) => MVal::FixedBytes(b.clone()),
		Token::Array(x) => MVal::Array(x.iter().map(from_token).collect()),
		Token::FixedArray(x) => MVal::FixedArray(x.iter().map(from_token).collect()),
		Token::Tuple(x) => MVal::Tuple(x.iter().map(from_token).collect()),
	}
}

pub fn from_tokens(v: &[Token]) -> Vec<MVal> {
	v.iter().map(from_token).collect()
}
