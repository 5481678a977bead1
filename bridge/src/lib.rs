//! The library's generic entry points, instantiated once for dynamic readers and writers. This
//! crate is compiled with the same edge callbacks as the library, so that the monomorphised loader
//! and serialiser code is stepped and preempted too.
use ethabi::{Contract, Error};
use std::io::{Read, Write};

pub fn load(r: &mut dyn Read) -> Result<Contract, Error> {
	Contract::load(r)
}

pub fn load_buffered(r: &mut dyn Read, cap: usize) -> Result<Contract, Error> {
	Contract::load(std::io::BufReader::with_capacity(cap, r))
}

pub fn from_slice(b: &[u8]) -> Result<Contract, serde_json::Error> {
	serde_json::from_slice(b)
}

pub fn save(c: &Contract, w: &mut dyn Write) -> Result<(), serde_json::Error> {
	serde_json::to_writer(w, c)
}

pub fn save_pretty(c: &Contract, w: &mut dyn Write) -> Result<(), serde_json::Error> {
	serde_json::to_writer_pretty(w, c)
}

pub fn save_vec(c: &Contract) -> Result<Vec<u8>, serde_json::Error> {
	serde_json::to_vec(c)
}

pub fn filter_json(f: &ethabi::TopicFilter) -> Result<String, serde_json::Error> {
	serde_json::to_string(f)
}

pub fn tokenize(kind: &ethabi::ParamType, text: &str, lenient: bool) -> Result<ethabi::Token, Error> {
	use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
	if lenient {
		LenientTokenizer::tokenize(kind, text)
	} else {
		StrictTokenizer::tokenize(kind, text)
	}
}
