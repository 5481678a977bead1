//! Per-run context: the tape, the event log (hashed always, kept when tracing), fault and probe
//! counters, simulated time.
use crate::tape::Tape;
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub struct Violation {
	/// Coarse class: minimisation keeps it.
	pub class: String,
	pub detail: String,
}

pub fn violation<T>(class: &str, detail: impl Into<String>) -> Result<T, Violation> {
	Err(Violation { class: class.to_string(), detail: detail.into() })
}

pub struct Ctx {
	pub tape: Tape,
	pub trace: Option<Vec<String>>,
	pub hash: u64,
	pub events: u64,
	pub faults: BTreeMap<&'static str, u64>,
	pub probes: BTreeMap<&'static str, u64>,
	/// Simulated time covered, microseconds.
	pub now_us: u64,
	pub sample: Option<String>,
	pub want_sample: bool,
	/// Known findings met in this run.
	pub known: Vec<String>,
	/// Hashes of the interleavings (or delivery orders) this run executed.
	pub inter: Vec<u64>,
	/// Set by the scenario when nothing of interest happened.
	pub trivial: bool,
}

impl Ctx {
	pub fn new(tape: Tape, tracing: bool) -> Ctx {
		Ctx {
			tape,
			trace: if tracing { Some(vec![]) } else { None },
			hash: 0xcbf2_9ce4_8422_2325,
			events: 0,
			faults: BTreeMap::new(),
			probes: BTreeMap::new(),
			now_us: 0,
			sample: None,
			want_sample: false,
			known: vec![],
			inter: vec![],
			trivial: false,
		}
	}
	pub fn ev(&mut self, s: String) {
		for b in s.as_bytes() {
			self.hash = (self.hash ^ *b as u64).wrapping_mul(0x0000_0100_0000_01b3);
		}
		self.hash = (self.hash ^ 10).wrapping_mul(0x0000_0100_0000_01b3);
		self.events += 1;
		if let Some(t) = &mut self.trace {
			if t.len() < 4000 {
				t.push(s);
			}
		}
	}
	/// Cheap event: only numbers.
	pub fn evn(&mut self, kind: &'static str, a: u64, b: u64) {
		self.hash = (self.hash ^ crate::tape::mix(a ^ crate::tape::mix(b))).wrapping_mul(0x0000_0100_0000_01b3);
		for c in kind.as_bytes() {
			self.hash = (self.hash ^ *c as u64).wrapping_mul(0x0000_0100_0000_01b3);
		}
		self.events += 1;
		if let Some(t) = &mut self.trace {
			if t.len() < 4000 {
				t.push(format!("{} {} {}", kind, a, b));
			}
		}
	}
	pub fn fault(&mut self, kind: &'static str) {
		*self.faults.entry(kind).or_insert(0) += 1;
	}
	pub fn probe(&mut self, kind: &'static str) {
		*self.probes.entry(kind).or_insert(0) += 1;
	}
}

#[macro_export]
macro_rules! ev {
	($ctx:expr, $($a:tt)*) => { $ctx.ev(format!($($a)*)) };
}
