//! The discrete-event kernel: simulated time, a link that misbehaves, partitions.
use simrt::tape::mix;
use simrt::{ev, Ctx};
use std::collections::BTreeMap;

/// How badly the link behaves in this run, in 1/16ths; drawn per run.
#[derive(Clone, Debug)]
pub struct Weather {
	pub drop: u64,
	pub dup: u64,
	pub slow: u64,
	pub damage: u64,
	pub crash: u64,
	/// Until this time faults occur; afterwards the link is good.
	pub until: u64,
	pub partition: Option<(u64, u64)>,
}

impl Weather {
	pub fn draw(c: &mut Ctx) -> Weather {
		let t = &mut c.tape;
		let mut rate = |w: &[u64]| [0u64, 1, 4, 8][t.weighted(w)];
		let drop = rate(&[3, 3, 3, 1]);
		let dup = rate(&[3, 3, 3, 1]);
		let slow = rate(&[2, 2, 4, 2]);
		let damage = rate(&[1, 2, 4, 3]);
		let crash = rate(&[3, 3, 2, 0]);
		let until = 1_000 * t.range(20, 400);
		let partition = if t.chance(1, 3) {
			let a = t.below(until);
			Some((a, a + 1_000 * t.range(1, 100)))
		} else {
			None
		};
		Weather { drop, dup, slow, damage, crash, until, partition }
	}
	pub fn roll(&self, c: &mut Ctx, now: u64, rate: u64) -> bool {
		now < self.until && rate > 0 && c.tape.chance(rate, 16)
	}
}

pub struct Kernel<E> {
	q: BTreeMap<(u64, u64), E>,
	seq: u64,
	pub now: u64,
	pub order: u64,
	pub handled: u64,
}

impl<E> Kernel<E> {
	pub fn new() -> Kernel<E> {
		Kernel { q: BTreeMap::new(), seq: 0, now: 0, order: 0, handled: 0 }
	}
	pub fn at(&mut self, delay: u64, e: E) {
		self.seq += 1;
		self.q.insert((self.now + delay, self.seq), e);
	}
	pub fn next(&mut self) -> Option<E> {
		let k = *self.q.keys().next()?;
		let e = self.q.remove(&k)?;
		self.now = k.0;
		self.handled += 1;
		self.order = mix(self.order ^ k.1);
		Some(e)
	}
	/// Puts a message on the link: lost, duplicated, delayed.
	pub fn send(&mut self, c: &mut Ctx, w: &Weather, what: &'static str, e: E)
	where
		E: Clone,
	{
		let cut = matches!(w.partition, Some((a, b)) if self.now >= a && self.now < b);
		if cut {
			c.fault("partitioned");
			ev!(c, "t={} {} lost in the partition", self.now, what);
			return;
		}
		if w.roll(c, self.now, w.drop) {
			c.fault("message_lost");
			ev!(c, "t={} {} lost", self.now, what);
			return;
		}
		let copies = if w.roll(c, self.now, w.dup) {
			c.fault("message_duplicated");
			2 + c.tape.below(2)
		} else {
			1
		};
		for _ in 0..copies {
			let mut d = 50 + c.tape.below(200);
			if w.roll(c, self.now, w.slow) {
				c.fault("message_delayed");
				d += 100 * c.tape.range(1, 300);
			}
			self.at(d, e.clone());
		}
	}
}
