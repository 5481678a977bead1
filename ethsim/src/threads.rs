//! C05: threads sharing one contract.
use crate::load::{clip, draw_doc, ev_doc, load_in};
use crate::ops::{self, Call, Got, Want};
use crate::wire::Res;
use simcore::doc::*;
use simcore::stream::*;
use simrt::ctx::violation;
use simrt::sched::{run_threads, Cfg};
use simrt::{ev, Ctx};

pub fn c05(c: &mut Ctx) -> Res {
	let (m, text) = draw_doc(c);
	ev!(c, "document {} entries {} bytes", m.entries.len(), text.len());
	ev_doc(c, &text);
	let k = match load_in(c, text.as_bytes(), &ReadPlan::whole(), "").0 {
		Ok(Ok(x)) => x,
		Ok(Err(e)) => return violation("refused", format!("valid document refused: {} on {}", e, clip(&text))),
		Err(p) => return violation("panic", format!("loading panicked: {}", p)),
	};
	if let Err(e) = compare(&k, &m) {
		return violation("wrong-contract", format!("{} on {}", e, clip(&text)));
	}
	ops::past(c, &m, &text, &k, |_| true)?;
	let n = 2 + c.tape.weighted(&[4, 3, 2, 1]);
	let mut plans: Vec<Vec<(Call, Want)>> = vec![];
	let mut pool: Vec<(Call, Want)> = vec![];
	for _ in 0..n {
		let mut v: Vec<(Call, Want)> = vec![];
		for _ in 0..1 + c.tape.weighted(&[3, 3, 2, 1, 1]) {
			// the same call in several threads, or a call of its own
			let op = if !pool.is_empty() && c.tape.chance(1, 4) { c.tape.pick(&pool).clone() } else { ops::draw(c, &m, &text) };
			pool.push(op.clone());
			v.push(op);
		}
		plans.push(v);
	}
	for (i, v) in plans.iter().enumerate() {
		ev!(c, "thread {}: {}", i, v.iter().map(|x| x.0.name()).collect::<Vec<_>>().join(", "));
	}
	let cfg = Cfg {
		mean: [20u64, 3, 100, 600][c.tape.weighted(&[4, 3, 3, 2])],
		stalls: c.tape.weighted(&[3, 3, 1]) as u32,
		stall_after: c.tape.below(40),
	};
	let kr = &k;
	let bodies: Vec<Box<dyn FnOnce() -> Vec<Got> + Send + '_>> = plans
		.iter()
		.map(|v| {
			let b: Box<dyn FnOnce() -> Vec<Got> + Send + '_> = Box::new(move || v.iter().map(|(call, _)| call.run(kr)).collect());
			b
		})
		.collect();
	let (got, rep) = run_threads(c, cfg, bodies);
	ev!(c, "{} switches, {} preemptions, {} waits, {} stalls", rep.switches, rep.preempts, rep.waits, rep.stalls);
	c.inter.push(rep.order);
	*c.faults.entry("preemption").or_insert(0) += rep.preempts;
	if rep.stalls > 0 {
		*c.faults.entry("stalled_caller").or_insert(0) += rep.stalls;
	}
	if rep.waits > 0 {
		c.probe("lock_waits");
	}
	if rep.blocked_by_stalled {
		return violation("blocked", "a caller could not finish while another was stalled in the middle of its call");
	}
	if let Some(charge) = rep.charge {
		// nobody finished for long while a caller was stalled: are the calls that long on their own?
		let from = simrt::edge::steps();
		std::thread::scope(|s| {
			let _ = s.spawn(|| {
				if let Ok(Ok(fresh)) = simrt::lib(|| ethabi::Contract::load(text.as_bytes())) {
					for (call, _) in plans.iter().flatten() {
						let _ = call.run(&fresh);
					}
				}
			}).join();
		});
		let alone = simrt::edge::steps() - from;
		c.probe("long_calls");
		if charge > 20_000_000 + 10 * alone {
			return violation(
				"blocked",
				format!("no caller finished in {} steps while another was stalled in the middle of its call; alone, all the calls take {} steps", charge, alone),
			);
		}
	}
	for (i, (v, g)) in plans.iter().zip(got).enumerate() {
		for (j, ((call, want), got)) in v.iter().zip(g).enumerate() {
			if let Err(mut e) = call.check(&k, &m, want, got) {
				e.detail = format!("thread {} call {}: {}", i, j, e.detail);
				return Err(e);
			}
		}
	}
	// and once more one after another: nothing that ran before has left a trace
	for (call, want) in plans.iter().flatten() {
		let got = call.run(&k);
		if let Err(mut e) = call.check(&k, &m, want, got) {
			e.detail = format!("repeated alone afterwards: {}", e.detail);
			return Err(e);
		}
	}
	c.trivial = rep.preempts == 0;
	if c.want_sample {
		c.sample = Some(format!("{} threads, {} calls, {} switches, {} stalls", n, pool.len(), rep.switches, rep.stalls));
	}
	Ok(())
}
