//! Deterministic thread scheduler. Simulated threads are real threads of which exactly one runs at
//! a time; control changes hands at compiler-inserted edges, at allocations, at futex waits and at
//! yields inside the code under test, as the choice tape decides.
use crate::ctx::Ctx;
use crate::edge::COUNTDOWN;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering::*};
use std::sync::{Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
	Ready,
	Waiting(usize),
	Stalled,
	Done,
}

struct Inner {
	st: Vec<St>,
	turn: usize,
	mean: u64,
	stall_left: u32,
	stall_after: u64,
	switches: u64,
	preempts: u64,
	waits: u64,
	stalls: u64,
	/// Set when a live thread had to wait although only stalled threads remained.
	blocked_by_stalled: bool,
	order: u64,
	idle_rounds: u32,
	late: u64,
	charge: Option<u64>,
	began: u64,
}

static ACTIVE: AtomicBool = AtomicBool::new(false);
static INNER: Mutex<Option<Inner>> = Mutex::new(None);
static CV: [Condvar; 16] = [const { Condvar::new() }; 16];
static CTX: AtomicPtr<Ctx> = AtomicPtr::new(std::ptr::null_mut());
/// The schedule must fit on the tape: after this many preemptions the threads take turns instead,
/// `LATE_SLICE` steps at a time.
const MAX_PREEMPTS: u64 = 12_000;
const LATE_SLICE: i64 = 20_000;
/// Turns taken so without any thread finishing before the stalled ones are let on.
const LATE_TURNS: u64 = 2_000;
const MAIN: usize = usize::MAX;

thread_local! {
	static ME: Cell<usize> = const { Cell::new(MAIN) };
}

pub fn active() -> bool {
	ACTIVE.load(Relaxed) && ME.with(|m| m.get()) != MAIN
}

pub struct Cfg {
	/// Mean number of steps between preemptions.
	pub mean: u64,
	/// How many threads may be stalled for good, and after how many preemptions at the earliest.
	pub stalls: u32,
	pub stall_after: u64,
}

#[derive(Debug, Default, Clone)]
pub struct Report {
	pub switches: u64,
	pub preempts: u64,
	pub waits: u64,
	pub stalls: u64,
	pub blocked_by_stalled: bool,
	/// Steps taken, a yield counting for a turn, until stalled callers were let on because nobody finished.
	pub charge: Option<u64>,
	/// Hash of the interleaving: the sequence of (thread, steps run).
	pub order: u64,
}

fn ctx<'a>() -> &'a mut Ctx {
	unsafe { &mut *CTX.load(Relaxed) }
}

fn rearm(inner: &Inner) {
	if inner.preempts > MAX_PREEMPTS {
		COUNTDOWN.store(LATE_SLICE, Relaxed);
		return;
	}
	// geometric-ish: mostly short slices, sometimes long ones
	let t = &mut ctx().tape;
	let m = inner.mean.max(1);
	let n = match t.weighted(&[2, 5, 2, 1]) {
		0 => m * 64,
		1 => t.range(1, m),
		2 => t.range(1, 4),
		_ => t.range(m, m * 8),
	};
	COUNTDOWN.store(n as i64, Relaxed);
}

fn choose(inner: &mut Inner) -> Option<usize> {
	let mut ready = [0usize; 16];
	let mut n = 0;
	for (i, s) in inner.st.iter().enumerate() {
		if *s == St::Ready {
			ready[n] = i;
			n += 1;
		}
	}
	if n == 0 {
		return None;
	}
	let k = if n == 1 { 0 } else { ctx().tape.below(n as u64) as usize };
	Some(ready[k])
}

fn hand_over(mut g: std::sync::MutexGuard<'_, Option<Inner>>, me: usize, to: usize) {
	{
		let inner = g.as_mut().unwrap();
		inner.turn = to;
		inner.switches += 1;
		inner.order = crate::tape::mix(inner.order ^ ((to as u64) << 32) ^ crate::edge::steps());
		rearm(inner);
	}
	if to == me {
		return;
	}
	CV[to].notify_one();
	if me != MAIN {
		while g.as_ref().unwrap().turn != me {
			g = CV[me].wait(g).unwrap();
		}
	}
}

/// A scheduling point of the running thread.
pub fn preempt() {
	if !active() {
		COUNTDOWN.store(i64::MAX, Relaxed);
		return;
	}
	crate::rt(|| {
		let me = ME.with(|m| m.get());
		let mut g = INNER.lock().unwrap();
		let inner = g.as_mut().unwrap();
		inner.preempts += 1;
		inner.idle_rounds = 0;
		if inner.stall_left > 0 && inner.preempts >= inner.stall_after && inner.preempts <= MAX_PREEMPTS {
			let live = inner.st.iter().filter(|s| matches!(s, St::Ready | St::Waiting(_))).count();
			if live >= 2 && ctx().tape.chance(1, 4) {
				inner.stall_left -= 1;
				inner.stalls += 1;
				inner.st[me] = St::Stalled;
				let at = inner.preempts;
				ctx().evn("stall", me as u64, at);
			}
		}
		let next = if inner.preempts > MAX_PREEMPTS { take_turns(inner, me) } else { choose(inner) };
		match next {
			Some(to) => hand_over(g, me, to),
			None => resolve(g, me),
		}
	});
}

/// The next ready thread after `me`. If no caller finishes for long, the stalled ones are let on:
/// either someone spins waiting for one of them, or the calls are that long. The caller of
/// `run_threads` can tell by what the calls take on their own.
fn take_turns(inner: &mut Inner, me: usize) -> Option<usize> {
	inner.late += 1;
	if inner.late > LATE_TURNS && inner.st.contains(&St::Stalled) {
		inner.charge = Some(crate::edge::steps() - inner.began + inner.late * LATE_SLICE as u64);
		release_stalled(inner);
	}
	let n = inner.st.len();
	(1..=n).map(|i| (me.wrapping_add(i)) % n).find(|i| inner.st[*i] == St::Ready)
}

/// Nobody is ready: everyone left is waiting, stalled or done.
fn resolve(mut g: std::sync::MutexGuard<'_, Option<Inner>>, me: usize) {
	let inner = g.as_mut().unwrap();
	let waiting = inner.st.iter().any(|s| matches!(s, St::Waiting(_)));
	let stalled = inner.st.iter().any(|s| *s == St::Stalled);
	if waiting {
		if inner.idle_rounds < 3 {
			// spurious wake-ups first: a waiter must re-check its condition anyway
			inner.idle_rounds += 1;
			for s in inner.st.iter_mut() {
				if let St::Waiting(_) = s {
					*s = St::Ready;
				}
			}
		} else if stalled {
			inner.blocked_by_stalled = true;
			release_stalled(inner);
		} else {
			crate::alloc::die(crate::alloc::EXIT_DEADLOCK);
		}
	} else if stalled {
		release_stalled(inner);
	}
	match choose(inner) {
		Some(to) => hand_over(g, me, to),
		None => {
			inner.turn = MAIN;
			CV[15].notify_one();
		}
	}
}

fn release_stalled(inner: &mut Inner) {
	inner.stall_left = 0;
	inner.idle_rounds = 0;
	for s in inner.st.iter_mut() {
		if *s == St::Stalled {
			*s = St::Ready;
		}
	}
}

pub(crate) fn futex_wait(addr: usize, expected: u32) {
	let cur = unsafe { (*(addr as *const std::sync::atomic::AtomicU32)).load(SeqCst) };
	if cur != expected {
		return;
	}
	crate::rt(|| {
		let me = ME.with(|m| m.get());
		let mut g = INNER.lock().unwrap();
		let inner = g.as_mut().unwrap();
		inner.waits += 1;
		inner.st[me] = St::Waiting(addr);
		match choose(inner) {
			Some(to) => hand_over(g, me, to),
			None => resolve(g, me),
		}
	})
}

pub(crate) fn futex_wake(addr: usize, n: usize) -> usize {
	crate::rt(|| {
		let mut g = INNER.lock().unwrap();
		let inner = g.as_mut().unwrap();
		let mut k = 0;
		for s in inner.st.iter_mut() {
			if *s == St::Waiting(addr) && k < n {
				*s = St::Ready;
				k += 1;
			}
		}
		k
	})
}

fn finish(me: usize) {
	crate::rt(|| {
		COUNTDOWN.store(i64::MAX, Relaxed);
		let mut g = INNER.lock().unwrap();
		let inner = g.as_mut().unwrap();
		inner.st[me] = St::Done;
		inner.late = 0;
		ME.with(|m| m.set(MAIN));
		match choose(inner) {
			Some(to) => hand_over(g, MAIN, to),
			None => {
				if inner.st.iter().all(|s| *s == St::Done) {
					inner.turn = MAIN;
					CV[15].notify_one();
				} else {
					resolve(g, MAIN)
				}
			}
		}
	})
}

/// Runs the given bodies as simulated threads to completion. At most 15.
pub fn run_threads<T: Send>(ctx: &mut Ctx, cfg: Cfg, bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> (Vec<T>, Report) {
	let n = bodies.len();
	assert!(n >= 1 && n <= 15);
	CTX.store(ctx, SeqCst);
	*INNER.lock().unwrap() = Some(Inner {
		st: vec![St::Ready; n],
		turn: MAIN - 1,
		mean: cfg.mean,
		stall_left: cfg.stalls,
		stall_after: cfg.stall_after,
		switches: 0,
		preempts: 0,
		waits: 0,
		stalls: 0,
		blocked_by_stalled: false,
		order: 0,
		idle_rounds: 0,
		late: 0,
		charge: None,
		began: crate::edge::steps(),
	});
	let out = std::thread::scope(|s| {
		let hs: Vec<_> = bodies
			.into_iter()
			.enumerate()
			.map(|(i, b)| {
				std::thread::Builder::new()
					.stack_size(4 << 20)
					.spawn_scoped(s, move || {
						ME.with(|m| m.set(i));
						{
							let mut g = INNER.lock().unwrap();
							while g.as_ref().unwrap().turn != i {
								g = CV[i].wait(g).unwrap();
							}
						}
						let r = b();
						finish(i);
						r
					})
					.expect("spawn")
			})
			.collect();
		ACTIVE.store(true, SeqCst);
		crate::rt(|| {
			let mut g = INNER.lock().unwrap();
			let first = choose(g.as_mut().unwrap()).unwrap();
			hand_over(g, MAIN, first);
			let mut g = INNER.lock().unwrap();
			while g.as_ref().unwrap().turn != MAIN {
				g = CV[15].wait(g).unwrap();
			}
		});
		ACTIVE.store(false, SeqCst);
		COUNTDOWN.store(i64::MAX, Relaxed);
		hs.into_iter().map(|h| h.join().unwrap_or_else(|_| std::process::exit(70))).collect::<Vec<_>>()
	});
	let inner = INNER.lock().unwrap().take().unwrap();
	(
		out,
		Report {
			switches: inner.switches,
			preempts: inner.preempts,
			waits: inner.waits,
			stalls: inner.stalls,
			blocked_by_stalled: inner.blocked_by_stalled,
			charge: inner.charge,
			order: inner.order,
		},
	)
}
