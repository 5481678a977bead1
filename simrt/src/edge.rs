//! Edge callbacks inserted by the compiler into the code under test: coverage, step counting, and
//! preemption points for the thread scheduler.
use std::sync::atomic::{AtomicI64, AtomicPtr, AtomicU32, AtomicU64, Ordering::Relaxed};

pub const MAX_EDGES: usize = 1 << 16;
/// One byte per edge, in memory shared by the supervisor and all forked runs.
static COVER: AtomicPtr<u8> = AtomicPtr::new(std::ptr::null_mut());
static EDGES: AtomicU32 = AtomicU32::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
static STEP_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
/// Steps until the next preemption; only meaningful while the scheduler is active.
pub(crate) static COUNTDOWN: AtomicI64 = AtomicI64::new(i64::MAX);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
	while start < stop {
		if *start == 0 {
			let n = EDGES.fetch_add(1, Relaxed) + 1;
			*start = if (n as usize) < MAX_EDGES { n } else { 0 };
		}
		start = start.add(1);
	}
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
	if !crate::in_lib() {
		return;
	}
	let c = COVER.load(Relaxed);
	if !c.is_null() {
		*c.add(*guard as usize) = 1;
	}
	tick();
}

#[inline]
fn tick() {
	// one thread runs at a time, so plain loads and stores will do
	let s = STEPS.load(Relaxed);
	STEPS.store(s + 1, Relaxed);
	if s >= STEP_LIMIT.load(Relaxed) {
		crate::alloc::die(crate::alloc::EXIT_STEPS);
	}
	let c = COUNTDOWN.load(Relaxed);
	COUNTDOWN.store(c - 1, Relaxed);
	if c <= 1 {
		crate::sched::preempt();
	}
}

pub(crate) fn tick_alloc() {
	tick();
}

pub fn steps() -> u64 {
	STEPS.load(Relaxed)
}

/// Ends the process (exit status 87) if the code under test takes more than `n` further steps.
pub fn limit_steps(n: u64) {
	STEP_LIMIT.store(if n == u64::MAX { u64::MAX } else { STEPS.load(Relaxed) + n }, Relaxed);
}

pub fn edges_total() -> u64 {
	EDGES.load(Relaxed) as u64
}

pub fn covered() -> u64 {
	let c = COVER.load(Relaxed);
	if c.is_null() {
		return 0;
	}
	(1..MAX_EDGES).filter(|i| unsafe { *c.add(*i) } != 0).count() as u64
}

/// Makes the coverage map shared with processes forked later.
pub fn init_shared() {
	unsafe {
		let p = libc::mmap(
			std::ptr::null_mut(),
			MAX_EDGES,
			libc::PROT_READ | libc::PROT_WRITE,
			libc::MAP_SHARED | libc::MAP_ANONYMOUS,
			-1,
			0,
		);
		if p != libc::MAP_FAILED {
			COVER.store(p as *mut u8, Relaxed);
		}
	}
}
