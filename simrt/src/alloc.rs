//! The allocator seam: accounts for what the code under test allocates, offers a scheduling point
//! at each allocation, and ends the process when a budget is exceeded (exit status 86), which the
//! supervisor reports as a violation of the run in flight.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct SimAlloc;

pub const EXIT_MEMORY: i32 = 86;
pub const EXIT_STEPS: i32 = 87;
pub const EXIT_DEADLOCK: i32 = 88;

#[derive(Clone, Copy, Default)]
pub struct Acct {
	pub on: bool,
	pub cur: i64,
	pub peak: i64,
	pub total: u64,
	pub count: u64,
	pub largest: u64,
	pub budget: i64,
}

thread_local! {
	static ACCT: Cell<Acct> = const { Cell::new(Acct { on: false, cur: 0, peak: 0, total: 0, count: 0, largest: 0, budget: i64::MAX }) };
}

#[inline]
fn note(size: usize, back: usize) {
	if !crate::in_lib() {
		return;
	}
	ACCT.with(|a| {
		let mut x = a.get();
		if x.on {
			x.cur += size as i64 - back as i64;
			x.total = x.total.saturating_add(size as u64);
			x.count += 1;
			if x.cur > x.peak {
				x.peak = x.cur;
			}
			if size as u64 > x.largest {
				x.largest = size as u64;
			}
			a.set(x);
			if x.cur > x.budget || size as i64 > x.budget {
				die(EXIT_MEMORY);
			}
		}
	});
	crate::edge::tick_alloc();
}

pub fn die(code: i32) -> ! {
	unsafe { libc::_exit(code) }
}

unsafe impl GlobalAlloc for SimAlloc {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		note(l.size(), 0);
		System.alloc(l)
	}
	unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
		note(l.size(), 0);
		System.alloc_zeroed(l)
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		ACCT.with(|a| {
			let mut x = a.get();
			if x.on && crate::in_lib() {
				x.cur -= l.size() as i64;
				a.set(x);
			}
		});
		System.dealloc(p, l)
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		note(n, l.size());
		System.realloc(p, l, n)
	}
}

/// Accounts for allocations by the code under test inside `f`. Exceeding `budget` bytes ends the process.
pub fn measured<T>(budget: i64, f: impl FnOnce() -> T) -> (T, Acct) {
	ACCT.with(|a| a.set(Acct { on: true, budget, ..Acct::default() }));
	let r = f();
	let acct = ACCT.with(|a| a.replace(Acct { budget: i64::MAX, ..Acct::default() }));
	(r, acct)
}
