//! Simulator runtime: the seams. Everything nondeterministic that code under test can reach is
//! decided here, from one choice tape per run.
//!
//! This crate is never instrumented; the library under test is compiled with edge callbacks
//! (see /verif/rustc-wrap.sh) that land in `edge`.
#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, unknown_lints)]
pub mod alloc;
pub mod ctx;
pub mod edge;
pub mod os;
pub mod sched;
pub mod tape;

pub use ctx::{Ctx, Violation};
pub use tape::Tape;

use std::cell::{Cell, RefCell};

thread_local! {
	pub(crate) static IN_LIB: Cell<u32> = const { Cell::new(0) };
	/// Set while the runtime itself works on behalf of a simulated thread: no yields, no accounting.
	pub(crate) static IN_RT: Cell<u32> = const { Cell::new(0) };
	static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Runs `f` with the runtime marked busy, so nothing `f` does counts as the code under test.
pub fn rt<T>(f: impl FnOnce() -> T) -> T {
	IN_RT.with(|c| c.set(c.get() + 1));
	let r = f();
	IN_RT.with(|c| c.set(c.get() - 1));
	r
}

#[inline]
pub fn in_lib() -> bool {
	IN_LIB.with(|c| c.get()) > 0 && IN_RT.with(|c| c.get()) == 0
}

/// Calls into the code under test. A panic inside becomes `Err(message)`.
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
	let depth = IN_LIB.with(|c| {
		let d = c.get();
		c.set(d + 1);
		d
	});
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
	IN_LIB.with(|c| c.set(depth));
	match r {
		Ok(v) => Ok(v),
		Err(_) => Err(rt(|| PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_else(|| "panic".into()))),
	}
}

/// Leaves the code under test for the duration of `f` (used by simulated readers and writers).
pub fn leave_lib<T>(f: impl FnOnce() -> T) -> T {
	let depth = IN_LIB.with(|c| c.replace(0));
	let r = f();
	IN_LIB.with(|c| c.set(depth));
	r
}

/// Panics in the code under test are data; panics in the harness are harness errors.
pub fn install_panic_hook() {
	std::panic::set_hook(Box::new(|info| {
		if IN_LIB.with(|c| c.get()) > 0 {
			rt(|| {
				let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
					(*s).to_string()
				} else if let Some(s) = info.payload().downcast_ref::<String>() {
					s.clone()
				} else {
					"panic".to_string()
				};
				let loc = info
					.location()
					.map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
					.unwrap_or_default();
				PANIC_MSG.with(|m| *m.borrow_mut() = Some(format!("{} at {}", msg, loc)));
			});
		} else {
			eprintln!("HARNESS PANIC: {}", info);
			if std::env::var_os("ETHSIM_BACKTRACE").is_some() {
				eprintln!("{}", std::backtrace::Backtrace::force_capture());
			}
			std::process::exit(70);
		}
	}));
}

/// One simulated process: a fresh thread whose first hash map draws its keys from `hash_seed`.
pub fn process<T: Send>(hash_seed: u64, f: impl FnOnce() -> T + Send) -> T {
	os::set_hash_seed(hash_seed);
	std::thread::scope(|s| {
		std::thread::Builder::new()
			.stack_size(8 << 20)
			.spawn_scoped(s, f)
			.expect("spawn")
			.join()
			.unwrap_or_else(|_| std::process::exit(70))
	})
}
