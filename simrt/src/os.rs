//! Operating-system seams, interposed as symbols of the simulator's executable: the hash-seed
//! source, futex waits, thread yields, and file opens and reads of simulated files.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

static HASH_SEED: AtomicU64 = AtomicU64::new(1);

pub fn set_hash_seed(s: u64) {
	HASH_SEED.store(s, Relaxed);
}

unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
	let mut r: i64;
	core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
		in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
	r
}

unsafe fn ret(r: i64) -> i64 {
	if r < 0 && r > -4096 {
		*libc::__errno_location() = (-r) as i32;
		-1
	} else {
		r
	}
}

/// std's hash maps draw their keys here: a pure function of the simulated process's seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	let mut s = HASH_SEED.load(Relaxed);
	for i in 0..len {
		if i % 8 == 0 {
			s = crate::tape::mix(s);
		}
		*buf.add(i) = (s >> ((i % 8) * 8)) as u8;
	}
	len as isize
}

const FUTEX_WAIT: usize = 0;
const FUTEX_WAKE: usize = 1;
const FUTEX_WAIT_BITSET: usize = 9;
const FUTEX_WAKE_BITSET: usize = 10;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
	if n == libc::SYS_getrandom {
		return getrandom(a as *mut u8, b, c as u32) as i64;
	}
	if n == libc::SYS_futex && crate::in_lib() && crate::sched::active() {
		match b & 0x7f {
			FUTEX_WAIT | FUTEX_WAIT_BITSET => {
				crate::sched::futex_wait(a, c as u32);
				return 0;
			}
			FUTEX_WAKE | FUTEX_WAKE_BITSET => return crate::sched::futex_wake(a, c) as i64,
			_ => {}
		}
	}
	ret(raw(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
	if crate::in_lib() && crate::sched::active() {
		crate::sched::preempt();
		return 0;
	}
	ret(raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

/// What a simulated file does, decided before the run.
#[derive(Clone, Debug, Default)]
pub struct FilePlan {
	/// Suffix of the names of the files this is about.
	pub watch: String,
	/// errno for open, once per entry (EINTR entries are retried by the caller).
	pub open_errs: Vec<i32>,
	/// Per read call, in order: a negative number is an errno to return, a positive number caps the
	/// bytes returned. When exhausted, reads are unrestricted.
	pub reads: Vec<i64>,
	/// Absolute position at which reads fail with this errno.
	pub fail_at: Option<(usize, i32)>,
}

pub struct FileState {
	plan: FilePlan,
	open_i: usize,
	read_i: usize,
	fds: Vec<(i32, usize)>,
	pub opens: u64,
	pub fired: Vec<(&'static str, u64)>,
}

static FILE: Mutex<Option<FileState>> = Mutex::new(None);
pub fn set_file(plan: Option<FilePlan>) -> Option<FileState> {
	let new = plan.map(|plan| FileState { plan, open_i: 0, read_i: 0, fds: vec![], opens: 0, fired: vec![] });
	std::mem::replace(&mut *FILE.lock().unwrap(), new)
}

/// `Some` for a watched file: the descriptor, or a negative errno.
unsafe fn sim_open(path: *const libc::c_char, flags: i32, mode: u32) -> Option<i64> {
	crate::leave_lib(|| {
		let mut g = FILE.try_lock().ok()?;
		let st = g.as_mut()?;
		let p = std::ffi::CStr::from_ptr(path).to_bytes();
		if !p.ends_with(st.plan.watch.as_bytes()) {
			return None;
		}
		if st.open_i < st.plan.open_errs.len() {
			let e = st.plan.open_errs[st.open_i];
			st.open_i += 1;
			st.fired.push((if e == libc::EINTR { "open_interrupted" } else { "open_error" }, e as u64));
			return Some(-(e as i64));
		}
		let fd = real_open(path, flags, mode);
		if fd >= 0 {
			st.opens += 1;
			st.fds.push((fd as i32, 0));
		}
		Some(fd)
	})
}

unsafe fn real_open(path: *const libc::c_char, flags: i32, mode: u32) -> i64 {
	raw(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
	ret(match sim_open(path, flags, mode) {
		Some(r) => r,
		None => real_open(path, flags, mode),
	}) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
	open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
	let mut want = len;
	let mut sim = false;
	let res = crate::leave_lib(|| {
		let mut g = match FILE.try_lock() {
			Ok(g) => g,
			Err(_) => return 0,
		};
		if let Some(st) = g.as_mut() {
			if let Some(k) = st.fds.iter().position(|x| x.0 == fd) {
				sim = true;
				let pos = st.fds[k].1;
				if st.read_i < st.plan.reads.len() {
					let v = st.plan.reads[st.read_i];
					st.read_i += 1;
					if v < 0 {
						st.fired.push((if -v == libc::EINTR as i64 { "read_interrupted" } else { "read_error" }, pos as u64));
						return v;
					}
					if (v as usize) < want {
						want = (v as usize).max(1);
						st.fired.push(("short_read", pos as u64));
					}
				}
				if let Some((at, e)) = st.plan.fail_at {
					if pos >= at {
						st.fired.push(("read_error", pos as u64));
						return -(e as i64);
					}
					want = want.min(at - pos);
				}
			}
		}
		0
	});
	if res < 0 {
		return ret(res) as isize;
	}
	let r = ret(raw(libc::SYS_read, fd as usize, buf as usize, want, 0, 0, 0));
	if sim && r > 0 {
		crate::leave_lib(|| {
			if let Some(st) = FILE.lock().unwrap().as_mut() {
				if let Some(x) = st.fds.iter_mut().find(|x| x.0 == fd) {
					x.1 += r as usize;
				}
			}
		});
	}
	r as isize
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
	crate::leave_lib(|| {
		if let Ok(mut g) = FILE.try_lock() {
			if let Some(st) = g.as_mut() {
				st.fds.retain(|x| x.0 != fd);
			}
		}
	});
	ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32
}
