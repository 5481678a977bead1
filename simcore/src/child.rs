//! Real child processes under the interposed operating-system layer of shim/preload.c.
use std::ffi::CString;
use std::os::fd::{AsRawFd, FromRawFd, OwnedFd};

pub const NREADS: usize = 48;
pub const NWRITES: usize = 32;
pub const NOPENS: usize = 6;

/// Mirrors `struct page` of shim/preload.c.
#[repr(C)]
#[derive(Clone)]
pub struct Page {
	magic: u64,
	pub hash_seed: u64,
	pub n_opens: i64,
	pub opens: [i64; NOPENS],
	pub n_reads: i64,
	pub reads: [i64; NREADS],
	pub read_cap: i64,
	pub read_fail_at: i64,
	pub read_fail_errno: i64,
	pub n_writes: i64,
	pub writes: [i64; NWRITES],
	pub write_cap: i64,
	pub write_fail_at: i64,
	pub write_fail_errno: i64,
	pub stderr_errno: i64,
	pub alloc_fail_at: i64,
	pub alloc_fail_n: i64,
	pub alloc_min: i64,
	watch: [u8; 64],
	pub c: Counts,
}

#[repr(C)]
#[derive(Clone, Default, Debug)]
pub struct Counts {
	pub open: i64,
	pub open_err: i64,
	pub read: i64,
	pub read_short: i64,
	pub read_eintr: i64,
	pub read_err: i64,
	pub write: i64,
	pub write_short: i64,
	pub write_eintr: i64,
	pub write_err: i64,
	pub stderr_err: i64,
	pub alloc: i64,
	pub alloc_fail: i64,
	pub random: i64,
}

impl Page {
	pub fn calm(hash_seed: u64, file: &str) -> Page {
		let mut watch = [0u8; 64];
		watch[..file.len()].copy_from_slice(file.as_bytes());
		Page {
			magic: 0x6574687369,
			hash_seed,
			n_opens: 0,
			opens: [0; NOPENS],
			n_reads: 0,
			reads: [0; NREADS],
			read_cap: 0,
			read_fail_at: -1,
			read_fail_errno: 0,
			n_writes: 0,
			writes: [0; NWRITES],
			write_cap: 0,
			write_fail_at: -1,
			write_fail_errno: 0,
			stderr_errno: 0,
			alloc_fail_at: 0,
			alloc_fail_n: 0,
			alloc_min: 0,
			watch,
			c: Counts::default(),
		}
	}
}

pub struct Ended {
	pub status: i32,
	pub out: Vec<u8>,
	pub err: Vec<u8>,
	pub c: Counts,
}

impl Ended {
	pub fn ok(&self) -> bool {
		libc::WIFEXITED(self.status) && libc::WEXITSTATUS(self.status) == 0
	}
	pub fn show(&self) -> String {
		if libc::WIFEXITED(self.status) {
			format!("exit {}", libc::WEXITSTATUS(self.status))
		} else {
			format!("signal {}", libc::WTERMSIG(self.status))
		}
	}
}

fn memfd() -> OwnedFd {
	unsafe {
		let fd = libc::memfd_create(c"sim".as_ptr(), 0);
		assert!(fd >= 0, "memfd");
		// keep clear of the standard descriptors
		let hi = libc::fcntl(fd, libc::F_DUPFD, 100);
		assert!(hi >= 0, "dup");
		libc::close(fd);
		OwnedFd::from_raw_fd(hi)
	}
}

fn slurp(fd: &OwnedFd) -> Vec<u8> {
	let mut out = vec![];
	let mut buf = [0u8; 65536];
	loop {
		let n = unsafe { libc::pread(fd.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len(), out.len() as i64) };
		if n <= 0 {
			return out;
		}
		out.extend_from_slice(&buf[..n as usize]);
	}
}

pub fn scratch() -> String {
	std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH")
}

/// Runs `bin` with `args` in directory `dir` under the interposed layer.
pub fn exec(bin: &str, args: &[String], env: &[String], dir: &str, page: &Page, deadline_s: u32) -> Ended {
	let pl = memfd();
	let size = std::mem::size_of::<Page>();
	let (out, err) = (memfd(), memfd());
	let argv: Vec<CString> = std::iter::once(bin).chain(args.iter().map(|s| s.as_str())).map(|s| CString::new(s).unwrap()).collect();
	let mut ap: Vec<*const libc::c_char> = argv.iter().map(|c| c.as_ptr()).collect();
	ap.push(std::ptr::null());
	let shim = CString::new(format!("LD_PRELOAD={}/target/preload.so", crate::driver::verif_dir())).unwrap();
	let plan = CString::new(format!("ETHSIM_PLAN_FD={}", pl.as_raw_fd())).unwrap();
	let env: Vec<CString> = env.iter().map(|s| CString::new(s.as_str()).unwrap()).collect();
	let mut envp = vec![shim.as_ptr(), plan.as_ptr(), c"RUST_BACKTRACE=0".as_ptr()];
	envp.extend(env.iter().map(|e| e.as_ptr()));
	envp.push(std::ptr::null());
	let bin = CString::new(bin).unwrap();
	let dir = CString::new(dir).unwrap();
	unsafe {
		assert!(libc::ftruncate(pl.as_raw_fd(), size as i64) == 0);
		let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, pl.as_raw_fd(), 0) as *mut Page;
		assert!(p as *mut libc::c_void != libc::MAP_FAILED);
		std::ptr::write(p, page.clone());
		let pid = libc::fork();
		assert!(pid >= 0, "fork");
		if pid == 0 {
			libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
			libc::alarm(deadline_s);
			let lim = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
			libc::setrlimit(libc::RLIMIT_AS, &lim);
			let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR, 0);
			libc::dup2(null, 0);
			libc::dup2(out.as_raw_fd(), 1);
			libc::dup2(err.as_raw_fd(), 2);
			if libc::chdir(dir.as_ptr()) != 0 {
				libc::_exit(250);
			}
			libc::execve(bin.as_ptr(), ap.as_ptr(), envp.as_ptr());
			libc::_exit(251);
		}
		let mut st = 0;
		while libc::waitpid(pid, &mut st, 0) < 0 {}
		let c = (*p).c.clone();
		libc::munmap(p as *mut _, size);
		Ended { status: st, out: slurp(&out), err: slurp(&err), c }
	}
}
