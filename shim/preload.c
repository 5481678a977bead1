/* Operating-system layer for a child process, decided by the simulator. Preloaded into the real
 * executable (or compiler) under test; a shared page carries the plan in and the counters out.
 * With no plan page it does nothing. Only the watched file (by name), standard output, standard
 * error, the allocator and the hash-seed source are touched. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define NREADS 48
#define NWRITES 32
#define NOPENS 6

struct page {
	uint64_t magic;
	uint64_t hash_seed;
	int64_t n_opens, opens[NOPENS];          /* errno per open of the watched file */
	int64_t n_reads, reads[NREADS];          /* per read: <0 errno, >0 cap */
	int64_t read_cap;                        /* cap once the list is used up, 0 none */
	int64_t read_fail_at, read_fail_errno;   /* position from which reads fail, -1 none */
	int64_t n_writes, writes[NWRITES];       /* per write to stdout: <0 errno, >0 cap */
	int64_t write_cap;
	int64_t write_fail_at, write_fail_errno; /* after so many bytes writes fail for good, -1 none */
	int64_t stderr_errno;                    /* writes to stderr fail for good, 0 none */
	int64_t alloc_fail_at, alloc_fail_n;     /* the nth allocation fails, and n-1 after it; 0 none */
	int64_t alloc_min;                       /* only allocations of at least so many bytes count */
	char watch[64];                          /* suffix of the watched file's name */
	/* out */
	int64_t c_open, c_open_err, c_read, c_read_short, c_read_eintr, c_read_err;
	int64_t c_write, c_write_short, c_write_eintr, c_write_err, c_stderr_err, c_alloc, c_alloc_fail, c_random;
};

static struct page *P;
static int wfd[8], nwfd;
static int64_t wpos[8];
static int64_t i_open, i_read, i_write, written;
static int live;

static long ret(long r) {
	if (r < 0 && r > -4096) {
		errno = (int)-r;
		return -1;
	}
	return r;
}

static long sys3(long n, long a, long b, long c) {
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
	return r;
}

static long sys4(long n, long a, long b, long c, long d) {
	long r;
	register long r10 __asm__("r10") = d;
	__asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10) : "rcx", "r11", "memory");
	return r;
}

static void setup(void) __attribute__((constructor));
static void setup(void) {
	const char *e = getenv("ETHSIM_PLAN_FD");
	if (!e) return;
	int fd = atoi(e);
	void *p = mmap(NULL, sizeof(struct page), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	if (p == MAP_FAILED) return;
	P = p;
	if (P->magic != 0x6574687369) { P = NULL; return; }
	live = 1;
}

static int watched(const char *path) {
	if (!P || !P->watch[0] || !path) return 0;
	size_t n = strlen(path), m = strnlen(P->watch, sizeof P->watch);
	return n >= m && memcmp(path + n - m, P->watch, m) == 0;
}

static int do_open(int dir, const char *path, int flags, int mode) {
	int w = watched(path);
	if (w) {
		P->c_open++;
		if (i_open < P->n_opens) {
			int64_t e = P->opens[i_open++];
			if (e) {
				if (e != EINTR) P->c_open_err++;
				errno = (int)e;
				return -1;
			}
		}
	}
	int fd = (int)ret(sys4(SYS_openat, dir, (long)path, flags, mode));
	if (w && fd >= 0 && nwfd < 8) {
		wfd[nwfd] = fd;
		wpos[nwfd++] = 0;
	}
	return fd;
}

#define MODE(flags) \
	int mode = 0; \
	if ((flags) & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }

int open(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return do_open(AT_FDCWD, path, flags, mode); }
int openat(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }
int openat64(int dir, const char *path, int flags, ...) { MODE(flags) return do_open(dir, path, flags, mode); }

static int find(int fd) {
	for (int i = 0; i < nwfd; i++)
		if (wfd[i] == fd) return i;
	return -1;
}

int close(int fd) {
	int k = find(fd);
	if (k >= 0) {
		wfd[k] = wfd[nwfd - 1];
		wpos[k] = wpos[nwfd - 1];
		nwfd--;
	}
	return (int)ret(sys3(SYS_close, fd, 0, 0));
}

/* How many of `len` bytes a read at `pos` may return; <0 is an errno. */
static int64_t plan_read(int64_t pos, size_t len) {
	int64_t want = (int64_t)len;
	P->c_read++;
	if (i_read < P->n_reads) {
		int64_t v = P->reads[i_read++];
		if (v < 0) {
			if (v == -EINTR) P->c_read_eintr++;
			else P->c_read_err++;
			return v;
		}
		if (v > 0 && v < want) { want = v; P->c_read_short++; }
	} else if (P->read_cap > 0 && P->read_cap < want) {
		want = P->read_cap;
		P->c_read_short++;
	}
	if (P->read_fail_at >= 0) {
		if (pos >= P->read_fail_at) {
			P->c_read_err++;
			return -P->read_fail_errno;
		}
		if (want > P->read_fail_at - pos) want = P->read_fail_at - pos;
	}
	return want;
}

ssize_t read(int fd, void *buf, size_t len) {
	int k = P ? find(fd) : -1;
	if (k < 0) return ret(sys3(SYS_read, fd, (long)buf, (long)len));
	if (len == 0) return 0;
	int64_t w = plan_read(wpos[k], len);
	if (w < 0) { errno = (int)-w; return -1; }
	ssize_t r = ret(sys3(SYS_read, fd, (long)buf, w));
	if (r > 0) wpos[k] += r;
	return r;
}

ssize_t pread64(int fd, void *buf, size_t len, off_t off) {
	int k = P ? find(fd) : -1;
	if (k < 0 || len == 0) return ret(sys4(SYS_pread64, fd, (long)buf, (long)len, off));
	int64_t w = plan_read(off, len);
	if (w < 0) { errno = (int)-w; return -1; }
	return ret(sys4(SYS_pread64, fd, (long)buf, w, off));
}
ssize_t pread(int fd, void *buf, size_t len, off_t off) { return pread64(fd, buf, len, off); }

ssize_t readv(int fd, const struct iovec *v, int n) {
	int k = P ? find(fd) : -1;
	if (k < 0) return ret(sys3(SYS_readv, fd, (long)v, n));
	for (int i = 0; i < n; i++)
		if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
	return 0;
}

static int64_t plan_write(size_t len) {
	int64_t want = (int64_t)len;
	P->c_write++;
	if (i_write < P->n_writes) {
		int64_t v = P->writes[i_write++];
		if (v < 0) {
			if (v == -EINTR) P->c_write_eintr++;
			else P->c_write_err++;
			return v;
		}
		if (v > 0 && v < want) { want = v; P->c_write_short++; }
	} else if (P->write_cap > 0 && P->write_cap < want) {
		want = P->write_cap;
		P->c_write_short++;
	}
	if (P->write_fail_at >= 0) {
		if (written >= P->write_fail_at) {
			P->c_write_err++;
			return P->write_fail_errno ? -P->write_fail_errno : 0;
		}
		if (want > P->write_fail_at - written) { want = P->write_fail_at - written; P->c_write_short++; }
	}
	return want;
}

ssize_t write(int fd, const void *buf, size_t len) {
	if (P && fd == 1 && len > 0) {
		int64_t w = plan_write(len);
		if (w < 0) { errno = (int)-w; return -1; }
		if (w == 0) return 0;
		ssize_t r = ret(sys3(SYS_write, fd, (long)buf, w));
		if (r > 0) written += r;
		return r;
	}
	if (P && fd == 2 && P->stderr_errno) {
		P->c_stderr_err++;
		errno = (int)P->stderr_errno;
		return -1;
	}
	return ret(sys3(SYS_write, fd, (long)buf, (long)len));
}

ssize_t writev(int fd, const struct iovec *v, int n) {
	if (P && (fd == 1 || (fd == 2 && P->stderr_errno))) {
		for (int i = 0; i < n; i++)
			if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
		return 0;
	}
	return ret(sys3(SYS_writev, fd, (long)v, n));
}

ssize_t getrandom(void *buf, size_t len, unsigned int flags) {
	if (!P) return ret(sys3(SYS_getrandom, (long)buf, (long)len, flags));
	P->c_random++;
	uint64_t x = P->hash_seed * 0x9e3779b97f4a7c15ull + 0x1234567;
	unsigned char *b = buf;
	for (size_t i = 0; i < len; i++) {
		x ^= x << 13; x ^= x >> 7; x ^= x << 17;
		b[i] = (unsigned char)(x >> 24);
	}
	return (ssize_t)len;
}

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);

static int refuse(size_t n) {
	if (!live) return 0;
	if ((int64_t)n < P->alloc_min) return 0;
	int64_t k = ++P->c_alloc;
	if (P->alloc_fail_at > 0 && k >= P->alloc_fail_at && k < P->alloc_fail_at + P->alloc_fail_n) {
		P->c_alloc_fail++;
		errno = ENOMEM;
		return 1;
	}
	return 0;
}

void *malloc(size_t n) { return refuse(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse(a * b) ? NULL : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse(n) ? NULL : __libc_realloc(p, n); }
