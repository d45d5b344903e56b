/* LD_PRELOADed into the compiler: every file operation it makes is numbered, and
 * the ones named in the control block fail in the way given there. Streams are
 * replaced by cookie streams, so that the C library's buffering is real, and the
 * operations below it are ours. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "ctl.h"

static struct ctl *c;
static int full[2];     /* the disk is full from now on: that of the files, and that of standard output */

struct file { int fd; int w; };

static int fault(int op) {
	if (!c) return F_NONE;
	long k = c->n++;
	if (k < MAXOPS) c->op[k] = op;
	for (int i = 0; i < 2; i++)
		if (c->at[i] == k) { c->fired++; return c->kind[i]; }
	return F_NONE;
}

static int sys_open(const char *p, int fl, int mode) { return syscall(SYS_openat, AT_FDCWD, p, fl, mode); }

static int do_open(const char *path, int flags, int mode) {
	switch (fault(OP_OPEN)) {
	case F_EACCES: errno = EACCES; return -1;
	case F_EMFILE: errno = EMFILE; return -1;
	case F_ENOSPC_OPEN: errno = ENOSPC; return -1;
	}
	return sys_open(path, flags, mode);
}

static ssize_t do_read(int fd, void *buf, size_t n) {
	switch (fault(OP_READ)) {
	case F_EIO: errno = EIO; return -1;
	case F_EOF: return 0;
	case F_SHORT: if (n > 1) n = 1; break;
	}
	return syscall(SYS_read, fd, buf, n);
}

static ssize_t wr(int fd, const char *buf, size_t n) {
	size_t d = 0;
	while (d < n) {
		ssize_t r = syscall(SYS_write, fd, buf + d, n - d);
		if (r <= 0) return d ? (ssize_t)d : -1;
		d += r;
	}
	return d;
}

static ssize_t do_write(int fd, const void *buf, size_t n) {
	int k = fault(fd == 1 ? OP_STDOUT : OP_WRITE);
	if (full[fd == 1]) { errno = ENOSPC; return -1; }
	switch (k) {
	case F_ENOSPC: full[fd == 1] = 1; /* fall through */
	case F_ENOSPC_ONCE: errno = ENOSPC; return -1;
	case F_TORN: full[fd == 1] = 1; /* fall through */
	case F_TORN_ONCE: wr(fd, buf, n / 2); errno = ENOSPC; return n / 2 ? (ssize_t)(n / 2) : -1;
	case F_SHORT: if (n > 1) n = 1; break;
	}
	return wr(fd, buf, n);
}

static long do_seek(int fd, long off, int whence) {
	if (fault(OP_SEEK) == F_EIO) { errno = EIO; return -1; }
	return syscall(SYS_lseek, fd, off, whence);
}

static int do_close(int fd, int w) {
	int k = fault(OP_CLOSE);
	if (k == F_CLOSE && w) {    /* what was written last did not reach the disk */
		struct stat st;
		if (!fstat(fd, &st) && S_ISREG(st.st_mode)) { if (ftruncate(fd, st.st_size / 2)) {} }
	}
	syscall(SYS_close, fd);
	if (k == F_CLOSE) { errno = EIO; return -1; }
	return 0;
}

static ssize_t ck_read(void *p, char *b, size_t n) { return do_read(((struct file *)p)->fd, b, n); }
static ssize_t ck_write(void *p, const char *b, size_t n) { ssize_t r = do_write(((struct file *)p)->fd, b, n); return r < 0 ? 0 : r; }
static int ck_seek(void *p, off64_t *o, int wh) { long r = do_seek(((struct file *)p)->fd, *o, wh); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *p) { int r = do_close(((struct file *)p)->fd, ((struct file *)p)->w); free(p); return r; }

static FILE *cookie(int fd, int w, const char *mode) {
	struct file *f = malloc(sizeof *f);
	f->fd = fd; f->w = w;
	FILE *fp = fopencookie(f, mode, (cookie_io_functions_t){ ck_read, ck_write, ck_seek, ck_close });
	if (c->bufsize == 0) setvbuf(fp, NULL, _IONBF, 0);
	else if (c->bufsize > 0) setvbuf(fp, malloc(c->bufsize), _IOFBF, c->bufsize);
	return fp;
}

FILE *fopen(const char *path, const char *mode) {
	int plus = !!strchr(mode, '+'), fl = *mode == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (*mode == 'a' ? O_APPEND : O_TRUNC);
	if (!path) { errno = EFAULT; return NULL; }
	int fd = do_open(path, fl, 0666);
	return fd < 0 ? NULL : cookie(fd, *mode != 'r' || plus, mode);
}
FILE *fopen64(const char *path, const char *mode) { return fopen(path, mode); }
FILE *fdopen(int fd, const char *mode) { return cookie(fd, *mode != 'r', mode); }

int open(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(path, fl, m); }
int open64(const char *path, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); return do_open(path, fl, m); }
int creat(const char *path, mode_t m) { return do_open(path, O_WRONLY | O_CREAT | O_TRUNC, m); }
ssize_t read(int fd, void *b, size_t n) { return do_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return fd == 2 ? syscall(SYS_write, fd, b, n) : do_write(fd, b, n); }
off_t lseek(int fd, off_t o, int w) { return do_seek(fd, o, w); }
int close(int fd) { return do_close(fd, (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY); }

__attribute__((constructor)) static void init(void) {
	const char *p = getenv("FAULT_CTL");
	if (!p) return;
	int fd = sys_open(p, O_RDWR, 0);
	void *m = mmap(NULL, sizeof *c, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	syscall(SYS_close, fd);
	if (m == MAP_FAILED) _exit(99);
	c = m;
	c->n = c->fired = 0;
	stdout = cookie(1, 1, "w");
}
