// C29, files: every primitive moves exactly the requested bytes or reports an
// error, for every sequence of short transfers, interruptions and failures of
// the system calls below it.
#include "am.h"
#include <limits.h>
#include <stdarg.h>
#include <sys/uio.h>
#include <sys/stat.h>

// the file behind descriptor t_fd, driven by the explorer
enum { t_fd = 700, T_MAX = 1 << 16 };
static uint8_t  t_data[T_MAX];
static uint64_t t_size, t_pos;
File t_file; // not a local variable: it is changed between setjmp and longjmp
static bool     t_on, t_failed;
static int      t_calls, t_interrupts, t_max_interrupts, t_max_fail, t_coarse, t_shorts, t_max_short;
static int      t_err;      // what the last failing call said
static const int t_errors[] = { EIO, ENOSPC };

ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t);
off_t   __real_lseek(int, off_t, int);
int     __real_ftruncate(int, off_t);
int     __real_open(const char*, int, ...);
int     __real_close(int);
int     __real_lstat(const char*, struct stat*);
int     __real_fdatasync(int);

// how many of size bytes the call moves, -1: errno is set
static ssize_t t_amount(uint64_t size, bool may_fail)
{
	t_calls++;
	mc_step(1);
	mc_check(t_calls < 10000, "endless", "the primitive keeps calling the system");
	if (size == 0) return 0;
	// all, each shorter count, interrupted, failed
	int shorter = t_shorts >= t_max_short ? 0 : size - 1 > (uint64_t)t_coarse ? t_coarse : (int)size - 1;
	int eintr = t_interrupts < t_max_interrupts, fail = may_fail ? t_max_fail : 0;
	int c = mc_choose(1 + shorter + eintr + fail);
	if (c == 0) return size;
	if (c <= shorter) {
		t_shorts++;
		// coarse: near the ends, and in the middle
		if ((int)size - 1 <= t_coarse) return c;
		if (c <= t_coarse / 2) return c;
		return size - (t_coarse - c + 1);
	}
	c -= 1 + shorter;
	if (eintr && c == 0) {
		t_interrupts++;
		errno = EINTR;
		return -1;
	}
	t_failed = true;
	errno = t_err = t_errors[c - eintr];
	mc_nontrivial();
	return -1;
}

static ssize_t t_get(void* buf, size_t size, uint64_t pos)
{
	mc_check(!t_failed, "after-failure", "the primitive goes on after a failed call");
	uint64_t left = pos < t_size ? t_size - pos : 0;
	ssize_t n = t_amount(size < left ? size : left, true);
	if (n > 0) memcpy(buf, t_data + pos, n);
	return n;
}

static ssize_t t_put(const struct iovec* v, int n, uint64_t pos)
{
	mc_check(!t_failed, "after-failure", "the primitive goes on after a failed call");
	if (n > IOV_MAX || n < 0) { errno = EINVAL; t_failed = true; return -1; }
	uint64_t size = 0;
	for (int i = 0; i < n; i++) size += v[i].iov_len;
	ssize_t rc = t_amount(size, true);
	if (rc <= 0) return rc;
	uint64_t left = rc;
	mc_check(pos + rc <= T_MAX, "beyond", "write of %zd bytes at %lu", rc, pos);
	for (int i = 0; i < n && left; i++) {
		uint64_t part = v[i].iov_len < left ? v[i].iov_len : left;
		if (pos > t_size) memset(t_data + t_size, 0, pos - t_size);
		memcpy(t_data + pos, v[i].iov_base, part);
		pos += part;
		left -= part;
		if (pos > t_size) t_size = pos;
	}
	return rc;
}

ssize_t __wrap_read(int fd, void* buf, size_t size)
{
	if (!t_on || fd != t_fd) return __real_read(fd, buf, size);
	ssize_t n = t_get(buf, size, t_pos);
	if (n > 0) t_pos += n;
	return n;
}
ssize_t __wrap_pread(int fd, void* buf, size_t size, off_t off)
{
	if (!t_on || fd != t_fd) return __real_pread(fd, buf, size, off);
	return t_get(buf, size, off);
}
ssize_t __wrap_write(int fd, const void* buf, size_t size)
{
	if (!t_on || fd != t_fd) return __real_write(fd, buf, size);
	struct iovec v = { (void*)buf, size };
	ssize_t n = t_put(&v, 1, t_pos);
	if (n > 0) t_pos += n;
	return n;
}
ssize_t __wrap_pwrite(int fd, const void* buf, size_t size, off_t off)
{
	if (!t_on || fd != t_fd) return __real_pwrite(fd, buf, size, off);
	struct iovec v = { (void*)buf, size };
	return t_put(&v, 1, off);
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int n)
{
	if (!t_on || fd != t_fd) return __real_writev(fd, v, n);
	ssize_t rc = t_put(v, n, t_pos);
	if (rc > 0) t_pos += rc;
	return rc;
}
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t off)
{
	if (!t_on || fd != t_fd) return __real_pwritev(fd, v, n, off);
	return t_put(v, n, off);
}
off_t __wrap_lseek(int fd, off_t off, int whence)
{
	if (!t_on || fd != t_fd) return __real_lseek(fd, off, whence);
	t_pos = whence == SEEK_SET ? (uint64_t)off : whence == SEEK_CUR ? t_pos + off : t_size + off;
	return t_pos;
}
int __wrap_ftruncate(int fd, off_t size)
{
	if (!t_on || fd != t_fd) return __real_ftruncate(fd, size);
	if ((uint64_t)size > t_size) memset(t_data + t_size, 0, size - t_size);
	t_size = size;
	return 0;
}
int __wrap_open(const char* path, int flags, ...)
{
	if (t_on && !strcmp(path, "/mem/f")) {
		if (flags & O_TRUNC) t_size = 0;
		t_pos = 0;
		return t_fd;
	}
	va_list ap;
	va_start(ap, flags);
	int mode = va_arg(ap, int);
	va_end(ap);
	return __real_open(path, flags, mode);
}
int __wrap_close(int fd)
{
	if (t_on && fd == t_fd) return 0;
	return __real_close(fd);
}
int __wrap_fdatasync(int fd)
{
	if (t_on && fd == t_fd) return 0;
	return __real_fdatasync(fd);
}
int __wrap_lstat(const char* path, struct stat* st)
{
	if (t_on && !strcmp(path, "/mem/f")) {
		memset(st, 0, sizeof(*st));
		st->st_mode = S_IFREG;
		st->st_size = t_size;
		return 0;
	}
	return __real_lstat(path, st);
}

static void t_begin(uint64_t size)
{
	t_on = true;
	t_failed = false;
	t_calls = t_interrupts = t_err = 0;
	t_max_interrupts = mc_q(1, 2);
	t_max_fail = 1;
	t_coarse = t_max_short = 1 << 20;
	t_shorts = 0;
	t_pos = 0;
	t_size = size;
	for (uint64_t i = 0; i < size; i++) t_data[i] = (uint8_t)(i * 7 + 13);
}
static void t_end(void) { t_on = false; }
static uint8_t t_old(uint64_t i) { return (uint8_t)(i * 7 + 13); }
static uint8_t t_new(uint64_t i) { return (uint8_t)(i * 11 + 129); }

// reads ---------------------------------------------------------------------

static void s_read(void)
{
	uint64_t file = mc_choose(mc_q(6, 8));
	uint64_t at   = mc_choose((int)file + 2);
	uint64_t size = mc_choose(mc_q(6, 8));
	int      how  = mc_choose(5);
	if (!mc_split()) return;
	t_begin(file);
	char out[64];
	memset(out, 0x5a, sizeof(out));
	int64_t rc = -1;
	bool failed = false;
	Buf buf;
	buf_init(&buf);
	#define f t_file
	file_init(&f);
	file_open(&f, "/mem/f");
	mc_check(f.size == file, "open-size", "size %lu of a file of %lu bytes", f.size, file);
	switch (how) {
	case 0: vfs_seek(f.fd, at); rc = vfs_read(f.fd, out + 8, size); failed = rc == -1; break;
	case 1: rc = vfs_pread(f.fd, at, out + 8, size); failed = rc == -1; break;
	case 2: failed = error_catch( file_pread(&f, out + 8, size, at) ); rc = size; break;
	case 3: vfs_seek(f.fd, at); failed = error_catch( file_read(&f, out + 8, size) ); rc = size; break;
	default:
		buf_write(&buf, "head", 4);
		failed = error_catch( file_pread_buf(&f, &buf, size, at) );
		rc = size;
		mc_check(!memcmp(buf.start, "head", 4), "buf-head", "the data in the buffer before the read changed");
		mc_check(buf_size(&buf) == 4 + (failed ? 0 : (int)size), "buf-size", "the buffer has %d bytes after reading %lu", buf_size(&buf) - 4, size);
		if (!failed && size) memcpy(out + 8, buf.start + 4, size);
		break;
	}
	bool all = size == 0 || at + size <= file;
	if (failed)
		mc_check(t_failed || !all, "read-refused", "reading %lu bytes at %lu of a %lu byte file fails although the system did not", size, at, file);
	else {
		mc_check(!t_failed && all, "read-invented", "reading %lu bytes at %lu of a %lu byte file succeeds", size, at, file);
		mc_check(rc == (int64_t)size, "read-count", "%ld bytes reported for %lu", rc, size);
		for (uint64_t i = 0; i < size; i++)
			mc_check((uint8_t)out[8 + i] == t_old(at + i), "read-data", "byte %lu of a read of %lu at %lu is wrong", i, size, at);
	}
	for (int i = 0; i < 8; i++)
		mc_check(out[i] == 0x5a && out[8 + size + i] == 0x5a, "read-overrun", "memory around the read area changed");
	mc_outcome((uint64_t)failed << 40 | t_calls << 8 | size);
	file_close(&f);
	buf_free(&buf);
	t_end();
}

// whole file imports
static void s_import(void)
{
	uint64_t file = mc_choose(mc_q(7, 9));
	int how = mc_choose(2);
	if (!mc_split()) return;
	t_begin(file);
	Buf* buf = NULL;
	bool failed;
	if (how == 0)
		failed = error_catch( buf = file_import("%s", "/mem/f") );
	else {
		buf = buf_create();
		failed = error_catch( file_import_stream(buf, "/mem/%s", "f") );
	}
	mc_check(failed == t_failed, "import-error", "import of %lu bytes: failed %d, the system failed %d", file, failed, t_failed);
	if (!failed) {
		mc_check(buf_size(buf) == (int)file, "import-size", "import of %lu bytes returns %d", file, buf_size(buf));
		for (uint64_t i = 0; i < file; i++) mc_check(buf->start[i] == t_old(i), "import-data", "byte %lu of an import is wrong", i);
	}
	if (how == 1 || !failed) buf_free(buf);
	t_end();
}

// positioned writes -----------------------------------------------------------

static void s_pwrite(void)
{
	uint64_t file = mc_choose(mc_q(5, 7));
	uint64_t at   = mc_choose((int)file + 3);
	int      how  = mc_choose(3);
	int      n    = how == 2 ? mc_choose(4) : 1;
	uint64_t len[4], size = 0;
	uint8_t  data[64];
	struct iovec v[4];
	for (int i = 0; i < n; i++) {
		len[i] = mc_choose(how == 2 ? mc_q(4, 5) : mc_q(7, 9));
		v[i].iov_base = data + size;
		v[i].iov_len = len[i];
		size += len[i];
	}
	if (!mc_split()) return;
	for (int i = 0; i < 64; i++) data[i] = t_new(i);
	t_begin(file);
	#define f t_file
	file_init(&f);
	file_open(&f, "/mem/f");
	vfs_seek(f.fd, 1);
	int64_t rc = size;
	bool failed;
	if (how == 0) { rc = vfs_pwrite(f.fd, data, size, at); failed = rc == -1; }
	else if (how == 1) failed = error_catch( file_pwrite(&f, data, size, at) );
	else { rc = vfs_pwritev(f.fd, at, v, n); failed = rc == -1; }
	mc_check(failed == t_failed, "pwrite-error", "writing %lu bytes at %lu: failed %d, the system failed %d", size, at, failed, t_failed);
	if (!failed) {
		mc_check(rc == (int64_t)size, "pwrite-count", "%ld bytes reported for %lu", rc, size);
		uint64_t expect = size && at + size > file ? at + size : file;
		mc_check(t_size == expect, "pwrite-size", "the file has %lu bytes instead of %lu", t_size, expect);
		for (uint64_t i = 0; i < t_size; i++) {
			uint8_t b = size && i >= at && i < at + size ? t_new(i - at) : i < file ? t_old(i) : 0;
			mc_check(t_data[i] == b, "pwrite-data", "byte %lu is wrong after writing %lu bytes at %lu", i, size, at);
		}
	}
	mc_check(t_pos == 1, "pwrite-position", "a positioned write moved the file position");
	file_close(&f);
	t_end();
}

// appends: what is recorded is what is written; the file can be cut there and
// written again after a failure
static void s_append(void)
{
	int ops = mc_choose(mc_q(2, 3)) + 1;
	int how[3], n[3];
	int len[3][4];
	int max = ops == 1 ? mc_q(5, 6) : ops == 2 ? mc_q(3, 4) : 3;
	for (int o = 0; o < ops; o++) {
		how[o] = mc_choose(3);
		n[o] = how[o] == 2 ? mc_choose(ops == 1 ? 4 : 3) : 1;
		for (int i = 0; i < n[o]; i++) len[o][i] = mc_choose(max);
	}
	int recover = mc_choose(2);
	if (!mc_split()) return;
	t_begin(3);
	t_max_interrupts = 1;
	uint8_t data[256];
	for (int i = 0; i < 256; i++) data[i] = t_new(i);
	uint64_t written = 0;
	#define f t_file
	file_init(&f);
	file_open(&f, "/mem/f");
	file_seek_to_end(&f);
	for (int o = 0; o < ops; o++) {
		struct iovec v[4];
		uint64_t size = 0;
		for (int i = 0; i < n[o]; i++) {
			v[i].iov_base = data + written + size;
			v[i].iov_len = len[o][i];
			size += len[o][i];
		}
		uint64_t off = 3 + written, got = off;
		bool failed;
		Buf buf;
		buf_init(&buf);
		switch (how[o]) {
		case 0: failed = error_catch( got = file_write(&f, data + written, size) ); break;
		case 1:
			buf_write(&buf, data + written, size);
			failed = error_catch( got = file_write_buf(&f, &buf) );
			break;
		default: failed = error_catch( file_writev(&f, v, n[o]) ); break;
		}
		buf_free(&buf);
		mc_check(failed == t_failed, "append-error", "appending %lu bytes: failed %d, the system failed %d", size, failed, t_failed);
		if (!failed) {
			mc_check(got == off, "append-offset", "data appended at %lu is reported at %lu", off, got);
			written += size;
			mc_check(f.size == 3 + written, "append-recorded", "the recorded size is %lu after %lu bytes", f.size, 3 + written);
			mc_check(t_size == f.size, "append-size", "the file has %lu bytes, recorded are %lu", t_size, f.size);
		} else {
			mc_check(f.size == 3 + written, "append-recorded-failed", "the recorded size is %lu after a failure, known to be written are %lu", f.size, 3 + written);
			mc_check(t_size >= f.size, "append-lost", "the file has %lu bytes, recorded are %lu", t_size, f.size);
			t_failed = false;
			if (!recover) break;
			t_max_fail = 0;
			file_truncate(&f, f.size);
			mc_check(t_size == f.size, "cut", "the file has %lu bytes after cutting it to %lu", t_size, f.size);
		}
	}
	for (uint64_t i = 0; i < f.size; i++)
		mc_check(t_data[i] == (i < 3 ? t_old(i) : t_new(i - 3)), "append-data", "byte %lu of %lu is wrong", i, f.size);
	mc_outcome(f.size << 32 | t_calls);
	file_close(&f);
	t_end();
}

// more vectors than one system call takes
static void s_vectors(void)
{
	int n = mc_choose(6);
	static const int counts[] = { IOV_MAX - 1, IOV_MAX, IOV_MAX + 1, IOV_MAX + 2, 2 * IOV_MAX, 2 * IOV_MAX + 1 };
	int wide = mc_choose(3);       // bytes per vector: 1; 0 or 1; 1 or 2
	n = counts[n];
	if (!mc_split()) return;
	t_begin(0);
	t_coarse = 8;
	t_max_short = mc_q(2, 3);
	t_max_interrupts = 1;
	static struct iovec v[2 * IOV_MAX + 1];
	static uint8_t data[6 * IOV_MAX];
	uint64_t size = 0, before = 0;
	for (unsigned i = 0; i < sizeof(data); i++) data[i] = t_new(i * 3 + (i >> 8));
	uint64_t chunk[4] = {0};
	for (int i = 0; i < n; i++) {
		v[i].iov_base = data + size;
		v[i].iov_len = wide == 0 ? 1 : wide == 1 ? i & 1 : 1 + (i & 1);
		size += v[i].iov_len;
		chunk[i / IOV_MAX] += v[i].iov_len;
	}
	#define f t_file
	file_init(&f);
	file_open_as(&f, "/mem/f", O_CREAT | O_RDWR, 0644);
	bool failed = error_catch( file_writev(&f, v, n) );
	mc_check(failed == t_failed, "vectors-error", "writing %d vectors: failed %d, the system failed %d", n, failed, t_failed);
	if (!failed) mc_check(f.size == size && t_size == size, "vectors-size", "%d vectors of %lu bytes: recorded %lu, written %lu", n, size, f.size, t_size);
	else {
		// the recorded size never claims what is not written
		mc_check(f.size <= t_size, "vectors-claimed", "recorded %lu, written %lu", f.size, t_size);
		bool edge = f.size == 0;
		for (int i = 0; i < 3; i++) { before += chunk[i]; edge |= f.size == before; }
		mc_check(edge || f.size == t_size, "vectors-recorded", "%lu bytes recorded of %lu", f.size, t_size);
	}
	mc_check(!memcmp(t_data, data, t_size), "vectors-data", "the written bytes differ");
	file_close(&f);
	t_end();
}

McScenario mc_scenarios[] = {
	{ "read",    s_read,    0 },
	{ "import",  s_import,  0 },
	{ "pwrite",  s_pwrite,  0 },
	{ "append",  s_append,  0 },
	{ "vectors", s_vectors, 0 },
	{ NULL, NULL, 0 },
};
