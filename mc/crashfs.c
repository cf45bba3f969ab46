#define _GNU_SOURCE
#include "crashfs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/uio.h>

enum { MAXI = 512, MAXE = 512, MAXF = 256, MAXP = 512, FDBASE = 1000000 };

typedef struct { size_t off, len; uint8_t* data; } Pend;
typedef struct {
	bool     used, dir;
	int      refs;          // directory entries
	int      opens;
	uint8_t* data; size_t size, cap;
	uint8_t* sync; size_t sync_size;    // content as of the last sync
	Pend     pend[MAXP]; int pend_n;
} Inode;
typedef struct { bool used; char path[512]; int ino; } Entry;
typedef struct { bool used; int ino; size_t pos; int flags; } Fd;
typedef struct { uint32_t magic; int n, at; struct dirent ents[MAXE]; } Dir;

// scheduling point of a controlled scheduler, when linked in
void sched_io_point(const void*) __attribute__((weak));
#define IOP(x) do { if (sched_io_point) sched_io_point(x); } while (0)

static Inode inodes[MAXI];
static Entry entries[MAXE];
static Fd    fds[MAXF];
static bool  armed_crash, armed_fault, armed_short, frozen;
static int   syscalls, faults;
static jmp_buf crash_jmp;
static bool  crash_active;

int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __real_pwritev(int, const struct iovec*, int, off_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
off_t __real_lseek(int, off_t, int);
int __real_fsync(int);
int __real_fdatasync(int);
int __real_sync_file_range(int, off_t, off_t, unsigned);
int __real_ftruncate(int, off_t);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
int __real_mkdir(const char*, mode_t);
int __real_rmdir(const char*);
int __real_link(const char*, const char*);
int __real_fstat(int, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_stat(const char*, struct stat*);
DIR* __real_opendir(const char*);
struct dirent* __real_readdir(DIR*);
int __real_closedir(DIR*);
int __real_flock(int, int);

static bool mem_path(const char* p) { return !strncmp(p, "/mem/", 5) || !strcmp(p, "/mem"); }

static void norm(char* out, const char* p)
{
	// collapse repeated and trailing slashes
	size_t n = 0;
	for (; *p && n < 500; p++) {
		if (*p == '/' && n && out[n - 1] == '/') continue;
		out[n++] = *p;
	}
	while (n > 1 && out[n - 1] == '/') n--;
	out[n] = 0;
}

static Entry* lookup(const char* path)
{
	char p[512]; norm(p, path);
	for (int i = 0; i < MAXE; i++)
		if (entries[i].used && !strcmp(entries[i].path, p)) return &entries[i];
	return NULL;
}

static void inode_gc(int ino)
{
	Inode* in = &inodes[ino];
	if (in->refs || in->opens) return;
	for (int i = 0; i < in->pend_n; i++) free(in->pend[i].data);
	free(in->data); free(in->sync);
	memset(in, 0, sizeof(*in));
}

static int inode_new(bool dir)
{
	for (int i = 0; i < MAXI; i++)
		if (!inodes[i].used) { memset(&inodes[i], 0, sizeof(Inode)); inodes[i].used = true; inodes[i].dir = dir; return i; }
	mc_fail("harness-cfs", "out of inodes");
}

static Entry* entry_new(const char* path, int ino)
{
	for (int i = 0; i < MAXE; i++)
		if (!entries[i].used) {
			entries[i].used = true; entries[i].ino = ino;
			norm(entries[i].path, path);
			inodes[ino].refs++;
			return &entries[i];
		}
	mc_fail("harness-cfs", "out of entries");
}

static void entry_del(Entry* e)
{
	e->used = false;
	inodes[e->ino].refs--;
	inode_gc(e->ino);
}

static void grow(Inode* in, size_t size)
{
	if (size > in->cap) {
		size_t cap = in->cap ? in->cap * 2 : 256;
		while (cap < size) cap *= 2;
		in->data = realloc(in->data, cap);
		in->cap = cap;
	}
	if (size > in->size) memset(in->data + in->size, 0, size - in->size);
}

static void pend_clear(Inode* in)
{
	for (int i = 0; i < in->pend_n; i++) free(in->pend[i].data);
	in->pend_n = 0;
}

static void do_sync(Inode* in)
{
	in->sync = realloc(in->sync, in->size ? in->size : 1);
	memcpy(in->sync, in->data ? in->data : (uint8_t*)"", in->size);
	in->sync_size = in->size;
	pend_clear(in);
}

static void do_write(Inode* in, const void* buf, size_t len, size_t off)
{
	if (!len) return;
	if (off + len > (1u << 28)) mc_fail("harness-cfs", "file too big");
	grow(in, off + len);
	if (off + len > in->size) in->size = off + len;
	memcpy(in->data + off, buf, len);
	if (in->pend_n == MAXP) mc_fail("harness-cfs", "too many pending writes");
	Pend* p = &in->pend[in->pend_n++];
	p->off = off; p->len = len;
	p->data = malloc(len);
	memcpy(p->data, buf, len);
}

static void do_truncate(Inode* in, size_t size)
{
	if (size > in->size) { grow(in, size); in->size = size; }
	in->size = size;
	// truncation is metadata: it applies to the synced image as well
	if (in->sync_size > size) in->sync_size = size;
	int n = 0;
	for (int i = 0; i < in->pend_n; i++) {
		Pend* p = &in->pend[i];
		if (p->off >= size) { free(p->data); continue; }
		if (p->off + p->len > size) p->len = size - p->off;
		in->pend[n++] = *p;
	}
	in->pend_n = n;
}

static void crash_here(void)
{
	frozen = true;
	if (!crash_active) mc_fail("harness-cfs", "crash outside of cfs_run");
	longjmp(crash_jmp, 1);
}

// before every mutating call
static void point(const char* what)
{
	IOP(what);
	syscalls++;
	if (armed_crash && !mc_pruned() && mc_cost(2, 1)) {
		mc_log("CRASH before %s #%d", what, syscalls);
		crash_here();
	}
}

static int fail_write = -1;
void cfs_fail_write(int skip) { fail_write = skip; }

static bool fault(const char* what)
{
	if (armed_fault && mc_cost(2, 1)) {
		mc_log("FAULT %s #%d", what, syscalls);
		faults++;
		return true;
	}
	return false;
}

// short transfer decision for a request of n bytes: returns bytes to transfer, -1: EINTR
static ssize_t shorten(size_t n)
{
	if (!armed_short || n == 0) return n;
	int k = mc_cost(n > 2 ? 5 : n > 1 ? 3 : 2, 1);
	if (k == 0) return n;
	faults++;
	if (k == 1) { mc_log("EINTR"); errno = EINTR; return -1; }
	size_t r = k == 2 ? 1 : k == 3 ? n - 1 : n / 2;
	mc_log("short %zu of %zu", r, n);
	return r;
}

void cfs_reset(void)
{
	for (int i = 0; i < MAXI; i++)
		if (inodes[i].used) { inodes[i].refs = inodes[i].opens = 0; inode_gc(i); }
	memset(entries, 0, sizeof(entries));
	memset(fds, 0, sizeof(fds));
	armed_crash = armed_fault = armed_short = frozen = false;
	syscalls = faults = 0;
	crash_active = false;
	cfs_mkdir("/mem");
}

bool cfs_enabled(void) { return true; }
void cfs_mkdir(const char* path) { entry_new(path, inode_new(true)); }
void cfs_arm_crash(bool v) { armed_crash = v; }
void cfs_arm_fault(bool v) { armed_fault = v; }
void cfs_arm_short(bool v) { armed_short = v; }
int  cfs_fault_count(void) { return faults; }
int  cfs_syscalls(void) { return syscalls; }
int  cfs_open_fds(void) { int n = 0; for (int i = 0; i < MAXF; i++) n += fds[i].used; return n; }

// error handling state of the code under test, which a crash leaves behind
void am_env(void* state[2], bool restore) __attribute__((weak));

bool cfs_run(void (*fn)(void*), void* arg)
{
	void* env[2];
	if (am_env) am_env(env, false);
	crash_active = true;
	bool crashed = false;
	if (setjmp(crash_jmp) == 0)
		fn(arg);
	else {
		crashed = true;
		if (am_env) am_env(env, true);
	}
	crash_active = false;
	armed_crash = armed_fault = armed_short = false;
	frozen = false;
	return crashed;
}

static void close_all(void)
{
	for (int i = 0; i < MAXF; i++)
		if (fds[i].used) { fds[i].used = false; inodes[fds[i].ino].opens--; inode_gc(fds[i].ino); }
}

void cfs_crash_exact(void)
{
	close_all();
	for (int i = 0; i < MAXI; i++)
		if (inodes[i].used && !inodes[i].dir) do_sync(&inodes[i]);
}

static const char* inode_name(int ino)
{
	for (int i = 0; i < MAXE; i++)
		if (entries[i].used && entries[i].ino == ino) return entries[i].path;
	return "?";
}

static void apply(uint8_t** data, size_t* size, Pend* p, size_t len, bool zero)
{
	// keep len bytes of the write; zero: the file grew over the whole write
	size_t end = p->off + (zero ? p->len : len);
	if (end > *size) {
		*data = realloc(*data, end ? end : 1);
		memset(*data + *size, 0, end - *size);
		*size = end;
	}
	memcpy(*data + p->off, p->data, len);
}

void cfs_crash(int flags)
{
	close_all();
	for (int ino = 0; ino < MAXI; ino++) {
		Inode* in = &inodes[ino];
		if (!in->used || in->dir || !in->pend_n) continue;
		// number of outcomes of the unsynced writes
		int w = in->pend_n;
		// 0: all kept; 1: none kept; then prefixes j=1..w-1
		int n_prefix = w - 1;
		int tears = 0;
		if (flags & CFS_TORN)
			for (int j = 0; j < w; j++) {
				size_t len = in->pend[j].len;
				tears += (flags & CFS_ALLTEARS) ? (int)len - 1 : len > 16 ? 4 : len > 1 ? 1 : 0;
			}
		int holes = (flags & CFS_HOLES) ? (w > 1 ? w : 0) + 2 : 0; // lose one; all zero; last zero after half
		int k = mc_choose(2 + n_prefix + tears + holes);
		size_t size = in->sync_size;
		uint8_t* data = malloc(size ? size : 1);
		if (size) memcpy(data, in->sync, size);
		if (k == 0) {
			for (int j = 0; j < w; j++) apply(&data, &size, &in->pend[j], in->pend[j].len, false);
		} else if (k == 1) {
			mc_log("%s: unsynced data lost", inode_name(ino));
		} else if (k < 2 + n_prefix) {
			int keep = k - 1;
			mc_log("%s: first %d of %d unsynced writes kept", inode_name(ino), keep, w);
			for (int j = 0; j < keep; j++) apply(&data, &size, &in->pend[j], in->pend[j].len, false);
		} else if (k < 2 + n_prefix + tears) {
			int t = k - 2 - n_prefix;
			for (int j = 0; j < w; j++) {
				size_t len = in->pend[j].len;
				int c = (flags & CFS_ALLTEARS) ? (int)len - 1 : len > 16 ? 4 : len > 1 ? 1 : 0;
				if (t >= c) { t -= c; apply(&data, &size, &in->pend[j], len, false); continue; }
				size_t cut;
				if (flags & CFS_ALLTEARS) cut = t + 1;
				else if (len <= 16) cut = len / 2;
				else { size_t cuts[4] = { 1, len / 2, len - 1, 16 }; cut = cuts[t]; }
				mc_log("%s: unsynced write %d of %d torn at byte %zu of %zu", inode_name(ino), j, w, cut, len);
				apply(&data, &size, &in->pend[j], cut, false);
				break;
			}
		} else {
			int h = k - 2 - n_prefix - tears;
			if (h == 0) {
				mc_log("%s: all unsynced data reads as zeros", inode_name(ino));
				for (int j = 0; j < w; j++) apply(&data, &size, &in->pend[j], 0, true);
			} else if (h == 1) {
				mc_log("%s: second half of the last unsynced write reads as zeros", inode_name(ino));
				for (int j = 0; j < w; j++) apply(&data, &size, &in->pend[j], j < w - 1 ? in->pend[j].len : in->pend[j].len / 2, true);
			} else {
				int lost = h - 2;
				mc_log("%s: unsynced write %d of %d lost", inode_name(ino), lost, w);
				for (int j = 0; j < w; j++) apply(&data, &size, &in->pend[j], j == lost ? 0 : in->pend[j].len, j != w - 1 || j != lost);
			}
		}
		free(in->data);
		in->data = data; in->size = size; in->cap = size ? size : 1;
		do_sync(in);
	}
}

static int name_cmp(const void* a, const void* b) { return strcmp(a, b); }

int cfs_list(const char* dir, char names[][256], int max)
{
	char d[512]; norm(d, dir);
	size_t len = strlen(d);
	int n = 0;
	for (int i = 0; i < MAXE && n < max; i++) {
		if (!entries[i].used) continue;
		const char* p = entries[i].path;
		if (strncmp(p, d, len) || p[len] != '/' || strchr(p + len + 1, '/')) continue;
		snprintf(names[n++], 256, "%s", p + len + 1);
	}
	qsort(names, n, 256, name_cmp);
	return n;
}

bool cfs_exists(const char* path) { return lookup(path) != NULL; }

char* cfs_data(const char* path, size_t* size)
{
	Entry* e = lookup(path);
	if (!e) return NULL;
	*size = inodes[e->ino].size;
	return (char*)inodes[e->ino].data;
}

uint8_t* cfs_synced(const char* path, size_t* size)
{
	Entry* e = lookup(path);
	*size = e ? inodes[e->ino].sync_size : 0;
	return e ? inodes[e->ino].sync : NULL;
}

void cfs_set(const char* path, const void* data, size_t size)
{
	Entry* e = lookup(path);
	if (!e) e = entry_new(path, inode_new(false));
	Inode* in = &inodes[e->ino];
	uint8_t* copy = malloc(size ? size : 1);
	memcpy(copy, data, size);
	free(in->data);
	in->data = copy; in->size = size; in->cap = size ? size : 1;
	do_sync(in);
}

uint64_t cfs_hash(void)
{
	// order independent over the entries
	uint64_t h = 0;
	for (int i = 0; i < MAXE; i++)
		if (entries[i].used) {
			Inode* in = &inodes[entries[i].ino];
			h += mc_hash(mc_hash(1, entries[i].path, strlen(entries[i].path)), in->data ? in->data : (uint8_t*)"", in->size);
		}
	return h;
}

// ---------------------------------------------------------------- libc calls

static Fd* fd_of(int fd) { return &fds[fd - FDBASE]; }
#define IS_MEM(fd) ((fd) >= FDBASE && (fd) < FDBASE + MAXF)
#define CHECK_FD(fd) do { if (!fd_of(fd)->used) { errno = EBADF; return -1; } } while (0)

int __wrap_open(const char* path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
	if (!mem_path(path)) return __real_open(path, flags, mode);
	Entry* e = lookup(path);
	if (!e) {
		if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
		point("create");
		if (fault("create")) { errno = ENOSPC; return -1; }
		// parent must exist
		char par[512]; norm(par, path);
		char* s = strrchr(par, '/');
		*s = 0;
		if (!lookup(par)) { errno = ENOENT; return -1; }
		e = entry_new(path, inode_new(false));
	} else {
		if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
		if (flags & O_TRUNC) { point("truncate"); do_truncate(&inodes[e->ino], 0); }
	}
	for (int i = 0; i < MAXF; i++)
		if (!fds[i].used) {
			fds[i] = (Fd){ true, e->ino, 0, flags };
			inodes[e->ino].opens++;
			return FDBASE + i;
		}
	errno = EMFILE;
	return -1;
}

int __wrap_close(int fd)
{
	if (!IS_MEM(fd)) return __real_close(fd);
	CHECK_FD(fd);
	fd_of(fd)->used = false;
	int ino = fd_of(fd)->ino;
	inodes[ino].opens--;
	inode_gc(ino);
	return 0;
}

static ssize_t mem_read(int fd, void* buf, size_t n, off_t off)
{
	IOP(&fds);
	CHECK_FD(fd);
	Inode* in = &inodes[fd_of(fd)->ino];
	if ((size_t)off >= in->size) return 0;
	if (n > in->size - off) n = in->size - off;
	ssize_t s = shorten(n);
	if (s < 0) return -1;
	memcpy(buf, in->data + off, s);
	return s;
}

ssize_t __wrap_read(int fd, void* buf, size_t n)
{
	if (!IS_MEM(fd)) return __real_read(fd, buf, n);
	ssize_t r = mem_read(fd, buf, n, fd_of(fd)->pos);
	if (r > 0) fd_of(fd)->pos += r;
	return r;
}

ssize_t __wrap_pread(int fd, void* buf, size_t n, off_t off)
{
	if (!IS_MEM(fd)) return __real_pread(fd, buf, n, off);
	return mem_read(fd, buf, n, off);
}

static ssize_t mem_write(int fd, const struct iovec* v, int cnt, off_t off)
{
	CHECK_FD(fd);
	point("write");
	size_t total = 0;
	for (int i = 0; i < cnt; i++) total += v[i].iov_len;
	size_t limit = total;
	if (fail_write >= 0 && fail_write-- == 0) { mc_log("FAULT write ENOSPC"); faults++; errno = ENOSPC; return -1; }
	if (armed_fault) {
		int k = mc_cost(total > 1 ? 3 : 2, 1);
		if (k == 1) { mc_log("FAULT write #%d ENOSPC", syscalls); faults++; errno = ENOSPC; return -1; }
		if (k == 2) { mc_log("FAULT write #%d partial", syscalls); faults++; limit = total / 2; }
	}
	ssize_t s = shorten(limit);
	if (s < 0) return -1;
	limit = s;
	// one write() is one pending unit
	uint8_t* tmp = malloc(total ? total : 1);
	size_t n = 0;
	for (int i = 0; i < cnt; i++) { if (v[i].iov_len) memcpy(tmp + n, v[i].iov_base, v[i].iov_len); n += v[i].iov_len; }
	do_write(&inodes[fd_of(fd)->ino], tmp, limit, off);
	free(tmp);
	return limit;
}

ssize_t __wrap_write(int fd, const void* buf, size_t n)
{
	if (!IS_MEM(fd)) return __real_write(fd, buf, n);
	struct iovec v = { (void*)buf, n };
	Fd* f = fd_of(fd);
	if (f->used && (f->flags & O_APPEND)) f->pos = inodes[f->ino].size;
	ssize_t r = mem_write(fd, &v, 1, f->pos);
	if (r > 0) f->pos += r;
	return r;
}

ssize_t __wrap_writev(int fd, const struct iovec* v, int cnt)
{
	if (!IS_MEM(fd)) return __real_writev(fd, v, cnt);
	Fd* f = fd_of(fd);
	if (f->used && (f->flags & O_APPEND)) f->pos = inodes[f->ino].size;
	ssize_t r = mem_write(fd, v, cnt, f->pos);
	if (r > 0) f->pos += r;
	return r;
}

ssize_t __wrap_pwrite(int fd, const void* buf, size_t n, off_t off)
{
	if (!IS_MEM(fd)) return __real_pwrite(fd, buf, n, off);
	struct iovec v = { (void*)buf, n };
	return mem_write(fd, &v, 1, off);
}

ssize_t __wrap_pwritev(int fd, const struct iovec* v, int cnt, off_t off)
{
	if (!IS_MEM(fd)) return __real_pwritev(fd, v, cnt, off);
	return mem_write(fd, v, cnt, off);
}

off_t __wrap_lseek(int fd, off_t off, int whence)
{
	if (!IS_MEM(fd)) return __real_lseek(fd, off, whence);
	CHECK_FD(fd);
	Fd* f = fd_of(fd);
	if (whence == SEEK_SET) f->pos = off;
	else if (whence == SEEK_CUR) f->pos += off;
	else f->pos = inodes[f->ino].size + off;
	return f->pos;
}

static int mem_sync(int fd)
{
	CHECK_FD(fd);
	point("sync");
	if (fault("sync")) { errno = EIO; return -1; }
	do_sync(&inodes[fd_of(fd)->ino]);
	return 0;
}
int __wrap_fsync(int fd) { return IS_MEM(fd) ? mem_sync(fd) : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return IS_MEM(fd) ? mem_sync(fd) : __real_fdatasync(fd); }
int __wrap_sync_file_range(int fd, off_t a, off_t b, unsigned f) { return IS_MEM(fd) ? 0 : __real_sync_file_range(fd, a, b, f); }

int __wrap_ftruncate(int fd, off_t size)
{
	if (!IS_MEM(fd)) return __real_ftruncate(fd, size);
	CHECK_FD(fd);
	point("truncate");
	if (fault("truncate")) { errno = EIO; return -1; }
	do_truncate(&inodes[fd_of(fd)->ino], size);
	return 0;
}

int __wrap_rename(const char* a, const char* b)
{
	if (!mem_path(a)) return __real_rename(a, b);
	Entry* e = lookup(a);
	if (!e) { errno = ENOENT; return -1; }
	point("rename");
	if (fault("rename")) { errno = EIO; return -1; }
	if (inodes[e->ino].dir) {
		char pa[512], pb[512];
		norm(pa, a); norm(pb, b);
		size_t len = strlen(pa);
		for (int i = 0; i < MAXE; i++)
			if (entries[i].used && !strncmp(entries[i].path, pa, len) && (entries[i].path[len] == '/' || !entries[i].path[len])) {
				char np[1024];
				snprintf(np, sizeof(np), "%s%s", pb, entries[i].path + len);
				snprintf(entries[i].path, sizeof(entries[i].path), "%s", np);
			}
		return 0;
	}
	Entry* t = lookup(b);
	if (t == e) return 0;
	if (t) entry_del(t);
	norm(e->path, b);
	return 0;
}

int __wrap_link(const char* a, const char* b)
{
	if (!mem_path(a)) return __real_link(a, b);
	Entry* e = lookup(a);
	if (!e) { errno = ENOENT; return -1; }
	point("link");
	if (fault("link")) { errno = EIO; return -1; }
	if (lookup(b)) { errno = EEXIST; return -1; }
	entry_new(b, e->ino);
	return 0;
}

int __wrap_unlink(const char* a)
{
	if (!mem_path(a)) return __real_unlink(a);
	Entry* e = lookup(a);
	if (!e) { errno = ENOENT; return -1; }
	if (inodes[e->ino].dir) { errno = EISDIR; return -1; }
	point("unlink");
	if (fault("unlink")) { errno = EIO; return -1; }
	entry_del(e);
	return 0;
}

int __wrap_mkdir(const char* a, mode_t mode)
{
	if (!mem_path(a)) return __real_mkdir(a, mode);
	if (lookup(a)) { errno = EEXIST; return -1; }
	point("mkdir");
	if (fault("mkdir")) { errno = ENOSPC; return -1; }
	entry_new(a, inode_new(true));
	return 0;
}

int __wrap_rmdir(const char* a)
{
	if (!mem_path(a)) return __real_rmdir(a);
	Entry* e = lookup(a);
	if (!e) { errno = ENOENT; return -1; }
	char names[1][256];
	if (cfs_list(a, names, 1)) { errno = ENOTEMPTY; return -1; }
	point("rmdir");
	if (fault("rmdir")) { errno = EIO; return -1; }
	entry_del(e);
	return 0;
}

static int mem_stat(Inode* in, struct stat* st)
{
	memset(st, 0, sizeof(*st));
	st->st_mode = in->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
	st->st_size = in->size;
	return 0;
}

int __wrap_fstat(int fd, struct stat* st)
{
	if (!IS_MEM(fd)) return __real_fstat(fd, st);
	CHECK_FD(fd);
	return mem_stat(&inodes[fd_of(fd)->ino], st);
}

int __wrap_lstat(const char* path, struct stat* st)
{
	if (!mem_path(path)) return __real_lstat(path, st);
	Entry* e = lookup(path);
	if (!e) { errno = ENOENT; return -1; }
	return mem_stat(&inodes[e->ino], st);
}

int __wrap_stat(const char* path, struct stat* st)
{
	if (!mem_path(path)) return __real_stat(path, st);
	return __wrap_lstat(path, st);
}

static int dir_count(const char* path)
{
	static char names[MAXE][256];
	return cfs_list(path, names, MAXE - 2);
}

#define DIR_MAGIC 0x44495221
DIR* __wrap_opendir(const char* path)
{
	if (!mem_path(path)) return __real_opendir(path);
	Entry* e = lookup(path);
	if (!e) { errno = ENOENT; return NULL; }
	Dir* d = malloc(offsetof(Dir, ents) + sizeof(struct dirent) * (dir_count(path) + 2));
	d->magic = DIR_MAGIC;
	d->at = 0;
	static char names[MAXE][256];
	int n = cfs_list(path, names, MAXE - 2);
	strcpy(d->ents[0].d_name, ".");
	strcpy(d->ents[1].d_name, "..");
	for (int i = 0; i < n; i++) {
		snprintf(d->ents[i + 2].d_name, 256, "%s", names[i]);
		char p[800];
		snprintf(p, sizeof(p), "%s/%s", path, names[i]);
		Entry* x = lookup(p);
		d->ents[i + 2].d_type = x && inodes[x->ino].dir ? DT_DIR : DT_REG;
	}
	d->ents[0].d_type = d->ents[1].d_type = DT_DIR;
	d->n = n + 2;
	// tag so that readdir can tell it apart
	return (DIR*)((uintptr_t)d | 1);
}

struct dirent* __wrap_readdir(DIR* dir)
{
	if (!((uintptr_t)dir & 1)) return __real_readdir(dir);
	Dir* d = (Dir*)((uintptr_t)dir & ~1ul);
	if (d->at >= d->n) return NULL;
	return &d->ents[d->at++];
}

int __wrap_closedir(DIR* dir)
{
	if (!((uintptr_t)dir & 1)) return __real_closedir(dir);
	free((Dir*)((uintptr_t)dir & ~1ul));
	return 0;
}

int __wrap_flock(int fd, int op) { return IS_MEM(fd) ? 0 : __real_flock(fd, op); }
