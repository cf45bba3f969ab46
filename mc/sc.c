#define _GNU_SOURCE
#include "sc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdatomic.h>
#include <errno.h>
#include <sched.h>
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/syscall.h>
#include <linux/futex.h>

// ---------------------------------------------------------------- memory
//
// Allocator with a state byte per 16 bytes: accesses to released memory are
// reported. Released blocks are reused by later executions only.

enum { ARENA = 1 << 30, GRAN = 16, CLASSES = 32 };
typedef struct Blk { uint64_t size; int cls; uint32_t magic; struct Blk* next; void* pad; } Blk; // 32 bytes
static char*    arena;
static uint8_t* ast;           // 0: never used, 1: live, 2: released
static size_t   arena_pos;
static Blk*     freelist[CLASSES];
static Blk*     quarantine;
static size_t   quarantine_size;
static volatile int am_mlock;
static int      active;        // between sc_begin() and sc_end()

static void m_lock(void) { while (__atomic_exchange_n(&am_mlock, 1, __ATOMIC_ACQUIRE)) sched_yield(); }
static void m_unlock(void) { __atomic_store_n(&am_mlock, 0, __ATOMIC_RELEASE); }

static void arena_init(void)
{
	arena = mmap(NULL, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	ast   = mmap(NULL, ARENA / GRAN, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	if (arena == MAP_FAILED || ast == MAP_FAILED) abort();
}

static int cls_of(size_t n)
{
	int c = 0;
	size_t s = 16;
	while (s < n) { s <<= 1; c++; }
	return c;
}

static void* do_alloc(size_t n)
{
	m_lock();
	if (!arena) arena_init();
	int c = cls_of(n);
	Blk* b = freelist[c];
	if (b) freelist[c] = b->next;
	else {
		size_t need = sizeof(Blk) + ((size_t)16 << c);
		if (arena_pos + need > ARENA) { m_unlock(); static const char t[] = "sched: out of arena\n"; if (write(2, t, sizeof(t) - 1)) {} abort(); }
		b = (Blk*)(arena + arena_pos);
		arena_pos += need;
		b->cls = c;
	}
	b->size = n;
	b->magic = 0xa110c;
	char* p = (char*)(b + 1);
	memset(ast + (p - arena) / GRAN, 1, (n + GRAN - 1) / GRAN);
	m_unlock();
	return p;
}

static void bad_free(void* p);
static void do_free(void* p)
{
	if (!p) return;
	Blk* b = (Blk*)p - 1;
	if ((char*)p < arena || (char*)p >= arena + ARENA) return; // from before the arena
	if (b->magic != 0xa110c) { bad_free(p); return; }
	m_lock();
	b->magic = 0xf4ee;
	memset(ast + ((char*)p - arena) / GRAN, 2, (b->size + GRAN - 1) / GRAN);
	if (active && b->size < (4 << 20)) { b->next = quarantine; quarantine = b; quarantine_size += b->size; }
	else { b->next = freelist[b->cls]; freelist[b->cls] = b; }
	m_unlock();
}

static void quarantine_flush(void)
{
	while (quarantine) {
		Blk* b = quarantine;
		quarantine = b->next;
		b->next = freelist[b->cls];
		freelist[b->cls] = b;
	}
	quarantine_size = 0;
}

void* malloc(size_t n) { return do_alloc(n ? n : 1); }
void  free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) { void* p = do_alloc(a * b ? a * b : 1); memset(p, 0, a * b); return p; }
void* realloc(void* p, size_t n)
{
	if (!p) return malloc(n);
	Blk* b = (Blk*)p - 1;
	void* q = malloc(n);
	memcpy(q, p, b->size < n ? b->size : n);
	free(p);
	return q;
}
void* memalign(size_t al, size_t n) {
	if (al <= 16) return malloc(n);
	// over-allocate inside of the arena: never released
	char* p = do_alloc(n + al + sizeof(Blk));
	char* q = (char*)(((uintptr_t)p + sizeof(Blk) + al - 1) & ~(uintptr_t)(al - 1));
	Blk* b = (Blk*)q - 1;
	b->size = n; b->cls = CLASSES - 1; b->magic = 0xa110c;
	return q;
}
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** p, size_t al, size_t n) { *p = memalign(al, n); return 0; }
size_t malloc_usable_size(void* p) { return p ? ((Blk*)p - 1)->size : 0; }

// ---------------------------------------------------------------- threads

enum { NT = 16, NSYNC = 4096, NLOC = 1 << 16, NACC = 10 };
enum { K_RUN, K_MUTEX, K_COND, K_EPOLL, K_JOIN, K_SPIN, K_IDLE, K_DONE };
static const char* kind_name[] = { "runnable", "mutex", "condition", "epoll", "join", "spinning", "idle", "ended" };

typedef struct {
	int       used, joined;
	int       kind;
	void*     obj;          // what it waits for
	void*     mutex;        // condition: mutex to take again
	uint64_t  seq;          // order of waiting
	uint64_t  deadline;     // 0: none
	bool      woken;
	pthread_t real;
	void*   (*fn)(void*);
	void*     arg;
	void*     ret;
	uint32_t  vc[NT];
	// spinning
	uintptr_t sp_pc[2], sp_addr[2]; uint64_t sp_val[2]; int sp_n[2]; int sp_size;
	int       sp_kind;
	uint64_t  sp_wait;
	int       sp_retry;
	// store buffer
	bool      sb; uintptr_t sb_addr; int sb_size; uint64_t sb_val; int sb_mo; uintptr_t sb_pc;
	uintptr_t at;           // last visible operation
} Thread;

static Thread th[NT];
static volatile int go[NT];   // baton
static struct { pthread_t id; bool used; } pool[NT]; // system threads are reused by later executions
static int    nth;
static int    alive;        // threads not ended
static int    flags;
static uint64_t vnow = 1700000000000000000ull;
static uint64_t seq;
static uint64_t ops, spins;
static __thread int me;
static const char* (*describe)(void);

extern char __executable_start;
extern char __start_mcmon __attribute__((weak)), __stop_mcmon __attribute__((weak));
static uintptr_t off(uintptr_t pc) { return pc - (uintptr_t)&__executable_start; }

static void symbol(uintptr_t pc, char* out, size_t size)
{
	char cmd[256], fn[128] = "?";
	out[0] = 0;
	static char exe[512];
	ssize_t n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	if (n < 0) n = 0;
	exe[n] = 0;
	snprintf(cmd, sizeof(cmd), "addr2line -i -f -s -e %.160s 0x%lx 2>/dev/null", exe, off(pc) - 1);
	int was = active;
	active = 0;
	FILE* f = popen(cmd, "r");
	if (f) {
		char loc[128];
		int k = 0;
		while (k < 3 && fgets(fn, sizeof(fn), f) && fgets(loc, sizeof(loc), f)) {
			fn[strcspn(fn, "\n")] = 0;
			loc[strcspn(loc, "\n ")] = 0;
			size_t l = strlen(out);
			snprintf(out + l, size - l, "%s%s", k ? "<" : "", fn);
			k++;
		}
		pclose(f);
	}
	active = was;
}

static void futex_wait(volatile int* p) {
	while (*p == 0) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
	*p = 0;
}
static void futex_wake(volatile int* p) { *p = 1; syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0); }

// sync objects
typedef struct { void* addr; int owner; uint32_t vc[NT]; uint32_t exec; } Sync;
static Sync syncs[NSYNC];
static uint32_t exec_no = 1;

static Sync* sync_of(void* addr)
{
	uint64_t i = mc_hash(3, &addr, sizeof(addr)) % NSYNC;
	for (int probe = 0; probe < NSYNC; probe++) {
		Sync* s = &syncs[i];
		if (s->exec != exec_no) { memset(s, 0, sizeof(*s)); s->addr = addr; s->owner = -1; s->exec = exec_no; return s; }
		if (s->addr == addr) return s;
		i = (i + 1) % NSYNC;
	}
	mc_fail("harness", "too many synchronization objects");
}

static void vc_join(uint32_t* a, uint32_t* b) { for (int i = 0; i < nth; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void acquire(void* addr) { if (alive > 1) vc_join(th[me].vc, sync_of(addr)->vc); }
static void release(void* addr) { if (alive > 1) { vc_join(sync_of(addr)->vc, th[me].vc); th[me].vc[me]++; } }

static bool ep_ready(void* ep);
static uint64_t peek(uintptr_t addr, int size)
{
	switch (size) {
	case 1: return *(volatile uint8_t*)addr;
	case 2: return *(volatile uint16_t*)addr;
	case 4: return *(volatile uint32_t*)addr;
	default: return *(volatile uint64_t*)addr;
	}
}

static bool enabled(int t)
{
	Thread* x = &th[t];
	if (!x->used) return false;
	switch (x->kind) {
	case K_RUN:   return true;
	case K_MUTEX: return sync_of(x->obj)->owner == -1;
	case K_COND:  return x->deadline && x->deadline <= vnow && sync_of(x->mutex)->owner == -1;
	case K_EPOLL: return ep_ready(x->obj) || (x->deadline && x->deadline <= vnow);
	case K_JOIN:  return th[(intptr_t)x->obj].kind == K_DONE;
	case K_SPIN:  return peek((uintptr_t)x->obj, x->sp_size) != x->sp_wait;
	}
	return false;
}

static int deadline_min(void)
{
	int best = -1;
	for (int i = 0; i < nth; i++)
		if (th[i].used && (th[i].kind == K_EPOLL || th[i].kind == K_COND) && th[i].deadline > vnow && (best < 0 || th[i].deadline < th[best].deadline))
			best = i;
	return best;
}

static void stuck(const char* what) __attribute__((noreturn));
static void stuck(const char* what)
{
	char text[2048]; int n = 0;
	for (int i = 0; i < nth; i++) {
		if (!th[i].used || th[i].kind == K_DONE) continue;
		char sym[256];
		symbol(th[i].at, sym, sizeof(sym));
		n += snprintf(text + n, sizeof(text) - n, " thread %d: %s in %s;", i, kind_name[th[i].kind], sym);
	}
	mc_fail(what, "no thread can run:%s%s%s", text, describe ? " " : "", describe ? describe() : "");
}

static void trace(const char* what, int to)
{
	static int on = -1;
	if (on < 0) on = mc_replaying() && getenv("SC_TRACE");
	if (!on) return;
	char sym[256];
	symbol(th[me].at, sym, sizeof(sym));
	printf("    [T%d %s -> T%d] before %s\n", me, what, to, sym);
	fflush(stdout);
}

static void go_to(int t)
{
	if (t == me) return;
	futex_wake(&go[t]);
	futex_wait(&go[me]);
}

// the current thread cannot go on (its kind says why): run another one. returns when it can
static void pass(bool ending)
{
	for (;;) {
		int en[NT], n = 0;
		for (int k = 1; k <= nth; k++) {
			int t = (me + k) % nth;
			if (enabled(t)) en[n++] = t;
		}
		if (n == 0) {
			// spinning threads last: their value may depend on something else
			for (int k = 1; k <= nth; k++) {
				int t = (me + k) % nth;
				if (th[t].used && th[t].kind == K_IDLE) { en[n++] = t; break; }
			}
			if (n == 0)
				for (int k = 1; k <= nth; k++) {
					int t = (me + k) % nth;
					if (th[t].used && th[t].kind == K_SPIN && th[t].sp_retry < 64) { th[t].sp_retry++; en[n++] = t; break; }
				}
		}
		if (n == 0) {
			int d = deadline_min();
			if (d < 0) stuck("deadlock");
			vnow = th[d].deadline;
			continue;
		}
		int c = n == 1 ? 0 : (flags & SC_DELAY) ? mc_cost(n, 1) : mc_choose(n);
		int t = en[c];
		trace("waits", t);
		if (ending) { futex_wake(&go[t]); return; }
		go_to(t);
		break;
	}
	th[me].kind = K_RUN;
}

static void tso_flush(void);
static void point(uintptr_t pc)
{
	th[me].at = pc;
	mc_step(1);
	if (++ops > 400000) stuck("livelock");
	if (alive < 2) return;
	int en[NT], n = 0;
	en[n++] = me;
	for (int k = 1; k < nth; k++) {
		int t = (me + k) % nth;
		if (enabled(t)) en[n++] = t;
	}
	int d = (flags & SC_TIME) ? deadline_min() : -1;
	if (n == 1 && d < 0) return;
	int c = mc_cost(n + (d >= 0), 1);
	if (c == 0) return;
	// a delayed store stays delayed while the others run
	if (c == n) { vnow = th[d].deadline; trace("time", d); if (enabled(d)) go_to(d); return; }
	trace("preempted", en[c]);
	go_to(en[c]);
}

// ---------------------------------------------------------------- accesses

typedef struct { uintptr_t pc; uint32_t clk; uint8_t tid, w, at; } Acc;
typedef struct { uintptr_t key; uint32_t exec; int n; Acc a[NACC]; } Loc;
static Loc locs[NLOC];

static struct { uintptr_t pc; uint32_t gen; bool has; } pcs[1 << 14];
static uint32_t pc_gen = 1;
static bool promoted(uintptr_t pc)
{
	int i = (pc * 0x9e3779b97f4a7c15ull) >> 50;
	if (pcs[i].pc == pc && pcs[i].gen == pc_gen) return pcs[i].has;
	pcs[i].pc = pc; pcs[i].gen = pc_gen;
	return pcs[i].has = mc_dyn_has(off(pc));
}

static void note(uintptr_t addr, uintptr_t pc, bool w, bool at)
{
	uintptr_t key = addr >> 3;
	uint32_t i = (key * 0x9e3779b97f4a7c15ull) >> 48;
	Loc* l = &locs[i];
	for (int probe = 0; probe < 8 && l->exec == exec_no && l->key != key; probe++) l = &locs[(i + probe + 1) & (NLOC - 1)];
	if (l->exec != exec_no || l->key != key) { l->exec = exec_no; l->key = key; l->n = 0; }
	uint32_t* vc = th[me].vc;
	Acc* same = NULL;
	for (int k = 0; k < l->n; k++) {
		Acc* a = &l->a[k];
		if (a->tid == me) {
			if (a->pc == pc && a->w == w) same = a;
			continue;
		}
		if (!a->w && !w) continue;
		if ((a->at && at) || a->clk > vc[a->tid]) {
			if (!promoted(a->pc)) mc_dyn_add(off(a->pc));
			if (!promoted(pc)) mc_dyn_add(off(pc));
		}
	}
	if (!same) same = l->n < NACC ? &l->a[l->n++] : &l->a[(pc >> 2) % NACC];
	same->pc = pc; same->clk = vc[me]; same->tid = me; same->w = w; same->at = at;
}

static bool ignored(uintptr_t addr)
{
	return &__start_mcmon && addr >= (uintptr_t)&__start_mcmon && addr < (uintptr_t)&__stop_mcmon;
}

static void memcheck(uintptr_t addr, int size, uintptr_t pc)
{
	if (addr < (uintptr_t)arena || addr >= (uintptr_t)arena + ARENA) return;
	uint8_t s = ast[(addr - (uintptr_t)arena) / GRAN];
	if (__builtin_expect(s == 1, 1)) return;
	char sym[256], sig[300];
	symbol(pc, sym, sizeof(sym));
	const char* what = s == 2 ? "use-after-free" : "wild-access";
	snprintf(sig, sizeof(sig), "%s:%s", what, sym);
	mc_fail(sig, "%s of %d bytes in %s by thread %d", what, size, sym, me);
}

static void bad_free(void* p)
{
	if (!active) return;
	mc_fail("double-free", "%p is released twice by thread %d", p, me);
}

static void spin_reset(Thread* t) { t->sp_n[0] = t->sp_n[1] = 0; }

// a thread which reads the same place again and again without doing anything
// else waits for another one to change it
static void spin_check(uintptr_t addr, int size, uintptr_t pc, int kind)
{
	Thread* t = &th[me];
	uint64_t v = peek(addr, size > 8 ? 8 : size);
	if (t->sp_pc[kind] == pc && t->sp_addr[kind] == addr && t->sp_val[kind] == v) {
		if (++t->sp_n[kind] >= 3 && alive > 1) {
			tso_flush();
			t->kind = K_SPIN; t->obj = (void*)addr; t->sp_wait = v; t->sp_size = size > 8 ? 8 : size;
			t->at = pc;
			if (++spins > 20000) stuck("livelock");
			pass(false);
			t->sp_n[kind] = 0;
			if (peek(addr, t->sp_size) != v) t->sp_retry = 0;
		}
	} else {
		t->sp_pc[kind] = pc; t->sp_addr[kind] = addr; t->sp_val[kind] = v; t->sp_n[kind] = 0;
	}
}

static inline void plain(uintptr_t addr, int size, uintptr_t pc, bool w)
{
	if (!active || ignored(addr)) return;
	memcheck(addr, size, pc);
	if (alive < 2) return;
	Thread* t = &th[me];
	if (t->sb && (w || (addr < t->sb_addr + t->sb_size && t->sb_addr < addr + size))) tso_flush();
	if (w) spin_reset(t); else spin_check(addr, size, pc, 0);
	if (promoted(pc)) { point(pc); memcheck(addr, size, pc); }
	note(addr, pc, w, false);
}

static void plain_range(uintptr_t addr, size_t size, uintptr_t pc, bool w)
{
	if (!active || size == 0 || ignored(addr)) return;
	memcheck(addr, size, pc);
	memcheck(addr + size - 1, size, pc);
	if (alive < 2) return;
	if (th[me].sb) tso_flush();
	if (w) spin_reset(&th[me]);
	if (promoted(pc)) point(pc);
	if (size > 256) size = 256;
	for (size_t i = 0; i < size; i += 8) note(addr + i, pc, w, false);
}

// visible operation
static void visible(uintptr_t addr, uintptr_t pc, bool w)
{
	if (!active) return;
	if (alive < 2) return;
	if (promoted(pc)) point(pc);
	note(addr, pc, w, true);
	if (w) spin_reset(&th[me]);
}

#define PC ((uintptr_t)__builtin_return_address(0))
#define RW(n) \
void __tsan_read##n(void* a) { plain((uintptr_t)a, n, PC, false); } \
void __tsan_write##n(void* a) { plain((uintptr_t)a, n, PC, true); } \
void __tsan_unaligned_read##n(void* a) { plain((uintptr_t)a, n, PC, false); } \
void __tsan_unaligned_write##n(void* a) { plain((uintptr_t)a, n, PC, true); } \
void __tsan_read_write##n(void* a) { plain((uintptr_t)a, n, PC, true); } \
void __tsan_unaligned_read_write##n(void* a) { plain((uintptr_t)a, n, PC, true); } \
void __tsan_volatile_read##n(void* a) { plain((uintptr_t)a, n, PC, false); } \
void __tsan_volatile_write##n(void* a) { plain((uintptr_t)a, n, PC, true); } \
void __tsan_unaligned_volatile_read##n(void* a) { plain((uintptr_t)a, n, PC, false); } \
void __tsan_unaligned_volatile_write##n(void* a) { plain((uintptr_t)a, n, PC, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void* p) {}
void __tsan_func_exit(void) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { plain_range((uintptr_t)s, n, PC, false); plain_range((uintptr_t)d, n, PC, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { plain_range((uintptr_t)s, n, PC, false); plain_range((uintptr_t)d, n, PC, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { plain_range((uintptr_t)d, n, PC, true); return memset(d, c, n); }
void __tsan_read_range(void* a, size_t n) { plain_range((uintptr_t)a, n, PC, false); }
void __tsan_write_range(void* a, size_t n) { plain_range((uintptr_t)a, n, PC, true); }

static void poke(uintptr_t addr, int size, uint64_t v)
{
	switch (size) {
	case 1: *(volatile uint8_t*)addr = v; break;
	case 2: *(volatile uint16_t*)addr = v; break;
	case 4: *(volatile uint32_t*)addr = v; break;
	default: *(volatile uint64_t*)addr = v; break;
	}
}
static void tso_flush(void)
{
	Thread* t = &th[me];
	if (!t->sb) return;
	// the others may run while the store is still delayed
	point(t->sb_pc);
	t->sb = false;
	poke(t->sb_addr, t->sb_size, t->sb_val);
	if (t->sb_mo >= __ATOMIC_RELEASE) release((void*)t->sb_addr);
}
#define ACQ(mo) ((mo) == __ATOMIC_CONSUME || (mo) == __ATOMIC_ACQUIRE || (mo) >= __ATOMIC_ACQ_REL)
#define REL(mo) ((mo) >= __ATOMIC_RELEASE)

static uint64_t at_load(uintptr_t a, int size, int mo, uintptr_t pc)
{
	if (active && !ignored(a)) {
		memcheck(a, size, pc);
		Thread* t = &th[me];
		if (t->sb && t->sb_addr == a) return t->sb_val;
		if (mo == __ATOMIC_SEQ_CST) {} // a seq_cst load does not drain the buffer on x86
		if (alive > 1) {
			spin_check(a, size, pc, 1);
			visible(a, pc, false);
			memcheck(a, size, pc);
			if (ACQ(mo)) acquire((void*)a);
		}
	}
	return peek(a, size);
}
static void at_store(uintptr_t a, int size, uint64_t v, int mo, uintptr_t pc)
{
	if (active && !ignored(a)) {
		memcheck(a, size, pc);
		tso_flush();
		visible(a, pc, true);
		memcheck(a, size, pc);
		if ((flags & SC_TSO) && mo != __ATOMIC_SEQ_CST && alive > 1 && promoted(pc) && mc_budget_left() > 0 && mc_cost(2, 1)) {
			Thread* t = &th[me];
			t->sb = true; t->sb_addr = a; t->sb_size = size; t->sb_val = v; t->sb_mo = mo; t->sb_pc = pc;
			trace("delays store", me);
			return;
		}
		if (alive > 1 && REL(mo)) release((void*)a);
	}
	poke(a, size, v);
}
static void at_rmw(uintptr_t a, int size, int mo, uintptr_t pc)
{
	if (!active || ignored(a)) return;
	memcheck(a, size, pc);
	tso_flush();
	visible(a, pc, true);
	memcheck(a, size, pc);
	if (alive < 2) return;
	if (ACQ(mo)) acquire((void*)a);
	if (REL(mo)) release((void*)a);
}
#define AT(n, T) \
T __tsan_atomic##n##_load(const volatile T* a, int mo) { return (T)at_load((uintptr_t)a, n / 8, mo, PC); } \
void __tsan_atomic##n##_store(volatile T* a, T v, int mo) { at_store((uintptr_t)a, n / 8, v, mo, PC); } \
T __tsan_atomic##n##_exchange(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = v; return o; } \
T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = o + v; return o; } \
T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = o - v; return o; } \
T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = o & v; return o; } \
T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = o | v; return o; } \
T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = o ^ v; return o; } \
T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int mo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; *a = ~(o & v); return o; } \
int __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { at_rmw((uintptr_t)a, n / 8, mo, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
int __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { at_rmw((uintptr_t)a, n / 8, mo, PC); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { at_rmw((uintptr_t)a, n / 8, mo, PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { if (active && mo == __ATOMIC_SEQ_CST) tso_flush(); }
void __tsan_atomic_signal_fence(int mo) {}

// ---------------------------------------------------------------- pthread

int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);

static void* entry(void* arg)
{
	me = (int)(intptr_t)arg;
	for (;;) {
		futex_wait(&go[me]);
		Thread* t = &th[me];
		t->ret = t->fn(t->arg);
		tso_flush();
		t->vc[me]++;
		t->kind = K_DONE;
		alive--;
		pass(true);
	}
	return NULL;
}

int __wrap_pthread_create(pthread_t* id, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
	if (!active) {
		// the main task of the runtime runs the scenarios and becomes thread 0;
		// its background threads never run, scenarios start their own
		static int n;
		if (n++ == 0) return __real_pthread_create(id, attr, fn, arg);
		*id = 1;
		return 0;
	}
	if (nth == NT) mc_fail("harness", "too many threads");
	tso_flush();
	int t = nth++;
	memset(&th[t], 0, sizeof(th[t]));
	th[t].used = 1; th[t].fn = fn; th[t].arg = arg; th[t].kind = K_RUN;
	th[me].vc[me]++;
	memcpy(th[t].vc, th[me].vc, sizeof(th[t].vc));
	th[t].vc[t] = 1;
	th[me].vc[me]++;
	alive++;
	if (!pool[t].used) {
		if (__real_pthread_create(&pool[t].id, NULL, entry, (void*)(intptr_t)t)) mc_fail("harness", "pthread_create failed");
		pool[t].used = true;
	}
	th[t].real = pool[t].id;
	*id = th[t].real;
	return 0;
}

int __wrap_pthread_join(pthread_t id, void** ret)
{
	int t = -1;
	for (int i = 0; i < nth; i++) if (th[i].used && !th[i].joined && i && th[i].real == id) t = i;
	if (t < 0) { if (active) mc_fail("join", "join of an unknown thread"); return EINVAL; }
	tso_flush();
	if (th[t].kind != K_DONE) {
		th[me].at = PC;
		th[me].kind = K_JOIN; th[me].obj = (void*)(intptr_t)t;
		pass(false);
	}
	vc_join(th[me].vc, th[t].vc);
	th[t].joined = 1;
	if (ret) *ret = th[t].ret;
	return 0;
}

int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { if (active) sync_of(m)->owner = -1; memset(m, 0, sizeof(*m)); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m)
{
	if (active && sync_of(m)->owner != -1) mc_fail("mutex-destroy", "a locked mutex is destroyed");
	return 0;
}
static void take(pthread_mutex_t* m)
{
	Sync* s = sync_of(m);
	s->owner = me;
	acquire(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active) return 0;
	memcheck((uintptr_t)m, 8, PC);
	tso_flush();
	visible((uintptr_t)m, PC, true);
	memcheck((uintptr_t)m, 8, PC);
	Sync* s = sync_of(m);
	if (s->owner == me) mc_fail("mutex-relock", "thread %d locks a mutex it holds", me);
	if (s->owner != -1) { th[me].at = PC; th[me].kind = K_MUTEX; th[me].obj = m; pass(false); }
	take(m);
	return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!active) return 0;
	tso_flush();
	visible((uintptr_t)m, PC, true);
	Sync* s = sync_of(m);
	if (s->owner != -1) return EBUSY;
	take(m);
	return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!active) return 0;
	memcheck((uintptr_t)m, 8, PC);
	tso_flush();
	Sync* s = sync_of(m);
	if (s->owner != me) mc_fail("mutex-unlock", "thread %d releases a mutex it does not hold", me);
	s->owner = -1;
	release(m);
	return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { memset(c, 0, sizeof(*c)); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t* c)
{
	if (active)
		for (int i = 0; i < nth; i++)
			if (th[i].used && th[i].kind == K_COND && th[i].obj == c) mc_fail("cond-destroy", "a condition variable is destroyed while thread %d waits for it", i);
	return 0;
}
static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline, uintptr_t pc)
{
	if (!active) for (;;) pause(); // the main thread waits for the main task
	tso_flush();
	memcheck((uintptr_t)c, 8, pc);
	Sync* s = sync_of(m);
	if (s->owner != me) mc_fail("cond-mutex", "waiting without holding the mutex");
	// a wakeup which is not ordered by the mutex may come before the wait begins
	if (alive > 1) { if (promoted(pc)) point(pc); note((uintptr_t)c, pc, true, false); }
	s->owner = -1;
	release(m);
	Thread* t = &th[me];
	t->at = pc; t->kind = K_COND; t->obj = c; t->mutex = m; t->woken = false; t->seq = ++seq; t->deadline = deadline;
	pass(false);
	t->deadline = 0;
	acquire(c);
	take(m);
	return t->woken ? 0 : ETIMEDOUT;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait_(c, m, 0, PC); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
	if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
	uint64_t d = ts->tv_sec * 1000000000ull + ts->tv_nsec;
	return cond_wait_(c, m, d ? d : 1, PC);
}
static void cond_wake(pthread_cond_t* c, bool all, uintptr_t pc)
{
	if (!active) return;
	memcheck((uintptr_t)c, 8, pc);
	tso_flush();
	visible((uintptr_t)c, pc, true);
	release(c);
	for (;;) {
		int w[NT], n = 0;
		for (int i = 0; i < nth; i++) if (th[i].used && th[i].kind == K_COND && th[i].obj == c) w[n++] = i;
		if (!n) return;
		int k = all ? 0 : mc_choose(n);
		th[w[k]].kind = K_MUTEX; th[w[k]].obj = th[w[k]].mutex; th[w[k]].woken = true;
		if (!all) return;
	}
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) { cond_wake(c, false, PC); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { cond_wake(c, true, PC); return 0; }
int __wrap_pthread_setname_np(pthread_t t, const char* n) { return 0; }
int __wrap_pthread_sigmask(int how, const sigset_t* s, sigset_t* o) { return 0; }
int __wrap_sched_yield(void) { if (active) sc_yield(); return 0; }
pid_t __wrap_gettid(void) { return 1000 + me; }
int __wrap_usleep(useconds_t us) { if (active) sc_yield(); return 0; }

// ---------------------------------------------------------------- time

int __wrap_clock_gettime(clockid_t c, struct timespec* ts) { ts->tv_sec = vnow / 1000000000ull; ts->tv_nsec = vnow % 1000000000ull; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void* z) { tv->tv_sec = vnow / 1000000000ull; tv->tv_usec = vnow % 1000000000ull / 1000; return 0; }
time_t __wrap_time(time_t* t) { time_t v = vnow / 1000000000ull; if (t) *t = v; return v; }

// ---------------------------------------------------------------- event descriptors

enum { EVBASE = 2000000, NEV = 256, EPBASE = 3000000, NEP = 64, NREG = 32 };
typedef struct { int used; uint64_t count; } Ev;
typedef struct { int used; int n; struct { int fd; uint32_t events; epoll_data_t data; } r[NREG]; } Ep;
static Ev evs[NEV];
static Ep eps[NEP];
#define IS_EV(fd) ((fd) >= EVBASE && (fd) < EVBASE + NEV)
#define IS_EP(fd) ((fd) >= EPBASE && (fd) < EPBASE + NEP)

int __wrap_eventfd(unsigned init, int fl)
{
	for (int i = 0; i < NEV; i++) if (!evs[i].used) { evs[i].used = 1; evs[i].count = init; return EVBASE + i; }
	errno = EMFILE; return -1;
}
int __wrap_epoll_create(int n)
{
	for (int i = 0; i < NEP; i++) if (!eps[i].used) { eps[i].used = 1; eps[i].n = 0; return EPBASE + i; }
	errno = EMFILE; return -1;
}
int __wrap_epoll_create1(int n) { return __wrap_epoll_create(1); }
int __wrap_epoll_ctl(int epfd, int op, int fd, struct epoll_event* e)
{
	if (!IS_EP(epfd) || !eps[epfd - EPBASE].used || !IS_EV(fd) || !evs[fd - EVBASE].used) { errno = EBADF; return -1; }
	Ep* ep = &eps[epfd - EPBASE];
	int at = -1;
	for (int i = 0; i < ep->n; i++) if (ep->r[i].fd == fd) at = i;
	if (op == EPOLL_CTL_ADD) {
		if (at >= 0) { errno = EEXIST; return -1; }
		if (ep->n == NREG) { errno = ENOSPC; return -1; }
		at = ep->n++;
		ep->r[at].fd = fd;
	} else if (at < 0) { errno = ENOENT; return -1; }
	if (op == EPOLL_CTL_DEL) { ep->r[at] = ep->r[--ep->n]; return 0; }
	ep->r[at].events = e->events; ep->r[at].data = e->data;
	return 0;
}
static bool ep_ready(void* p)
{
	Ep* ep = p;
	for (int i = 0; i < ep->n; i++)
		if (((ep->r[i].events & EPOLLIN) && evs[ep->r[i].fd - EVBASE].count) || (ep->r[i].events & EPOLLOUT)) return true;
	return false;
}
int __wrap_epoll_wait(int epfd, struct epoll_event* out, int max, int timeout)
{
	if (!IS_EP(epfd) || !eps[epfd - EPBASE].used) { errno = EBADF; return -1; }
	Ep* ep = &eps[epfd - EPBASE];
	tso_flush();
	visible((uintptr_t)ep, PC, true);
	if (!ep_ready(ep)) {
		if (timeout == 0) return 0;
		if (!active) mc_fail("harness", "waiting for events outside of sc_begin()");
		Thread* t = &th[me];
		t->at = PC; t->kind = K_EPOLL; t->obj = ep; t->deadline = timeout < 0 ? 0 : vnow + timeout * 1000000ull;
		pass(false);
		t->deadline = 0;
	}
	int n = 0;
	for (int i = 0; i < ep->n && n < max; i++) {
		uint32_t ev = 0;
		if ((ep->r[i].events & EPOLLIN) && evs[ep->r[i].fd - EVBASE].count) ev |= EPOLLIN;
		if (ep->r[i].events & EPOLLOUT) ev |= EPOLLOUT;
		if (!ev) continue;
		out[n].events = ev; out[n].data = ep->r[i].data;
		n++;
	}
	return n;
}
ssize_t read(int fd, void* buf, size_t n)
{
	if (!IS_EV(fd)) return syscall(SYS_read, fd, buf, n);
	Ev* e = &evs[fd - EVBASE];
	if (!e->used) { errno = EBADF; return -1; }
	tso_flush();
	if (active) visible((uintptr_t)e, PC, true);
	if (!e->count) { errno = EAGAIN; return -1; }
	memcpy(buf, &e->count, 8);
	e->count = 0;
	if (active) acquire(e);
	return 8;
}
ssize_t write(int fd, const void* buf, size_t n)
{
	if (!IS_EV(fd)) return syscall(SYS_write, fd, buf, n);
	Ev* e = &evs[fd - EVBASE];
	if (active) {
		tso_flush();
		visible((uintptr_t)e, PC, true);
		// makes the poller ready
		for (int i = 0; i < NEP; i++)
			if (eps[i].used) for (int k = 0; k < eps[i].n; k++) if (eps[i].r[k].fd == fd) note((uintptr_t)&eps[i], PC, true, true);
		release(e);
	}
	if (!e->used) { errno = EBADF; return -1; }
	uint64_t v;
	memcpy(&v, buf, 8);
	e->count += v;
	return 8;
}
int close(int fd)
{
	if (IS_EV(fd)) { evs[fd - EVBASE].used = 0; return 0; }
	if (IS_EP(fd)) { eps[fd - EPBASE].used = 0; return 0; }
	return syscall(SYS_close, fd);
}

// file operations of crashfs.c
void sched_io_point(const void* inode)
{
	if (!active) return;
	tso_flush();
	if (alive > 1 && !(flags & SC_NOIO)) point(PC);
}

// ---------------------------------------------------------------- control

void sc_begin(int preemptions, int fl)
{
	if (active) mc_fail("harness", "sc_begin() twice");
	static int pinned;
	if (!pinned) {
		pinned = 1;
		cpu_set_t all, one;
		if (sched_getaffinity(0, sizeof(all), &all) == 0) {
			int n = CPU_COUNT(&all), want = mc_shard() % (n ? n : 1), k = 0;
			for (int i = 0; i < CPU_SETSIZE; i++)
				if (CPU_ISSET(i, &all) && k++ == want) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof(one), &one); break; }
		}
	}
	exec_no++;
	pc_gen++;
	memset(th, 0, sizeof(th));
	nth = 1; alive = 1; me = 0; flags = fl; ops = 0; spins = 0; seq = 0;
	vnow = 1700000000000000000ull;
	th[0].used = 1; th[0].vc[0] = 1;
	describe = NULL;
	mc_budget(preemptions);
	active = 1;
}
void sc_end(void)
{
	for (int i = 1; i < nth; i++)
		if (th[i].used && !th[i].joined) mc_fail("harness", "thread %d has not been joined", i);
	tso_flush();
	active = 0;
	quarantine_flush();
}
int  sc_self(void) { return me; }
uint64_t sc_now_ms(void) { return vnow / 1000000; }
void sc_point(void) { if (active) point(PC); }
int  sc_threads(void) { return alive - 1; }
void sc_hook(const char* (*fn)(void)) { describe = fn; }
void sc_yield(void)
{
	if (!active || alive < 2) return;
	tso_flush();
	int en[NT], n = 0;
	for (int k = 1; k < nth; k++) { int t = (me + k) % nth; if (enabled(t)) en[n++] = t; }
	if (!n) return;
	th[me].at = PC;
	if (++ops > 400000) stuck("livelock");
	go_to(en[n == 1 ? 0 : (flags & SC_DELAY) ? mc_cost(n, 1) : mc_choose(n)]);
}
void sc_idle(void)
{
	if (!active || alive < 2) return;
	tso_flush();
	th[me].at = PC; th[me].kind = K_IDLE;
	pass(false);
}
