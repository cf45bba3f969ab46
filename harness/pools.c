// C21: shared pools and counters. Nothing is handed out twice or lost,
// counters only move forward.
#include "am.h"
#include "sc.h"

#ifndef SCHED
#include <amelie_row.h>
// ------------------------------------------------- one thread: the ordered list of identifiers

enum { IDS = 6 };
static void s_ids(void)
{
	IdMgr m;
	id_mgr_init(&m);
	bool in[IDS + 2] = { 0 };
	int depth = mc_q(5, 6);
	uint64_t h = 0;
	for (int step = 0; step < depth; step++) {
		int op = mc_choose(4), id = op == 3 ? 0 : 1 + mc_choose(IDS);
		switch (op) {
		case 0:
			if (in[id]) { mc_log("stop "); id_mgr_free(&m); return; } // identifiers are unique
			mc_log("add %d ", id);
			id_mgr_add(&m, id);
			in[id] = true;
			break;
		case 1:
			mc_log("delete %d ", id);
			id_mgr_delete(&m, id);
			in[id] = false;
			break;
		case 2: {
			// everything before the last one which is not above the limit goes
			mc_log("gc %d ", id);
			Buf dest;
			buf_init(&dest);
			int n = id_mgr_gc_between(&m, &dest, id);
			int keep = 0, first = 0, got = 0;
			for (int i = 1; i <= IDS; i++) if (in[i]) { if (!first) first = i; if (i <= id) keep = i; }
			if (!keep) keep = first;
			uint64_t* list = buf_u64(&dest);
			for (int i = 1; i < keep; i++)
				if (in[i]) {
					mc_check(got < n && list[got] == (uint64_t)i, "gc", "identifier %d was not removed", i);
					got++;
					in[i] = false;
				}
			mc_check(got == n && buf_size(&dest) == n * (int)sizeof(uint64_t), "gc", "%d identifiers removed, expected %d", n, got);
			if (n) mc_nontrivial();
			buf_free(&dest);
			break;
		}
		case 3:
			mc_log("reset ");
			id_mgr_reset(&m);
			memset(in, 0, sizeof(in));
			break;
		}
		// every question
		uint64_t min = UINT64_MAX, max = UINT64_MAX;
		int count = 0;
		for (int i = 1; i <= IDS; i++) if (in[i]) { if (min == UINT64_MAX) min = i; max = i; count++; }
		mc_check(id_mgr_min(&m) == min && id_mgr_max(&m) == max, "min-max", "min %ld, max %ld", (long)id_mgr_min(&m), (long)id_mgr_max(&m));
		int c; uint64_t mn;
		id_mgr_stats(&m, &c, &mn);
		mc_check(c == count && mn == min, "stats", "count %d, expected %d", c, count);
		for (int v = 0; v <= IDS + 1; v++) {
			uint64_t le = UINT64_MAX, gt = UINT64_MAX; int n = 0;
			for (int i = 1; i <= IDS; i++) if (in[i]) { if (i <= v) { le = i; n++; } else if (gt == UINT64_MAX) gt = i; }
			mc_check(id_mgr_find(&m, v) == le, "find", "find(%d) = %ld, expected %ld", v, (long)id_mgr_find(&m, v), (long)le);
			mc_check(id_mgr_next(&m, v) == gt, "next", "next(%d) = %ld, expected %ld", v, (long)id_mgr_next(&m, v), (long)gt);
			Buf dest;
			buf_init(&dest);
			mc_check(id_mgr_copy(&m, &dest, v) == n && buf_size(&dest) == n * (int)sizeof(uint64_t), "copy", "copy(%d)", v);
			n = 0;
			for (int i = 1; i <= v && i <= IDS; i++) if (in[i]) mc_check(buf_u64(&dest)[n++] == (uint64_t)i, "copy", "copy(%d) order", v);
			buf_free(&dest);
		}
		h = mc_hash(depth - step, in, sizeof(in));
		if (!mc_visit(h)) break;
	}
	id_mgr_free(&m);
}

// counters: next, follow and set in any order
static void s_counters(void)
{
	Opt opt;
	opt_init(&opt, "x", OPT_INT, 0);
	Sequence seq;
	sequence_init(&seq);
	static const int64_t follow[] = { 0, 1, 2, 3, 7, INT64_MAX - 1, INT64_MAX, -1, -2, INT64_MIN };
	uint64_t model = 0, top = 0; // the next sequence value; the last identifier
	for (int step = 0; step < mc_q(4, 5); step++) {
		int op = mc_choose(4);
		if (op == 0) {
			mc_log("next ");
			uint64_t v = sequence_next(&seq), n = opt_int_set_next(&opt);
			mc_check(v == model, "sequence", "sequence gave %lu, expected %lu", v, model);
			mc_check(n == top + 1, "counter", "counter gave %lu, expected %lu", n, top + 1);
			model++; top++;
		} else if (op == 1) {
			int64_t v = follow[mc_choose(10)];
			mc_log("follow %ld ", (long)v);
			mc_nontrivial();
			sequence_sync(&seq, v);
			// a value which was stored with a row is not handed out again;
			// negative ones never are
			if (v >= 0 && (uint64_t)v >= model) model = (uint64_t)v + 1;
			mc_check(sequence_get(&seq) == model, "sequence-follow", "sequence would give %lu after following %ld, expected %lu", sequence_get(&seq), (long)v, model);
			if (v >= 0) {
				opt_int_follow(&opt, v);
				if ((uint64_t)v > top) top = v;
			}
			mc_check(opt_int_of(&opt) == top, "counter-follow", "counter is %lu after following %ld, expected %lu", opt_int_of(&opt), (long)v, top);
		} else if (op == 2) {
			int n = mc_choose(3);
			mc_log("reserve %d ", n);
			mc_check(sequence_add(&seq, n) == model, "sequence-add", "reserved range begins elsewhere");
			opt_int_add(&opt, n);
			model += n; top += n;
		} else {
			mc_log("set 5 ");
			sequence_set(&seq, 5);
			opt_int_set(&opt, 5);
			model = top = 5;
		}
	}
	sequence_free(&seq);
	opt_free(&opt);
}
McScenario mc_scenarios[] = { { "ids", s_ids }, { "counters", s_counters }, { 0 } };

#else
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
// ------------------------------------------------- threads

enum { NTASK = 3, NSLOT = 64 };
static Task tasks[NTASK];
static void* owned[NSLOT] SC_MON;
static int   owner[NSLOT] SC_MON;
static int   per SC_MON, ntask SC_MON;

static void own(void* p, int t, const char* what)
{
	for (int i = 0; i < NSLOT; i++)
		mc_check(owned[i] != p, "twice", "%s %p was handed to task %d while task %d has it", what, p, t, owner[i]);
	for (int i = 0; i < NSLOT; i++) if (!owned[i]) { owned[i] = p; owner[i] = t; return; }
	mc_fail("harness", "too many objects");
}
static void disown(void* p)
{
	for (int i = 0; i < NSLOT; i++) if (owned[i] == p) { owned[i] = NULL; return; }
	mc_fail("harness", "unknown object");
}

static void run_(int n, int pre, int fl, void (*fn)(void*))
{
	ntask = n;
	for (int i = 0; i < n; i++) { task_init(&tasks[i]); task_create(&tasks[i], "t", fn, (void*)(intptr_t)i); }
	for (int i = 0; i < n; i++) { task_wait(&tasks[i]); task_free(&tasks[i]); }
}

// ---- buffers
static BufCache bc;
static Buf* shared_buf;
static int  drops SC_MON;
static void b_use(Buf* b, int t, int size)
{
	mc_check(buf_empty(b) && b->refs == 0, "dirty", "task %d got a buffer with %d bytes and %d references", t, buf_size(b), (int)b->refs);
	buf_reserve(b, size);
	memset(b->start, 'a' + t, size);
	buf_advance(b, size);
	sc_point();
	mc_check(buf_size(b) == size, "changed", "buffer of task %d changed its size", t);
	for (int i = 0; i < size; i++) mc_check(b->start[i] == 'a' + t, "changed", "buffer of task %d was overwritten", t);
}
static void t_buf(void* arg)
{
	int t = (int)(intptr_t)arg;
	for (int k = 0; k < per; k++) {
		Buf* b = buf_cache_create(&bc, 8);
		own(b, t, "buffer");
		b_use(b, t, 8 + k * 8);
		disown(b);
		buf_free(b);
	}
	if (shared_buf) {
		// the last one who leaves gives it back
		mc_check(shared_buf->start[0] == 'S' && buf_size(shared_buf) == 1, "shared", "a shared buffer was recycled while task %d still uses it", t);
		if (++drops == ntask) disown(shared_buf);
		buf_free(shared_buf);
		Buf* b = buf_cache_create(&bc, 1);
		own(b, t, "buffer");
		b_use(b, t, 2);
		disown(b);
		buf_free(b);
	}
}
static int b_count(void)
{
	int n = 0;
	for (Buf* b = bc.cache; b && n < 100; b = b->cache_next) n++;
	return n;
}
static void s_buf(void)
{
	int n = 2 + mc_choose(2), warm = mc_choose(3), share = mc_choose(2);
	per = n == 2 ? 1 + mc_choose(2) : 1;
	mc_log("%d tasks take %d buffers each, %d free ones%s", n, per, warm, share ? ", and share one" : "");
	if (share && (n > 2 || per > 1) && !mc_tier) return;
	if (!mc_split()) return;
	memset(owned, 0, sizeof(owned));
	drops = 0;
	sc_begin(mc_q(n > 2 ? 2 : 3, n > 2 ? 3 : 4), n > 2 ? SC_DELAY : 0);
	buf_cache_init(&bc, 32 * 1024);
	Buf* w[3];
	for (int i = 0; i < warm; i++) w[i] = buf_cache_create(&bc, 4);
	for (int i = 0; i < warm; i++) { buf_write(w[i], "old", 4); buf_free(w[i]); }
	shared_buf = NULL;
	if (share) {
		shared_buf = buf_cache_create(&bc, 1);
		buf_write(shared_buf, "S", 1);
		for (int i = 1; i < n; i++) buf_ref(shared_buf);
		own(shared_buf, -1, "buffer");
	}
	run_(n, 0, 0, t_buf);
	int left = b_count();
	mc_check(left >= warm && left <= (warm > n ? warm : n) + share, "lost", "%d free buffers at the end, %d at the beginning, %d users", left, warm, n);
	buf_cache_free(&bc);
	sc_end();
	mc_outcome(left);
	mc_nontrivial();
}

// buffers of the whole process, in turn from eight pools
static void t_bufmgr(void* arg)
{
	int t = (int)(intptr_t)arg;
	Buf* b[2];
	for (int k = 0; k < per; k++) {
		b[k] = buf_create();
		own(b[k], t, "buffer");
		b_use(b[k], t, 3);
	}
	for (int k = 0; k < per; k++) { disown(b[k]); buf_free(b[k]); }
	Buf* c = buf_create();
	own(c, t, "buffer");
	b_use(c, t, 5);
	disown(c);
	buf_free(c);
}
static void s_bufmgr(void)
{
	per = 1;
	int at = mc_choose(8);
	if (!mc_split()) return;
	memset(owned, 0, sizeof(owned));
	sc_begin(2, 0);
	BufMgr* m = &runtime()->buf_mgr;
	// every pool has one free buffer
	Buf* all[8];
	for (int i = 0; i < 8; i++) all[i] = buf_create();
	for (int i = 0; i < 8; i++) buf_free(all[i]);
	m->seq = at;
	run_(2, 0, 0, t_bufmgr);
	sc_end();
	mc_nontrivial();
}

// ---- compression contexts
static CodecCache cc;
static void t_codec(void* arg)
{
	int t = (int)(intptr_t)arg;
	for (int k = 0; k < per; k++) {
		auto c = compression_create(&cc, COMPRESSION_ZSTD, 0);
		own(c, t, "codec");
		sc_point();
		disown(c);
		codec_cache_push(&cc, c);
	}
}
static void s_codec(void)
{
	int n = 2 + mc_choose(2), warm = mc_choose(3);
	per = n == 2 ? 2 : 1;
	mc_log("%d tasks take %d codecs each, %d free ones", n, per, warm);
	if (!mc_split()) return;
	memset(owned, 0, sizeof(owned));
	sc_begin(mc_q(2, 3), n > 2 ? SC_DELAY : 0);
	codec_cache_init(&cc);
	Codec* w[3];
	for (int i = 0; i < warm; i++) w[i] = compression_create(&cc, COMPRESSION_ZSTD, 0);
	for (int i = 0; i < warm; i++) codec_cache_push(&cc, w[i]);
	run_(n, 0, 0, t_codec);
	int left = 0;
	list_foreach(&cc.list) { auto c = list_at(Codec, link); mc_check(c->iface->id == COMPRESSION_ZSTD, "foreign", "unknown codec in the cache"); left++; }
	mc_check(left >= warm && left <= (warm > n ? warm : n), "lost", "%d free codecs at the end, %d at the beginning, %d users", left, warm, n);
	codec_cache_free(&cc);
	sc_end();
	mc_outcome(left);
	mc_nontrivial();
}

// ---- identifiers and sequences
static Sequence seq;
static Opt opt;
static Random rnd;
static Uuid uuids[NTASK][2];
static uint64_t got[NSLOT] SC_MON;
static int ngot SC_MON;
static uint64_t floor_ SC_MON;         // every value up to this one was seen by a completed call
static int plan[NTASK][2] SC_MON;
enum { P_NEXT, P_FOLLOW3, P_FOLLOW9, P_ADD2, P_READ, P_MAX };
static const char* plan_name[] = { "next", "follow 3", "follow 9", "reserve 2", "read" };
static void take(uint64_t v, uint64_t from)
{
	mc_check(v > from, "backwards", "value %lu was handed out although %lu was already in use before", (unsigned long)v, (unsigned long)from);
	for (int i = 0; i < ngot; i++) mc_check(got[i] != v, "duplicate", "value %lu was handed out twice", (unsigned long)v);
	got[ngot++] = v;
}
static void done(uint64_t v) { if (v > floor_) floor_ = v; }

// sequence values start at 0, they are counted from 1 here
static void t_seq(void* arg)
{
	int t = (int)(intptr_t)arg;
	for (int k = 0; k < per; k++) {
		uint64_t from = floor_;
		switch (plan[t][k]) {
		case P_NEXT: { uint64_t v = sequence_next(&seq) + 1; take(v, from); done(v); break; }
		case P_FOLLOW3: sequence_sync(&seq, 2); done(3); break;
		case P_FOLLOW9: sequence_sync(&seq, 8); done(9); break;
		case P_ADD2: { uint64_t v = sequence_add(&seq, 2) + 1; take(v, from); take(v + 1, from); done(v + 1); break; }
		case P_READ: { uint64_t v = sequence_get(&seq); mc_check(v >= from, "backwards", "the sequence stands at %lu although %lu was already in use", (unsigned long)v, (unsigned long)from); done(v); break; }
		}
	}
}
static void t_opt(void* arg)
{
	int t = (int)(intptr_t)arg;
	for (int k = 0; k < per; k++) {
		uint64_t from = floor_;
		switch (plan[t][k]) {
		case P_NEXT: { uint64_t v = opt_int_set_next(&opt); take(v, from); done(v); break; }
		case P_FOLLOW3: opt_int_follow(&opt, 3); done(3); break;
		case P_FOLLOW9: opt_int_follow(&opt, 9); done(9); break;
		case P_ADD2: opt_int_add(&opt, 2); done(from + 2); break;
		case P_READ: { uint64_t v = opt_int_of(&opt); mc_check(v >= from, "backwards", "the counter stands at %lu although it was %lu before", (unsigned long)v, (unsigned long)from); done(v); break; }
		}
	}
}
static void counters(void (*fn)(void*), int n)
{
	per = n == 2 ? 2 : 1;
	for (int t = 0; t < n; t++)
		for (int k = 0; k < per; k++) plan[t][k] = mc_choose(P_MAX);
	int start = mc_choose(2) ? 8 : 1;
	// tasks are equal
	for (int t = 1; t < n; t++)
		if (memcmp(plan[t - 1], plan[t], sizeof(plan[0])) > 0) return;
	if (!mc_split()) return;
	for (int t = 0; t < n; t++) mc_log("task %d: %s%s%s; ", t, plan_name[plan[t][0]], per > 1 ? ", " : "", per > 1 ? plan_name[plan[t][1]] : "");
	mc_log("from %d", start);
	ngot = 0;
	floor_ = start;
	sc_begin(mc_q(2, 4), 0);
	sequence_init(&seq);
	sequence_set(&seq, start);
	opt_init(&opt, "x", OPT_INT, 0);
	opt_int_set(&opt, start);
	run_(n, 0, 0, fn);
	uint64_t end = fn == t_seq ? sequence_get(&seq) : opt_int_of(&opt);
	mc_check(end >= floor_, "backwards", "the counter stands at %lu at the end, %lu is in use", (unsigned long)end, (unsigned long)floor_);
	sc_end();
	mc_outcome(end);
	mc_nontrivial();
}
static void s_seq2(void) { counters(t_seq, 2); }
static void s_seq3(void) { counters(t_seq, 3); }
static void s_opt2(void) { counters(t_opt, 2); }
static void s_opt3(void) { counters(t_opt, 3); }

static void t_uuid(void* arg)
{
	int t = (int)(intptr_t)arg;
	for (int k = 0; k < per; k++) uuid_generate(&uuids[t][k], &rnd);
}
static void s_uuid(void)
{
	int n = 2 + mc_choose(2);
	per = n == 2 ? 2 : 1;
	mc_log("%d tasks generate %d identifiers each", n, per);
	if (!mc_split()) return;
	sc_begin(mc_q(n > 2 ? 2 : 3, n > 2 ? 3 : 5), 0);
	random_init(&rnd);
	rnd.seed[0] = 0x9e3779b97f4a7c15ull;
	rnd.seed[1] = 0xbf58476d1ce4e5b9ull;
	run_(n, 0, 0, t_uuid);
	for (int a = 0; a < n * per; a++)
		for (int b = 0; b < a; b++) {
			auto x = &uuids[a / per][a % per], y = &uuids[b / per][b % per];
			mc_check(x->a != y->a && x->a != y->b && x->b != y->a && x->b != y->b, "random-twice", "two identifiers were generated from the same random value");
		}
	for (int a = 0; a < n * per; a++) mc_check(uuids[a / per][a % per].a != uuids[a / per][a % per].b, "random-twice", "both halves of an identifier are equal");
	sc_end();
	mc_nontrivial();
}

// ---- list of identifiers
static IdMgr ids;
static void t_ids(void* arg)
{
	int t = (int)(intptr_t)arg;
	switch (plan[t][0]) {
	case 0: id_mgr_add(&ids, 10 + t); break;
	case 1: id_mgr_delete(&ids, 1 + t); break;
	case 2: { uint64_t v = id_mgr_find(&ids, 5); mc_check(v >= 1 && v <= 4, "find", "find gave %ld", (long)v); break; }
	case 3: { uint64_t v = id_mgr_max(&ids); mc_check(v == 4 || (v >= 10 && v < 13), "max", "max is %ld", (long)v); break; }
	case 4: {
		uint64_t v = 0; int n = 0;
		while ((v = id_mgr_next(&ids, v)) != UINT64_MAX) { n++; mc_check((v >= 1 && v <= 4) || (v >= 10 && v < 13), "next", "next gave %ld", (long)v); }
		mc_check(n >= 1, "next", "only %d identifiers were found", n);
		break;
	}
	case 5: {
		Buf b; buf_init(&b);
		int n = id_mgr_copy(&ids, &b, 12);
		for (int i = 1; i < n; i++) mc_check(buf_u64(&b)[i] > buf_u64(&b)[i - 1], "copy", "copied list is not in order");
		mc_check(n >= 1 && n <= 7, "copy", "%d identifiers copied", n);
		buf_free(&b);
		break;
	}
	}
}
static void s_ids(void)
{
	int n = 2 + mc_choose(2);
	for (int t = 0; t < n; t++) plan[t][0] = mc_choose(6);
	if (!mc_split()) return;
	for (int t = 0; t < n; t++) mc_log("%d ", plan[t][0]);
	sc_begin(mc_q(n > 2 ? 2 : 3, n > 2 ? 3 : 4), n > 2 ? SC_DELAY : 0);
	id_mgr_init(&ids);
	for (int i = 1; i <= 4; i++) id_mgr_add(&ids, i);
	run_(n, 0, 0, t_ids);
	bool in[16] = { 0 };
	int count = 4;
	for (int i = 1; i <= 4; i++) in[i] = true;
	for (int t = 0; t < n; t++) {
		if (plan[t][0] == 0) { in[10 + t] = true; count++; }
		if (plan[t][0] == 1) { in[1 + t] = false; count--; }
	}
	uint64_t v = 0;
	for (int i = 1; i < 16; i++) if (in[i]) { v = id_mgr_next(&ids, v); mc_check(v == (uint64_t)i, "content", "identifier %d is missing at the end", i); }
	mc_check(id_mgr_next(&ids, v) == UINT64_MAX && ids.list_count == count, "content", "too many identifiers at the end");
	id_mgr_free(&ids);
	sc_end();
	mc_nontrivial();
}
// ---- the lock of the pools itself
static Spinlock spin;
static int inside SC_MON, entered SC_MON;
static void t_spin(void* arg)
{
	unused(arg);
	for (int k = 0; k < per; k++) {
		spinlock_lock(&spin);
		mc_check(++inside == 1, "exclusion", "two tasks hold the same spinlock");
		sc_point();
		entered++;
		inside--;
		spinlock_unlock(&spin);
	}
}
static void s_spin(void)
{
	int n = 2 + mc_choose(2);
	per = n == 2 ? 2 : 1;
	if (!mc_split()) return;
	inside = entered = 0;
	sc_begin(mc_q(n == 2 ? 4 : 3, n == 2 ? 6 : 4), 0);
	spinlock_init(&spin);
	run_(n, 0, 0, t_spin);
	mc_check(entered == n * per, "lost", "%d of %d critical sections ran", entered, n * per);
	spinlock_free(&spin);
	sc_end();
	mc_nontrivial();
}
McScenario mc_scenarios[] = { { "spinlock", s_spin }, { "buffers", s_buf }, { "buffer-pools", s_bufmgr }, { "codecs", s_codec }, { "sequence", s_seq2 }, { "sequence3", s_seq3 },
	{ "counter", s_opt2 }, { "counter3", s_opt3 }, { "uuid", s_uuid }, { "ids", s_ids }, { 0 } };
#endif
