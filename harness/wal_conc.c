// C04: concurrent use of the log. Writers, the background worker, followers
// and cleanup run on their own threads; every record has to be in the log once,
// in order, where a lookup by position finds it, and on disk when asked for.
#include "walkit.h"
#include "sc.h"
#include <malloc.h>

enum { NW = 2, NB = 5 };
static Batch  b_[NW][NB];
static bool   acked[NW][NB] SC_MON;
static Task   tasks[4];
static int    writes SC_MON, writers SC_MON;
static bool   durable_acks SC_MON;
static Wal*   wal(void) { return &sim.mgr.wal; }

static const char*
describe_(void)
{
	static char text[128];
	int n = 0;
	for (int i = 0; i < NW; i++) for (int k = 0; k < NB; k++) n += acked[i][k];
	snprintf(text, sizeof(text), "%d writes done, worker requests %x", n, sim.mgr.wal_worker.pending);
	return text;
}

// files in order of their identifiers
static int
t_files(uint64_t* ids)
{
	static char names[64][256];
	int n = cfs_list("/mem/wal", names, 64);
	for (int i = 0; i < n; i++) {
		uint64_t id = strtoull(names[i], NULL, 10);
		int k = i;
		while (k > 0 && ids[k - 1] > id) { ids[k] = ids[k - 1]; k--; }
		ids[k] = id;
	}
	return n;
}

static bool
t_holds(uint8_t* data, size_t size, uint64_t lsn)
{
	for (size_t at = 0; at + sizeof(Record) <= size;) {
		auto r = (Record*)(data + at);
		if (r->size < sizeof(Record) || at + r->size > size) return false;
		if (r->lsn == lsn) return true;
		at += r->size;
	}
	return false;
}

static char*
t_path(uint64_t id)
{
	static char path[64];
	sprintf(path, "/mem/wal/%" PRIu64, id);
	return path;
}

// record survives any crash from now on
static bool
t_durable(uint64_t lsn)
{
	uint64_t ids[64];
	int n = t_files(ids);
	for (int i = 0; i < n; i++) {
		size_t size;
		uint8_t* data = cfs_synced(t_path(ids[i]), &size);
		if (t_holds(data, size, lsn)) return true;
	}
	return false;
}

// once a file is followed by another one which has records it is completely on disk
static void
t_no_hole(void)
{
	uint64_t ids[64];
	int n = t_files(ids);
	bool later = false;
	for (int i = n - 1; i >= 0; i--) {
		size_t size, synced;
		cfs_data(t_path(ids[i]), &size);
		cfs_synced(t_path(ids[i]), &synced);
		mc_check(! later || size == synced, "hole", "log file %lu has %zu bytes of %zu on disk, and records were written to a later file", ids[i], synced, size);
		later |= size > 0;
	}
}

static void
t_write(int i, int k)
{
	auto b = &b_[i][k];
	auto failed = error_catch( wal_mgr_write(&sim.mgr, &b->list) );
	mc_check(! failed, "write-failed", "write %d of writer %d failed: %s", k, i, am_error_text());
	acked[i][k] = true;
	for (int t = 0; t < b->count; t++) {
		uint64_t lsn = b->txn[t].write.header.lsn;
		mc_check(! durable_acks || t_durable(lsn), "sync-lost", "write %lu was acknowledged, but the file it went to was not synced", lsn);
	}
	mc_check(b->list.lsn == b->txn[b->count - 1].write.header.lsn, "list-lsn", "list position %lu", b->list.lsn);
	if (opt_int_of(&config()->wal_sync_on_close)) t_no_hole();
}

static void
w_main(void* arg)
{
	int i = (int)(intptr_t)arg;
	for (int k = 0; k < writes; k++) t_write(i, k);
}

static int
t_expected(void)
{
	int n = 0;
	for (int i = 0; i < writers; i++) for (int k = 0; k < writes; k++) n += b_[i][k].count;
	return n;
}

static void
t_begin(int writers_, int writes_, int size, bool worker, bool sync_write, bool sync_create, bool sync_close)
{
	mallopt(M_PERTURB, 0x5a);
	cfs_reset();
	cfs_mkdir("/mem");
	sim_reset();
	got_reset();
	writers = writers_;
	writes = writes_;
	memset(acked, 0, sizeof(acked));
	wal_config(true, size, sync_write, sync_create, sync_close);
	opt_int_set(&config()->wal_worker, worker);
	durable_acks = sync_write;
	for (int i = 0; i < writers; i++)
		for (int k = 0; k < writes; k++)
			batch_build(&b_[i][k], (i + k) % 2);
	for (int i = 0; i < 4; i++) task_init(&tasks[i]);
	wal_mgr_init(&sim.mgr);
	mc_nontrivial();
}

// what the log holds at the end
static void
t_end(void)
{
	for (int i = 0; i < writers; i++)
		for (int k = 0; k < writes; k++)
			batch_expect(&b_[i][k], true, 0);
	// by position
	for (int i = 0; i < sim.count; i++)
		for (int j = i + 1; j < sim.count; j++) {
			mc_check(sim.recs[i].lsn != sim.recs[j].lsn, "twice", "position %lu was given twice", sim.recs[i].lsn);
			if (sim.recs[j].lsn < sim.recs[i].lsn) { RefRec t = sim.recs[i]; sim.recs[i] = sim.recs[j]; sim.recs[j] = t; }
		}
	opt_int_set(&config()->wal_worker, false);
	wal_mgr_free(&sim.mgr);
	sim_start();
	sim_verify("after the run");
	// files hold ranges, lookups find every record
	for (int i = 0; i < sim.count; i++) {
		uint64_t lsn = sim.recs[i].lsn;
		mc_check(lsn == (uint64_t)i + 1, "positions", "record %d has position %lu", i, lsn);
		WalCursor c;
		wal_cursor_init(&c);
		wal_cursor_open(&c, wal(), lsn, true, true);
		int n = i;
		for (; wal_cursor_next(&c); n++) {
			auto r = wal_cursor_at(&c);
			mc_check(n < sim.count && r->size == (uint32_t)sim.recs[n].size && ! memcmp(r, sim.recs[n].bytes, r->size), "lookup",
			         "reading from position %lu: record %lu instead of %d", lsn, (uint64_t)r->lsn, n + 1);
		}
		mc_check(n == sim.count, "lookup", "reading from position %lu ends before %d of %d", lsn, n + 1, sim.count);
		wal_cursor_close(&c);
	}
	sim_stop();
	wal_mgr_free(&sim.mgr);
	mc_check(cfs_open_fds() == 0, "fds", "%d descriptors left open", cfs_open_fds());
	mc_step(sim.count);
	for (int i = 0; i < writers; i++)
		for (int k = 0; k < writes; k++) batch_free(&b_[i][k]);
}

static void
t_stop(void)
{
	wal_mgr_stop(&sim.mgr);
	if (opt_int_of(&config()->wal_sync_on_close))
		for (int i = 0; i < t_expected(); i++)
			mc_check(t_durable(i + 1), "close-sync", "record %d is not on disk after a stop which had to sync", i + 1);
}

// ---------------------------------------------------------------- writers and the worker
static const int sizes[] = { 1, 300, 100000 };

static void
s_rotate(void)
{
	int sync = mc_choose(6), size = mc_choose(2);
	static const int modes[] = { 0, 1, 2, 4, 6, 7 };
	int m = modes[sync];
	mc_log("one writer, worker, size %d, sync on write %d create %d close %d", sizes[size], m & 1, !!(m & 2), !!(m & 4));
	if (! mc_split()) return;
	t_begin(1, mc_q(3, 4), sizes[size], true, m & 1, m & 2, m & 4);
	sc_begin(mc_q(2, 3), 0);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	w_main(0);
	t_stop();
	sc_end();
	t_end();
}

static void
s_writers(void)
{
	int worker = mc_choose(2), sync = mc_choose(3), size = mc_choose(2);
	static const int modes[] = { 0, 5, 7 };
	int m = modes[sync];
	mc_log("two writers, worker %d, size %d, sync on write %d create %d close %d", worker, sizes[size], m & 1, !!(m & 2), !!(m & 4));
	if (! mc_split()) return;
	t_begin(2, 2, sizes[size], worker, m & 1, m & 2, m & 4);
	sc_begin(mc_q(2, 3), SC_DELAY);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	for (int i = 0; i < 2; i++) task_create(&tasks[i], "w", w_main, (void*)(intptr_t)i);
	for (int i = 0; i < 2; i++) { task_wait(&tasks[i]); task_free(&tasks[i]); }
	t_stop();
	sc_end();
	t_end();
}

// ---------------------------------------------------------------- follower
static WalSlot f_slot;
static int     f_fault SC_MON, f_ahead SC_MON, f_got SC_MON, f_size SC_MON;
static uint8_t f_bytes[16384] SC_MON;

// the follower got what the log holds
static void
f_verify(void)
{
	int at = 0;
	for (int i = 0; i < sim.count; i++) {
		auto r = &sim.recs[i];
		mc_check(at + r->size <= f_size && ! memcmp(f_bytes + at, r->bytes, r->size), "follower-other", "the follower got another record %d than the one in the log", i + 1);
		at += r->size;
	}
	mc_check(at == f_size, "follower-more", "the follower got more records than the log holds");
}

static void
f_take(WalCursor* c)
{
	auto p = c->buf.start;
	while (p < c->buf.position) {
		auto r = (Record*)p;
		f_got++;
		mc_check(r->lsn == (uint64_t)f_got, "follower-order", "the follower got record %lu instead of %d", (uint64_t)r->lsn, f_got);
		mc_check(record_validate(r), "follower-damaged", "the follower got a damaged record %d", f_got);
		mc_check(f_size + (int)r->size <= (int)sizeof(f_bytes), "harness", "too many bytes");
		memcpy(f_bytes + f_size, r, r->size);
		f_size += r->size;
		p += r->size;
	}
}

// as the replication does it
static void
f_client(WalCursor* c, uint64_t* lsn)
{
	int total = t_expected();
	wal_slot_set(&f_slot, *lsn);
	wal_attach(wal(), &f_slot);
	wal_cursor_open(c, wal(), *lsn + 1, true, true);
	while (f_got < total) {
		auto lsn_max = state_lsn();
		uint64_t last = *lsn;
		if (wal_cursor_readahead(c, f_ahead, &last, lsn_max) > 0) {
			f_take(c);
			*lsn = last;
			wal_slot_set(&f_slot, last);
			continue;
		}
		Event on_event;
		event_init(&on_event);
		event_set_parent(&f_slot.on_write, &on_event);
		event_wait(&on_event, -1);
		event_set_parent(&f_slot.on_write, NULL);
	}
}

static void
f_main(void* arg)
{
	unused(arg);
	uint64_t lsn = 0;
	WalCursor c;
	wal_cursor_init(&c);
	for (int tries = 0;; tries++) {
		// a write which is taken back can end the connection, the next one goes on
		auto failed = error_catch( f_client(&c, &lsn) );
		wal_cursor_close(&c);
		if (! failed) break;
		mc_check(f_fault && tries < 3, "follower-error", "the follower fails: %s", am_error_text());
	}
}

static void
s_follow(void)
{
	int worker = mc_choose(2), size = mc_choose(3), ahead = mc_choose(2);
	mc_log("one writer, one follower, worker %d, size %d, readahead %d", worker, sizes[size], ahead);
	if (! mc_split()) return;
	t_begin(1, 3, sizes[size], worker, false, false, false);
	f_ahead = ahead ? 100000 : 1;
	f_got = f_size = 0;
	f_fault = 0;
	wal_slot_init(&f_slot);
	sc_begin(mc_q(2, 3), SC_DELAY);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	wal_add(wal(), &f_slot);
	task_create(&tasks[0], "f", f_main, NULL);
	w_main(0);
	task_wait(&tasks[0]);
	task_free(&tasks[0]);
	wal_del(wal(), &f_slot);
	t_stop();
	sc_end();
	t_end();
	f_verify();
}

// a write fails and is taken back while somebody follows
static void
s_follow_fault(void)
{
	int ahead = mc_choose(2), fail = mc_choose(4);
	mc_log("a failing write %d, one follower, readahead %d", fail, ahead);
	if (! mc_split()) return;
	t_begin(1, 2, 100000, false, false, false, false);
	f_ahead = ahead ? 100000 : 1;
	f_got = f_size = 0;
	f_fault = 1;
	wal_slot_init(&f_slot);
	sc_begin(mc_q(3, 4), SC_DELAY);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	wal_add(wal(), &f_slot);
	task_create(&tasks[0], "f", f_main, NULL);
	for (int k = 0; k < writes; k++) {
		if (k == 1) {
			Batch* b = &b_[1][0];
			batch_build(b, 1);
			cfs_fail_write(fail);
			auto failed = error_catch( wal_mgr_write(&sim.mgr, &b->list) );
			mc_check(failed, "harness", "write did not fail");
			batch_free(b);
		}
		t_write(0, k);
	}
	task_wait(&tasks[0]);
	task_free(&tasks[0]);
	wal_del(wal(), &f_slot);
	t_stop();
	sc_end();
	t_end();
	f_verify();
}

// ---------------------------------------------------------------- cleanup
static WalSlot g_slot;
static int     g_kind SC_MON;
static uint64_t g_listed[64];
static int     g_count SC_MON;

static void
g_main(void* arg)
{
	unused(arg);
	wal_gc(wal(), UINT64_MAX);
}

static void
g_snapshot(void* arg)
{
	unused(arg);
	auto data = buf_create();
	g_count = 0;
	auto failed = error_catch( wal_snapshot(wal(), &g_slot, data) );
	mc_check(! failed, "snapshot-failed", "snapshot failed: %s", am_error_text());
	// listed files exist as long as the slot is there
	uint8_t* pos = data->start;
	json_read_array(&pos);
	while (! json_read_array_end(&pos)) {
		json_read_array(&pos);
		Str name;
		json_read_string(&pos, &name);
		char path[64];
		sprintf(path, "/mem/%.*s", str_size(&name), str_of(&name));
		sc_point();
		mc_check(cfs_exists(path), "snapshot-file", "the snapshot lists %s, which was removed", path);
		while (! json_read_array_end(&pos)) json_skip(&pos);
		g_count++;
	}
	mc_check(g_count > 0, "snapshot-empty", "the snapshot lists no file");
	buf_free(data);
	wal_del(wal(), &g_slot);
}

static void
s_gc(void)
{
	g_kind = mc_choose(2);
	int worker = mc_choose(2);
	mc_log("cleanup against %s, worker %d", g_kind ? "rotation" : "a snapshot", worker);
	if (! mc_split()) return;
	t_begin(1, 3, 1, worker, false, false, false);
	wal_slot_init(&g_slot);
	wal_slot_init(&f_slot);
	sc_begin(mc_q(2, 3), SC_DELAY);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	if (g_kind == 0) {
		w_main(0);
		task_create(&tasks[0], "g", g_main, NULL);
		task_create(&tasks[1], "s", g_snapshot, NULL);
	} else {
		// a follower at the start keeps everything
		wal_slot_set(&f_slot, 1);
		wal_add(wal(), &f_slot);
		task_create(&tasks[0], "g", g_main, NULL);
		task_create(&tasks[1], "w", w_main, NULL);
	}
	for (int i = 0; i < 2; i++) { task_wait(&tasks[i]); task_free(&tasks[i]); }
	wal_del(wal(), &f_slot);
	t_stop();
	sc_end();
	if (g_kind) t_end();
	else {
		// what is left is a range up to the end
		uint64_t ids[64];
		int n = t_files(ids);
		mc_check(n >= 1, "gc-all", "no log file is left");
		wal_mgr_free(&sim.mgr);
		for (int k = 0; k < writes; k++) batch_free(&b_[0][k]);
	}
}

// ---------------------------------------------------------------- requests
// every request is performed: a sync which is asked for while others are pending
static void
r_main(void* arg)
{
	unused(arg);
	wal_worker_request(&sim.mgr.wal_worker, WAL_SYNC);
}

static void
s_requests(void)
{
	int size = mc_choose(3), at = mc_choose(3);
	bool stale = mc_choose(2); // as a second writer does, whose file was replaced meanwhile
	mc_log("sync requests after write %d, size %d%s", at, sizes[size], stale ? ", with a request for a file" : "");
	if (! mc_split()) return;
	t_begin(1, 3, sizes[size], true, false, false, false);
	sc_begin(mc_q(2, 3), SC_DELAY);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	for (int k = 0; k <= at; k++) t_write(0, k);
	if (stale) wal_worker_request(&sim.mgr.wal_worker, WAL_CREATE);
	task_create(&tasks[0], "r", r_main, NULL);
	task_wait(&tasks[0]);
	task_free(&tasks[0]);
	sc_idle();
	// the newest file was synced
	uint64_t ids[64];
	int n = t_files(ids);
	bool last = false;
	for (int i = n - 1; i >= 0 && ! last; i--) {
		size_t size_, synced;
		cfs_data(t_path(ids[i]), &size_);
		cfs_synced(t_path(ids[i]), &synced);
		last = size_ > 0;
		mc_check(i < n - 1 || size_ == synced, "request-lost", "a sync was requested after the last write, %zu bytes of %zu of file %lu are on disk", synced, size_, ids[i]);
	}
	for (int k = at + 1; k < writes; k++) t_write(0, k);
	t_stop();
	sc_end();
	t_end();
}

// periodic sync
static void
p_main(void* arg)
{
	unused(arg);
	auto p = &sim.mgr.wal_periodic;
	wal_periodic_start(p);
	mc_check(p->coroutine_id != -1, "periodic", "periodic sync did not start");
	for (int k = 0; k < writes; k++) {
		t_write(0, k);
		if (k == writes - 2) coroutine_sleep(15);
	}
	coroutine_sleep(25);
	wal_periodic_stop(p);
}

// writers which run at the same time as the intervals end
static void
p_writer(void* arg)
{
	for (int k = 0; k < writes; k++) {
		coroutine_sleep(10);
		t_write(0, k);
	}
}

static void
p_others(void* arg)
{
	unused(arg);
	auto p = &sim.mgr.wal_periodic;
	wal_periodic_start(p);
	coroutine_sleep(10 * writes + 25);
	wal_periodic_stop(p);
}

static void
s_periodic(void)
{
	int others = mc_choose(3);
	mc_log("periodic sync, %s", others == 2 ? "another writer, small files" : others ? "another writer" : "same thread");
	if (! mc_split()) return;
	t_begin(1, 3, others == 2 ? 300 : 100000, true, false, false, others == 2);
	opt_string_set_raw(&config()->wal_sync_interval, "10 ms", 5);
	sc_begin(mc_q(2, 3), SC_DELAY);
	sc_hook(describe_);
	wal_mgr_start(&sim.mgr);
	task_create(&tasks[0], "p", others ? p_others : p_main, NULL);
	if (others) task_create(&tasks[1], "w", p_writer, NULL);
	for (int i = 0; i < (others ? 2 : 1); i++) { task_wait(&tasks[i]); task_free(&tasks[i]); }
	sc_idle();
	for (int i = 0; i < t_expected(); i++)
		mc_check(t_durable(i + 1), "periodic-sync", "record %d is not on disk two intervals later", i + 1);
	t_stop();
	sc_end();
	t_end();
}

McScenario mc_scenarios[] = {
	{ "rotate", s_rotate, 0 },
	{ "writers", s_writers, 0 },
	{ "follow", s_follow, 0 },
	{ "follow_fault", s_follow_fault, 0 },
	{ "gc", s_gc, 0 },
	{ "requests", s_requests, 0 },
	{ "periodic", s_periodic, 0 },
	{ NULL, NULL, 0 },
};
