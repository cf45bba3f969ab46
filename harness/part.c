// C13: transactions over a partition with a primary and secondary indexes,
// against a reference table with an undo stack; the committed write log is
// replayed into a replica partition the way recovery does.
#include "rowkit.h"

enum { K = 3, MAXTR = 3, MAXROWS = 64, MAXIDX = 3 };

typedef struct { int k, u, s; int64_t v; bool present; } MRow;
typedef struct {
	Tr*   tr;
	MRow  before[K];          // contents when the transaction began
	int64_t held[MAXROWS];    // ids of rows kept for undo
	int   nheld;
	bool  failed;
} MTr;

static Columns      columns;
static IndexConfig* cfg[MAXIDX];
static int          nidx;
static bool         uniq[MAXIDX];
static PartArg      arg;
static Sequence     seq, seq2;
static Uuid         uuid;
static Part *       part, *replica;
static MRow         now[K];
static MTr          trs[MAXTR];
static int          ntr;
static int64_t      next_id;
static Limit        limit;
static bool         use_limit;

// columns: pk, u (unique secondary), s (plain secondary), v
static Part*
t_part(Sequence* s, PartArg* a)
{
	a->seq = s;
	a->unlogged = false;
	a->id_table = &uuid;
	Id id = {0};
	id.id = 1;
	auto self = part_allocate(&id, a);
	for (int i = 0; i < nidx; i++)
		part_index_create(self, cfg[i]);
	return self;
}

static PartArg arg2;

static void
t_open(int primary_type, int u_type, int s_type)
{
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "pk", TYPE_INT, 8);
	kit_column(&columns, "u", TYPE_INT, 8);
	kit_column(&columns, "s", TYPE_INT, 8);
	kit_column(&columns, "v", TYPE_INT, 8);
	columns.identity = columns_first(&columns);
	nidx = 0;
	cfg[nidx] = kit_index(&columns, "primary", primary_type, true, true, 0);
	uniq[nidx++] = true;
	if (u_type >= 0) {
		cfg[nidx] = kit_index(&columns, "u", u_type, true, false, 1);
		uniq[nidx++] = true;
	}
	if (s_type >= 0) {
		// plain indexes have the primary key appended
		cfg[nidx] = kit_index(&columns, "s", s_type, false, false, 2);
		kit_key(&cfg[nidx]->keys, 0);
		uniq[nidx++] = false;
	}
	uuid_init(&uuid);
	sequence_init(&seq);
	sequence_init(&seq2);
	part    = t_part(&seq, &arg);
	replica = t_part(&seq2, &arg2);
	memset(now, 0, sizeof(now));
	ntr = 0;
	next_id = 1;
}

static Row*
t_row(Part* to, int k, int u, int s, int64_t v)
{
	int64_t values[4] = { k, u, s, v };
	auto tmp = kit_row_write(NULL, 4, values, NULL);
	auto row = row_copy(to->heap, tmp);
	free(tmp);
	return row;
}

static bool row_is(Row* row, MRow* r)
{
	return kit_int(row, 0) == r->k && kit_int(row, 1) == r->u && kit_int(row, 2) == r->s && kit_int(row, 3) == r->v;
}

static int
ucol(int i)
{
	return kit_int == NULL ? 0 : (i == 0 ? 0 : uniq[i] ? 1 : 2);
}

static int64_t
keyof(MRow* r, int i)
{
	int c = ucol(i);
	return c == 0 ? r->k : c == 1 ? r->u : (int64_t)r->s * 1000 + r->k;
}

// contents of every index
static void
t_verify(Part* p, MRow* rows, const char* what)
{
	int count = 0;
	for (int k = 0; k < K; k++) count += rows[k].present;
	int i = 0;
	for (auto index = p->indexes; index; index = index->next, i++) {
		auto it = index_iterator(index);
		iterator_open(it, NULL);
		bool seen[K] = {0};
		int  n = 0;
		int64_t last = INT64_MIN;
		while (iterator_has(it)) {
			auto row = iterator_at(it);
			int  k = kit_int(row, 0);
			mc_check(k >= 0 && k < K && rows[k].present && row_is(row, &rows[k]), "index-row",
			         "%s: index %d has row pk=%d u=%d s=%d v=%d which is not in the table", what, i, k, (int)kit_int(row, 1), (int)kit_int(row, 2), (int)kit_int(row, 3));
			mc_check(! seen[k], "index-twice", "%s: index %d returns row pk=%d twice", what, i, k);
			seen[k] = true;
			if (index->config->type == INDEX_TREE) {
				mc_check(keyof(&rows[k], i) > last, "index-order", "%s: index %d is not in key order", what, i);
				last = keyof(&rows[k], i);
			}
			n++;
			iterator_next(it);
		}
		iterator_close(it);
		mc_check(n == count, "index-lost", "%s: index %d has %d rows, the table has %d", what, i, n, count);
		// lookups of every key, present or not
		for (int k = 0; k < K; k++)
			for (int u = 0; u < 2; u++)
				for (int s = 0; s < 2; s++) {
					if (i == 0 && (u || s)) continue;
					if (i && uniq[i] && (k || s)) continue;
					if (i && ! uniq[i] && u) continue;
					MRow key = { k, u, s, 0, true };
					int64_t values[4] = { k, u, s, 0 };
					auto row = kit_row_write(NULL, 4, values, NULL);
					int expect = -1;
					for (int j = 0; j < K; j++)
						if (rows[j].present && keyof(&rows[j], i) == keyof(&key, i)) expect = j;
					it = index_iterator(index);
					bool found = iterator_open(it, row);
					mc_check(found == (expect >= 0), "lookup", "%s: index %d lookup of pk=%d u=%d s=%d: %s", what, i, k, u, s, found ? "found but absent" : "not found but present");
					if (found)
						mc_check(row_is(iterator_at(it), &rows[expect]), "lookup-row", "%s: index %d lookup returns another row", what, i);
					iterator_close(it);
					free(row);
				}
	}
}

// rows in the row store: the table plus what undo needs
static void
t_verify_heap(Part* p, MRow* rows, bool undo, const char* what)
{
	int64_t expect[MAXROWS * MAXTR + K];
	int     n = 0;
	for (int k = 0; k < K; k++) if (rows[k].present) expect[n++] = rows[k].v;
	if (undo)
		for (int t = 0; t < ntr; t++)
			for (int i = 0; i < trs[t].nheld; i++) expect[n++] = trs[t].held[i];
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, p->heap, NULL);
	int have = 0;
	while (heap_iterator_has(&it)) {
		auto v = kit_int(heap_iterator_at(&it), 3);
		bool ok = false;
		for (int i = 0; i < n; i++) if (expect[i] == v) { ok = true; expect[i] = -1; break; }
		mc_check(ok, "heap-extra", "%s: row v=%d is in the row store but neither in the table nor kept for undo", what, (int)v);
		have++;
		heap_iterator_next(&it);
	}
	mc_check(have == n, "heap-lost", "%s: row store has %d rows, expected %d", what, have, n);
}

static MTr* last(void) { return &trs[ntr - 1]; }

static void
t_begin(void)
{
	auto m = &trs[ntr++];
	memset(m, 0, sizeof(*m));
	m->tr = tr_allocate();
	tr_begin(m->tr);
	tr_set_id(m->tr, ntr);
	if (use_limit) {
		limit_init(&limit, 400);
		tr_set_limit(m->tr, &limit);
	}
	memcpy(m->before, now, sizeof(now));
}

// the row that a unique index other than the primary holds at this key
static bool
conflict(int k, int u)
{
	for (int i = 1; i < nidx; i++)
		if (uniq[i])
			for (int j = 0; j < K; j++)
				if (j != k && now[j].present && now[j].u == u) return true;
	return false;
}

typedef struct { Tr* tr; Row* row; Iterator* it; bool replace; bool result; } Call;
static void call_insert(Call* c) { part_insert(part, c->tr, c->replace, c->row); }
static void call_upsert(Call* c) { c->result = part_upsert(part, c->tr, c->it, c->row); }
static void call_update(Call* c) { part_update(part, c->tr, c->it, c->row); }
static void call_delete(Call* c) { part_delete(part, c->tr, c->it); }

static bool
t_call(void (*fn)(Call*), Call* c)
{
	return error_catch( fn(c); );
}

static void
set_now(int k, int u, int s, int64_t v)
{
	if (now[k].present)
		last()->held[last()->nheld++] = now[k].v;
	now[k] = (MRow){ k, u, s, v, true };
}

static bool
limit_hit(uint64_t size)
{
	return use_limit && limit.log_size_limit && (limit.log_size + size) >= limit.log_size_limit;
}

static void
op_insert(int k, int u, int s)
{
	auto v = next_id++;
	Call c = { last()->tr, t_row(part, k, u, s, v), NULL, false, false };
	bool dup = now[k].present || conflict(k, u);
	bool lim = limit_hit(row_size(c.row));
	bool err = t_call(call_insert, &c);
	mc_log("insert(%d,%d,%d)%s ", k, u, s, err ? "!" : "");
	if (! lim)
		mc_check(err == dup, "insert-dup", "insert pk=%d u=%d: %s, but the key is %s", k, u, err ? "rejected" : "accepted", dup ? "taken" : "free");
	if (err) { mc_check(dup || lim, "insert-rejected", "insert of a free key was rejected: %s", am_error_text()); last()->failed = true; return; }
	set_now(k, u, s, v);
}

static void
op_upsert(int k, int u, int s, bool update)
{
	auto v = next_id++;
	auto it = index_iterator(part_primary(part));
	Call c = { last()->tr, t_row(part, k, u, s, v), it, false, false };
	bool dup = ! now[k].present && conflict(k, u);
	bool lim = limit_hit(row_size(c.row));
	bool err = t_call(call_upsert, &c);
	mc_log("upsert(%d,%d,%d)%s ", k, u, s, err ? "!" : "");
	if (! lim || now[k].present)
		mc_check(err == dup, "upsert-dup", "upsert pk=%d u=%d: %s", k, u, err ? "rejected, but the key is free" : "accepted, but the key is taken");
	if (err) {
		iterator_close(it);
		last()->failed = true;
		return;
	}
	mc_check(c.result == now[k].present, "upsert-exists", "upsert pk=%d: %s", k, c.result ? "found, but absent" : "inserted, but present");
	mc_check(iterator_has(it) && kit_int(iterator_at(it), 0) == k, "upsert-at", "after upsert pk=%d the position is at another row", k);
	if (! c.result)
		set_now(k, u, s, v);
	else if (update) {
		// keys are not updated
		v = next_id++;
		Call d = { last()->tr, t_row(part, k, now[k].u, now[k].s, v), it, false, false };
		lim = limit_hit(row_size(d.row));
		err = t_call(call_update, &d);
		mc_log("(update)%s ", err ? "!" : "");
		mc_check(err == lim, "update-error", "update pk=%d failed: %s", k, am_error_text());
		if (err) last()->failed = true;
		else set_now(k, now[k].u, now[k].s, v);
	}
	iterator_close(it);
}

static void
op_delete(int k)
{
	mc_log("delete(%d) ", k);
	int64_t values[4] = { k, 0, 0, 0 };
	auto key = kit_row_write(NULL, 4, values, NULL);
	auto it = index_iterator(part_primary(part));
	bool found = iterator_open(it, key);
	free(key);
	mc_check(found == now[k].present, "lookup", "lookup pk=%d before delete: %s", k, found ? "found, but absent" : "not found");
	if (found) {
		Call c = { last()->tr, NULL, it, false, false };
		bool lim = limit_hit(row_size(iterator_at(it)));
		bool err = t_call(call_delete, &c);
		mc_check(err == lim, "delete-error", "delete pk=%d failed: %s", k, am_error_text());
		if (err) last()->failed = true;
		else {
			last()->held[last()->nheld++] = now[k].v;
			now[k].present = false;
		}
	}
	iterator_close(it);
}

// update or delete every row by a scan of an index
static void
op_scan(int i, bool update)
{
	mc_log("%s-all(index %d) ", update ? "update" : "delete", i);
	auto it = index_iterator(part_primary(part));
	iterator_open(it, NULL);
	int n = 0, count = 0;
	for (int k = 0; k < K; k++) count += now[k].present;
	while (iterator_has(it)) {
		auto row = iterator_at(it);
		int  k = kit_int(row, 0);
		mc_check(k >= 0 && k < K && now[k].present, "scan-stale", "a changing scan returns pk=%d which is not in the table", k);
		mc_check(n++ < count, "scan-twice", "a changing scan returns more rows than the table has");
		Call c = { last()->tr, NULL, it, false, false };
		int64_t v = 0;
		if (update) {
			v = next_id++;
			c.row = t_row(part, k, now[k].u, now[k].s, v);
		}
		bool lim = limit_hit(row_size(row));
		bool err = t_call(update ? call_update : call_delete, &c);
		mc_check(err == lim, "scan-error", "change in a scan failed: %s", am_error_text());
		if (err) { last()->failed = true; break; }
		if (update) set_now(k, now[k].u, now[k].s, v);
		else { last()->held[last()->nheld++] = now[k].v; now[k].present = false; }
		iterator_next(it);
	}
	if (! last()->failed)
		mc_check(n == count, "scan-missed", "a changing scan returned %d of %d rows", n, count);
	iterator_close(it);
	(void)i;
}

static void call_replay_insert(Call* c) { part_insert(replica, c->tr, true, c->row); }
static void call_replay_delete(Call* c) { part_delete_by(replica, c->tr, c->row); }

static void
op_commit(void)
{
	mc_log("commit ");
	auto m = &trs[0];
	// replay what will be written to the log
	auto log = &m->tr->log.write_log;
	Buf data;
	buf_init(&data);
	auto iov = iov_pointer(&log->iov);
	for (int i = 0; i < log->iov.iov_count; i++)
		buf_write(&data, iov[i].iov_base, iov[i].iov_len);
	mc_check(tr_persists(m->tr) == (buf_size(&data) > 0), "persists", "tr_persists() is wrong");
	auto r = tr_allocate();
	tr_begin(r);
	uint8_t* pos = data.start;
	uint8_t* meta = log->meta.start;
	while (meta < log->meta.position) {
		auto cmd = (RecordCmd*)meta;
		meta += sizeof(*cmd);
		mc_check(uuid_is(&cmd->id, &uuid), "log-id", "log command has another table id");
		mc_check(pos + cmd->size <= data.position, "log-size", "log command size is past the data");
		mc_check(record_validate_cmd(cmd, pos), "log-crc", "log command crc mismatch");
		auto end = pos + cmd->size;
		while (pos < end) {
			Call c = { r, (Row*)pos, NULL, false, false };
			auto size = row_size(c.row);
			bool err;
			if (cmd->cmd == CMD_REPLACE) {
				c.row = row_copy(replica->heap, c.row);
				err = t_call(call_replay_insert, &c);
			} else
				err = t_call(call_replay_delete, &c);
			mc_check(! err, "replay-error", "replay of the log failed: %s", am_error_text());
			pos += size;
		}
		mc_check(pos == end, "log-size", "log command size does not match its rows");
	}
	mc_check(pos == data.position, "log-size", "log data is not covered by the commands");
	buf_free(&data);
	tr_commit(r);
	tr_free(r);

	MRow committed[K];
	memcpy(committed, ntr > 1 ? trs[1].before : now, sizeof(committed));
	tr_commit(m->tr);
	tr_free(m->tr);
	ntr--;
	memmove(&trs[0], &trs[1], sizeof(trs[0]) * ntr);
	t_verify(replica, committed, "replica");
	t_verify_heap(replica, committed, false, "replica");
	int64_t max = -1;
	for (int k = 0; k < K; k++) if (committed[k].present && k > max) max = k;
	mc_check((int64_t)sequence_get(&seq2) >= max, "sequence", "replay left the identity sequence behind the rows");
}

static void
op_abort(void)
{
	mc_log("abort ");
	auto m = last();
	tr_abort(m->tr);
	tr_free(m->tr);
	memcpy(now, m->before, sizeof(now));
	ntr--;
}

static void
op_truncate(void)
{
	mc_log("truncate ");
	part_truncate(part);
	part_truncate(replica);
	memset(now, 0, sizeof(now));
}

static void t_check(void)
{
	if (ntr && last()->failed) return;
	t_verify(part, now, "table");
	t_verify_heap(part, now, true, "table");
}

static uint64_t
t_hash(int depth)
{
	// rows are named in order of appearance
	int64_t names[256]; int n = 0;
	uint64_t buf[512]; int c = 0;
	buf[c++] = depth;
	#define NAME(x) ({ int64_t v_ = (x); int j_ = 0; while (j_ < n && names[j_] != v_) j_++; if (j_ == n) names[n++] = v_; j_; })
	for (int k = 0; k < K; k++) buf[c++] = now[k].present ? 1 + now[k].u * 2 + now[k].s * 4 + NAME(now[k].v) * 8 : 0;
	buf[c++] = ntr;
	for (int t = 0; t < ntr; t++) {
		for (int k = 0; k < K; k++) buf[c++] = trs[t].before[k].present ? 1 + trs[t].before[k].u * 2 + trs[t].before[k].s * 4 + NAME(trs[t].before[k].v) * 8 : 0;
		buf[c++] = trs[t].failed;
		// undo entries in order
		auto log = &trs[t].tr->log;
		buf[c++] = log->count;
		for (int i = 0; i < log->count && c < 480; i++) {
			auto op = log_of(log, i);
			auto ref = log_row_of(log, op);
			buf[c++] = op->cmd + (op->iface_arg == part->indexes ? 0 : op->iface_arg == part->indexes->next ? 10 : 20);
			buf[c++] = ref->row ? NAME(kit_int(ref->row, 3)) + 1 : 0;
			buf[c++] = ref->row_prev ? NAME(kit_int(ref->row_prev, 3)) + 1 : 0;
		}
		buf[c++] = buf_size(&log->write_log.meta);
	}
	buf[c++] = use_limit ? limit.log_size : 0;
	return mc_hash(7, buf, sizeof(buf[0]) * c);
}

static void
t_close(void)
{
	while (ntr) op_abort();
	t_verify(part, now, "after abort");
	t_verify_heap(part, now, false, "after abort");
	part_free(part);
	part_free(replica);
	for (int i = 0; i < nidx; i++) index_config_free(cfg[i]);
	columns_free(&columns);
}

static void
t_explore(int depth)
{
	for (int d = 0; d < depth; d++) {
		if (ntr == 0) {
			// the table is truncated when nothing else runs
			bool any = false;
			for (int k = 0; k < K; k++) any |= now[k].present;
			if (any && mc_choose(2)) {
				op_truncate();
				t_check();
				t_verify(replica, now, "replica");
				t_verify_heap(replica, now, false, "replica");
			}
			t_begin();
		}
		if (last()->failed)
			op_abort();
		else {
			int op = mc_choose(6 + 6 + 3 + 2 + 3);
			if (op < 6) op_insert(op % 3, op / 3, op / 3);
			else if (op < 12) { op -= 6; op_upsert(op % 3, op / 3, (op / 3) ^ 1, true); }
			else if (op < 15) op_delete(op - 12);
			else if (op == 15) op_scan(0, true);
			else if (op == 16) op_scan(0, false);
			else if (op == 17) op_commit();
			else if (op == 18) op_abort();
			else { if (ntr == MAXTR) break; t_begin(); mc_log("begin "); }
		}
		mc_step(1);
		t_check();
		if (ntr > 1 || (ntr && last()->failed)) mc_nontrivial();
		if (! mc_visit(t_hash(depth - d))) break;
	}
	t_close();
}

static void s_hash_tree(void)  { use_limit = false; t_open(INDEX_HASH, -1, INDEX_TREE); t_explore(mc_q(6, 8)); }
static void s_tree_hash(void)  { use_limit = false; t_open(INDEX_TREE, INDEX_HASH, -1); t_explore(mc_q(6, 8)); }
static void s_three(void)      { use_limit = false; t_open(INDEX_TREE, INDEX_TREE, INDEX_HASH); t_explore(mc_q(6, 8)); }
static void s_limit(void)      { use_limit = true;  t_open(INDEX_HASH, INDEX_TREE, -1); t_explore(mc_q(5, 7)); }

McScenario mc_scenarios[] = {
	{ "hash_tree", s_hash_tree, 0 },
	{ "tree_hash", s_tree_hash, 0 },
	{ "three", s_three, 0 },
	{ "limit", s_limit, 0 },
	{ 0 },
};
