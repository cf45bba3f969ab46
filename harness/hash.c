// C10: hash index against a map. Small tables are explored over every sequence
// of operations with colliding keys, through every growth step; the real table
// size is explored from prepared fill levels.
#include "rowkit.h"

enum { MAXK = 600 };

static Columns      columns;
static IndexConfig* config;
static Index*       idx;
static Row*         rows[MAXK][2];  // two versions of every key
static Row*         now[MAXK];      // reference: key -> row, or NULL
static int          nkeys;
static int64_t      keys[MAXK];

static void
keys_pick(const uint32_t* hashes, int n, uint32_t mod)
{
	// integers whose hash falls on the wanted slot
	nkeys = n;
	int64_t v = 1;
	for (int i = 0; i < n; i++) {
		for (;; v++) {
			Row* row = kit_row2(v, 0);
			uint32_t h = row_hash(row, &config->keys);
			free(row);
			if (h % mod == hashes[i]) break;
		}
		keys[i] = v++;
		rows[i][0] = kit_row2(keys[i], 100 + i);
		rows[i][1] = kit_row2(keys[i], 200 + i);
		now[i] = NULL;
	}
}

static void
keys_range(int n)
{
	nkeys = n;
	for (int i = 0; i < n; i++) {
		keys[i] = i + 1;
		rows[i][0] = kit_row2(keys[i], 100 + i);
		rows[i][1] = kit_row2(keys[i], 200 + i);
		now[i] = NULL;
	}
}

static void
t_open(int size)
{
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "a", TYPE_INT, 8);
	kit_column(&columns, "b", TYPE_INT, 8);
	config = kit_index(&columns, "pk", INDEX_HASH, true, true, 0);
	idx = index_hash_allocate(config, NULL);
	if (size) {
		// same table, smaller
		auto hash = &index_hash_of(idx)->hash;
		hash_free(hash);
		hash->keys    = &config->keys;
		hash->current = &hash->a;
		hash_store_create(hash->current, &config->keys, size);
	}
}

static void
t_close(void)
{
	index_free(idx);
	index_config_free(config);
	columns_free(&columns);
	for (int i = 0; i < nkeys; i++) { free(rows[i][0]); free(rows[i][1]); }
}

static int
key_of(Row* row)
{
	int64_t v = kit_int(row, 0);
	for (int i = 0; i < nkeys; i++)
		if (keys[i] == v) return i;
	return -1;
}

static Row*
other(int k)
{
	return now[k] == rows[k][0] ? rows[k][1] : rows[k][0];
}

static void
verify(void)
{
	static int seen[MAXK];
	memset(seen, 0, sizeof(int) * nkeys);
	auto it = index_iterator(idx);
	iterator_open(it, NULL);
	while (iterator_has(it)) {
		auto row = iterator_at(it);
		int k = key_of(row);
		mc_check(k >= 0 && now[k] == row, "scan-wrong", "scan returns a row which is not present (key #%d)", k);
		mc_check(! seen[k]++, "scan-twice", "scan returns key #%d twice", k);
		iterator_next(it);
	}
	iterator_close(it);
	for (int k = 0; k < nkeys; k++) {
		mc_check(seen[k] == (now[k] != NULL), "scan-lost", "scan does not return key #%d", k);
		it = index_iterator(idx);
		bool found = iterator_open(it, rows[k][0]);
		mc_check(found == (now[k] != NULL), "lookup", "lookup of key #%d: %s, but it is %s", k, found ? "found" : "not found", now[k] ? "present" : "absent");
		mc_check(! found || iterator_at(it) == now[k], "lookup-row", "lookup of key #%d returns another row", k);
		iterator_close(it);
	}
}

static void
op_upsert(int k, int then)
{
	auto it = index_iterator(idx);
	auto row = other(k);
	bool exists = index_upsert(idx, row, it);
	mc_check(exists == (now[k] != NULL), "upsert", "upsert of key #%d: %s, but it is %s", k, exists ? "exists" : "new", now[k] ? "present" : "absent");
	mc_check(iterator_at(it) == (exists ? now[k] : row), "upsert-at", "after upsert of key #%d the position is at another row", k);
	if (! exists)
		now[k] = row;
	else if (then == 1) {
		auto prev = index_replace(idx, row, it);
		mc_check(prev == now[k], "replace-prev", "replace of key #%d returned another row", k);
		mc_check(iterator_at(it) == row, "replace-at", "after replace of key #%d the position is at another row", k);
		now[k] = row;
	}
	if (then == 2) {
		auto prev = index_delete(idx, it);
		mc_check(prev == now[k], "delete-prev", "delete of key #%d at its position returned another row", k);
		now[k] = NULL;
	}
	iterator_close(it);
}

static void
op_replace_by(int k)
{
	auto row = other(k);
	auto prev = index_replace_by(idx, row);
	mc_check(prev == now[k], "set-prev", "set of key #%d returned %s", k, prev ? "a row" : "nothing");
	now[k] = row;
}

static void
op_delete_by(int k)
{
	auto prev = index_delete_by(idx, rows[k][0]);
	mc_check(prev == now[k], "delete-by", "delete of key #%d returned %s", k, prev ? (now[k] ? "another row" : "a row which is not present") : "nothing");
	now[k] = NULL;
}

// full scan, deleting or replacing some rows at the iterator
static void
op_scan(int first, int step, bool replace)
{
	static int seen[MAXK];
	memset(seen, 0, sizeof(int) * nkeys);
	static bool was[MAXK];
	for (int i = 0; i < nkeys; i++) was[i] = now[i] != NULL;
	auto it = index_iterator(idx);
	iterator_open(it, NULL);
	int n = 0;
	while (iterator_has(it)) {
		auto row = iterator_at(it);
		int k = key_of(row);
		mc_check(k >= 0 && now[k] == row && ! seen[k]++, "scan-change", "a changing scan returns key #%d wrongly", k);
		if (n >= first && (n - first) % step == 0) {
			if (replace) {
				auto r = other(k);
				mc_check(index_replace(idx, r, it) == row, "replace-prev", "replace in a scan returned another row");
				now[k] = r;
			} else {
				mc_check(index_delete(idx, it) == row, "delete-prev", "delete in a scan returned another row");
				now[k] = NULL;
			}
		}
		n++;
		iterator_next(it);
	}
	iterator_close(it);
	for (int k = 0; k < nkeys; k++)
		mc_check(seen[k] == was[k], "scan-change-lost", "a changing scan did not return key #%d", k);
}

static uint64_t
state_hash(int depth)
{
	auto hash = &index_hash_of(idx)->hash;
	uint64_t h = depth;
	HashStore* s[2] = { hash->current, hash->prev };
	for (int i = 0; i < 2; i++) {
		if (! s[i]) { h = mc_hash(h, &i, 4); continue; }
		for (uint64_t p = 0; p < s[i]->size; p++) {
			auto r = s[i]->rows[p];
			int v = ! r ? -1 : r == HT_DELETED ? -2 : key_of(r);
			h = mc_hash(h, &v, 4);
		}
	}
	uint64_t at = hash->rehashing ? hash->rehashing_pos : UINT64_MAX;
	return mc_hash(h, &at, 8);
}

static void
sequence(int depth, bool scans)
{
	int ops = 5 + (scans ? 1 : 0);
	for (int i = 0; i < depth; i++) {
		int c = mc_choose(nkeys * 5 + (scans ? 4 : 0));
		if (mc_pruned()) break;
		if (c >= nkeys * 5) {
			int w = c - nkeys * 5;
			mc_log("scan %s from row %d", w & 1 ? "replacing" : "deleting", w >> 1);
			op_scan(w >> 1, 2, w & 1);
		} else {
			int k = c / 5;
			switch (c % 5) {
			case 0: mc_log("upsert #%d", k); op_upsert(k, 0); break;
			case 1: mc_log("upsert+replace #%d", k); op_upsert(k, 1); break;
			case 2: mc_log("upsert+delete #%d", k); op_upsert(k, 2); break;
			case 3: mc_log("set #%d", k); op_replace_by(k); break;
			case 4: mc_log("delete #%d", k); op_delete_by(k); break;
			}
		}
		mc_step(1);
		verify();
		if (index_hash_of(idx)->hash.rehashing)
			mc_nontrivial();
		if (! mc_visit(state_hash(i)))
			break;
	}
	mc_outcome(state_hash(0));
	t_close();
	(void)ops;
}

static void
small4(void)
{
	static const uint32_t slots[] = { 3, 3, 0, 11, 8, 19 };
	t_open(4);
	keys_pick(slots, mc_q(5, 6), 32);
	sequence(mc_q(7, 9), true);
}

static void
small8(void)
{
	static const uint32_t slots[] = { 7, 7, 7, 0, 5, 23, 8 };
	t_open(8);
	keys_pick(slots, 7, 32);
	// start with any subset already present, inserted in order
	int have = mc_choose(1 << 5);
	for (int k = 0; k < 5; k++)
		if (have & (1 << k)) op_upsert(k, 0);
	mc_log("present %x", have);
	sequence(mc_q(4, 6), true);
}

// the real table: prepared churn, then every short sequence
static void
real_size(void)
{
	t_open(0);
	keys_range(600);
	static const int fills[] = { 0, 60, 126, 127, 128, 129, 130, 131, 200, 255, 256, 257, 258, 300 };
	int fill  = fills[mc_choose(14)];
	int churn = mc_choose(3);
	mc_log("filled %d, churn %d", fill, churn);
	if (churn == 1)
		for (int k = 0; k < 600; k++) { op_upsert(k, 0); op_delete_by(k); }
	if (churn == 2)
		for (int k = 300; k < 600; k++) { op_replace_by(k); op_upsert(k, 2); }
	for (int k = 0; k < fill; k++) {
		if (mc_pruned()) return;
		k % 3 ? op_upsert(k, 0) : op_replace_by(k);
	}
	verify();
	int depth = mc_q(1, 2);
	int pick[] = { 0, fill ? fill - 1 : 0, fill, fill + 1, fill / 2 };
	for (int i = 0; i < depth; i++) {
		int c = mc_choose(27);
		if (mc_pruned()) break;
		if (c >= 25) op_scan(c - 25, 3, c & 1);
		else {
			int k = pick[c / 5];
			switch (c % 5) {
			case 0: mc_log("upsert #%d", k); op_upsert(k, 0); break;
			case 1: mc_log("upsert+replace #%d", k); op_upsert(k, 1); break;
			case 2: mc_log("upsert+delete #%d", k); op_upsert(k, 2); break;
			case 3: mc_log("set #%d", k); op_replace_by(k); break;
			case 4: mc_log("delete #%d", k); op_delete_by(k); break;
			}
		}
		mc_step(1);
	}
	verify();
	mc_nontrivial();
	index_truncate(idx);
	for (int k = 0; k < nkeys; k++) now[k] = NULL;
	verify();
	op_upsert(3, 0);
	verify();
	mc_outcome(state_hash(0));
	t_close();
}

McScenario mc_scenarios[] = {
	{ "small4", small4 },
	{ "small8", small8 },
	{ "real_size", real_size },
	{ NULL }
};
