// C12: merged scans over partitions. Every assignment of keys to partitions,
// every starting key, for tree, hash and generic merges.
#include "rowkit.h"

enum { MAXP = 4, MAXK = 12 };

static Columns      columns;
static IndexConfig* config;
static Index*       idx[MAXP];
static int          nparts, nkeys;
static Row*         rows[MAXK][MAXP]; // row of the key in the partition or NULL

static void
t_open(int type, int parts, int keys, bool text)
{
	nparts = parts;
	nkeys  = keys;
	memset(rows, 0, sizeof(rows));
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "a", text ? TYPE_STRING : TYPE_INT, text ? 0 : 8);
	kit_column(&columns, "b", TYPE_INT, 8);
	config = kit_index(&columns, "pk", type, true, true, 0);
	for (int p = 0; p < parts; p++) {
		idx[p] = type == INDEX_HASH ? index_hash_allocate(config, NULL) : index_tree_allocate(config, NULL);
		if (type == INDEX_TREE)
			tree_init(&((IndexTree*)idx[p])->tree, 2, 1, &config->keys);
	}
}

static Row*
t_row(int k, int p, bool text)
{
	if (! text)
		return kit_row2(k, p);
	static const char* names[] = { "", "\x01", "Z", "a", "ab", "b", "m", "z", "\x80", "\xc3", "\xff", "\xff\xff" };
	return kit_row_text(names[k], strlen(names[k]), p);
}

static void
t_close(void)
{
	for (int p = 0; p < nparts; p++) index_free(idx[p]);
	index_config_free(config);
	columns_free(&columns);
	for (int k = 0; k < nkeys; k++) for (int p = 0; p < nparts; p++) free(rows[k][p]);
}

static void
put(int k, int p, bool text)
{
	rows[k][p] = t_row(k, p, text);
	index_replace_by(idx[p], rows[k][p]);
}

static void
check_ordered(Iterator* it, int from, const char* what)
{
	// rows of equal keys come in any order, each once
	for (int k = from; k < nkeys; k++) {
		int n = 0;
		bool seen[MAXP] = {0};
		for (int p = 0; p < nparts; p++) n += rows[k][p] != NULL;
		for (; n > 0; n--) {
			mc_check(iterator_has(it), "lost", "%s from %d: ends before key %d", what, from, k);
			auto row = iterator_at(it);
			int p = -1;
			for (int i = 0; i < nparts; i++) if (rows[k][i] == row && ! seen[i]) p = i;
			mc_check(p >= 0, "wrong", "%s from %d: expected key %d, got another row", what, from, k);
			seen[p] = true;
			iterator_next(it);
		}
	}
	mc_check(! iterator_has(it) && ! iterator_at(it), "extra", "%s from %d: returns more rows than present", what, from);
	iterator_next(it);
	mc_check(! iterator_has(it), "past-end", "%s from %d: has a row after its end", what, from);
}

static void
scan_tree(bool text)
{
	for (int from = -1; from < nkeys; from++) {
		Iterator* it = NULL;
		for (int p = 0; p < nparts; p++)
			it = index_iterator_merge(idx[p], it);
		Row* key = from < 0 ? NULL : t_row(from, 9, text);
		bool match = iterator_open(it, key);
		bool want = false;
		for (int p = 0; p < nparts && from >= 0; p++) want |= rows[from][p] != NULL;
		mc_check(match == want, "match", "merged scan at key %d: match %d, present %d", from, match, want);
		check_ordered(it, from < 0 ? 0 : from, "merged tree scan");
		iterator_close(it);
		free(key);
		mc_cases(1);
	}
}

static void
scan_hash(void)
{
	Iterator* it = NULL;
	for (int p = 0; p < nparts; p++)
		it = index_iterator_merge(idx[p], it);
	iterator_open(it, NULL);
	bool seen[MAXK][MAXP] = {0};
	int n = 0;
	for (int guard = 0; iterator_has(it); guard++) {
		mc_check(guard < 1000, "endless", "merged hash scan does not end");
		auto row = iterator_at(it);
		int k = kit_int(row, 0), p = kit_int(row, 1);
		mc_check(rows[k][p] == row && ! seen[k][p], "wrong", "merged hash scan returns key %d of partition %d wrongly", k, p);
		seen[k][p] = true;
		n++;
		iterator_next(it);
	}
	mc_check(! iterator_at(it), "extra", "merged hash scan has a row at its end");
	iterator_close(it);
	int want = 0;
	for (int k = 0; k < nkeys; k++) for (int p = 0; p < nparts; p++) want += rows[k][p] != NULL;
	mc_check(n == want, "lost", "merged hash scan returns %d rows of %d", n, want);
	mc_cases(1);
}

// disjoint partitions: key k lives in partition choice-1, or nowhere
static void
disjoint(int type, int parts, int keys, bool text)
{
	t_open(type, parts, keys, text);
	uint64_t h = 0;
	for (int k = 0; k < keys; k++) {
		int c = mc_choose(parts + 1);
		if (c) put(k, c - 1, text);
		h = h * 7 + c;
	}
	if (! mc_pruned()) {
		if (type == INDEX_TREE) scan_tree(text); else scan_hash();
	}
	mc_step(keys);
	mc_nontrivial();
	mc_outcome(h);
	t_close();
}

static void tree_int(void)  { disjoint(INDEX_TREE, 3, mc_q(7, 9), false); }
static void tree_text(void) { disjoint(INDEX_TREE, 3, mc_q(6, 8), true); }
static void tree_four(void) { disjoint(INDEX_TREE, 4, mc_q(5, 7), false); }
static void hash_three(void){ disjoint(INDEX_HASH, 3, mc_q(6, 8), false); }
static void hash_four(void) { disjoint(INDEX_HASH, 4, mc_q(5, 7), false); }
static void hash_one(void)  { disjoint(INDEX_HASH, 1, 4, false); }
static void tree_one(void)  { disjoint(INDEX_TREE, 1, 6, false); }

// the same key may be in several partitions (not unique across them)
static void
tree_equal(void)
{
	int keys = mc_q(4, 5);
	t_open(INDEX_TREE, 3, keys, false);
	uint64_t h = 0;
	for (int k = 0; k < keys; k++) {
		int c = mc_choose(8);
		for (int p = 0; p < 3; p++) if (c & (1 << p)) put(k, p, false);
		h = h * 8 + c;
	}
	if (! mc_pruned()) scan_tree(false);
	mc_nontrivial();
	mc_outcome(h);
	t_close();
}

// hash partitions in the middle of a resize
static void
hash_resize(void)
{
	t_open(INDEX_HASH, 2, MAXK, false);
	static Row* extra[800];
	int n[2], total = 0;
	static const int fills[] = { 0, 1, 128, 129, 130, 180, 257, 258 };
	for (int p = 0; p < 2; p++) n[p] = fills[mc_choose(8)];
	mc_log("rows %d %d", n[0], n[1]);
	for (int p = 0; p < 2; p++)
		for (int i = 0; i < n[p]; i++) {
			extra[total] = kit_row2(1000 + total, p);
			index_replace_by(idx[p], extra[total++]);
		}
	Iterator* it = NULL;
	for (int p = 0; p < 2; p++) it = index_iterator_merge(idx[p], it);
	iterator_open(it, NULL);
	static bool seen[800];
	memset(seen, 0, sizeof(seen));
	int got_ = 0;
	while (iterator_has(it)) {
		auto row = iterator_at(it);
		int at = kit_int(row, 0) - 1000;
		mc_check(at >= 0 && at < total && extra[at] == row && ! seen[at], "wrong", "merged hash scan returns a row wrongly");
		seen[at] = true;
		got_++;
		iterator_next(it);
	}
	mc_check(got_ == total, "lost", "merged hash scan returns %d rows of %d", got_, total);
	iterator_close(it);
	for (int i = 0; i < total; i++) free(extra[i]);
	mc_nontrivial();
	mc_outcome(total);
	t_close();
}

// generic merge of sorted sources: the first source with a key wins
static void
generic(void)
{
	int keys = mc_q(4, 5);
	t_open(INDEX_TREE, 3, keys, false);
	uint64_t h = 0;
	for (int k = 0; k < keys; k++) {
		int c = mc_choose(8);
		for (int p = 0; p < 3; p++) if (c & (1 << p)) put(k, p, false);
		h = h * 8 + c;
	}
	auto merge = merge_iterator_allocate(true);
	for (int p = 0; p < 3; p++) {
		auto it = index_iterator(idx[p]);
		iterator_open(it, NULL);
		merge_iterator_add(merge, it);
	}
	merge_iterator_open(merge, &config->keys);
	auto it = &merge->it;
	for (int k = 0; k < keys; k++) {
		Row* want = NULL;
		for (int p = 2; p >= 0; p--) if (rows[k][p]) want = rows[k][p];
		if (! want) continue;
		mc_check(iterator_has(it), "lost", "merge ends before key %d", k);
		mc_check(iterator_at(it) == want, "newest", "merge returns another row for key %d", k);
		iterator_next(it);
	}
	mc_check(! iterator_has(it), "extra", "merge returns more rows");
	iterator_close(it);
	mc_nontrivial();
	mc_outcome(h);
	t_close();
}

// sorted list of heap rows merged with itself
static void
heap_sorted(void)
{
	t_open(INDEX_TREE, 2, 6, false);
	Heap* heap[2];
	for (int p = 0; p < 2; p++) heap[p] = heap_allocate(false);
	int order = mc_choose(6);
	Row* hr[6][2];
	memset(hr, 0, sizeof(hr));
	for (int i = 0; i < 6; i++) {
		int k = (i * 5 + order) % 6;
		int c = mc_choose(3);
		if (! c) continue;
		int64_t v[2] = { k, c - 1 };
		int size_factor, size = row_measure(2, 16, &size_factor);
		hr[k][c - 1] = heap_add(heap[c - 1], size);
		kit_row_write(hr[k][c - 1], 2, v, NULL);
	}
	Buf buf[2];
	HeapIndexIterator it[2];
	MergeIterator merge;
	merge_iterator_init(&merge);
	for (int p = 0; p < 2; p++) {
		buf_init(&buf[p]);
		heap_index(heap[p], &config->keys, &buf[p]);
		heap_index_iterator_init(&it[p]);
		heap_index_iterator_open(&it[p], &buf[p]);
		int n = 0;
		for (int k = 0; k < 6; k++)
			if (hr[k][p]) mc_check(n < buf_size(&buf[p]) / 8 && ((Row**)buf[p].start)[n++] == hr[k][p], "sort", "sorted heap rows are wrong at key %d", k);
		mc_check(n == buf_size(&buf[p]) / 8, "sort", "sorted heap has more rows");
		merge_iterator_add(&merge, &it[p].it);
	}
	merge_iterator_open(&merge, &config->keys);
	for (int k = 0; k < 6; k++)
		for (int p = 0; p < 2; p++)
			if (hr[k][p]) {
				mc_check(iterator_has(&merge.it) && iterator_at(&merge.it) == hr[k][p], "heap-merge", "merge of sorted heaps is wrong at key %d", k);
				iterator_next(&merge.it);
			}
	mc_check(! iterator_has(&merge.it), "extra", "merge of sorted heaps returns more rows");
	merge_iterator_free(&merge);
	for (int p = 0; p < 2; p++) { buf_free(&buf[p]); heap_free(heap[p]); }
	mc_nontrivial();
	t_close();
}

McScenario mc_scenarios[] = {
	{ "tree_one", tree_one },
	{ "hash_one", hash_one },
	{ "tree_int", tree_int },
	{ "tree_text", tree_text },
	{ "tree_four", tree_four },
	{ "tree_equal", tree_equal },
	{ "hash_three", hash_three },
	{ "hash_four", hash_four },
	{ "hash_resize", hash_resize },
	{ "generic", generic },
	{ "heap_sorted", heap_sorted },
	{ NULL }
};
