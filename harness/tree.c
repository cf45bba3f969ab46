// C11: tree index against a sorted map; C12 (merge.c) builds on it.
// Small pages make every split and page removal reachable within few
// operations; the real page size is explored around its boundaries.
#include "rowkit.h"

enum { MAXK = 1600 };

static Columns      columns;
static IndexConfig* config;
static Index*       idx;
static Row*         rows[MAXK][2];
static Row*         now[MAXK];
static int          nkeys;
static bool         text;

static Row*
t_row(int k, int version)
{
	if (! text)
		return kit_row2(k * 10, version);
	// keys differ in every byte position, with common prefixes
	static const char* names[] = { "", "a", "aa", "aaz", "ab", "az", "b", "ba", "bz", "m", "mm", "z", "za", "zz\xff", "\xc3\xa9", "\xff" };
	if (k < 16)
		return kit_row_text(names[k], strlen(names[k]), version);
	char name[32];
	int n = snprintf(name, sizeof(name), "\xff%06d", k * 7);
	return kit_row_text(name, n, version);
}

static void
t_open(int size_page, bool text_key, int n)
{
	text = text_key;
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "a", text ? TYPE_STRING : TYPE_INT, text ? 0 : 8);
	kit_column(&columns, "b", TYPE_INT, 8);
	config = kit_index(&columns, "pk", INDEX_TREE, true, true, 0);
	idx = index_tree_allocate(config, NULL);
	if (size_page) {
		auto tree = &((IndexTree*)idx)->tree;
		tree_init(tree, size_page, size_page / 2, &config->keys);
	}
	nkeys = n;
	for (int k = 0; k < n; k++) {
		rows[k][0] = t_row(k, 0);
		rows[k][1] = t_row(k, 1);
		now[k] = NULL;
	}
}

static void
t_close(void)
{
	index_free(idx);
	index_config_free(config);
	columns_free(&columns);
	for (int k = 0; k < nkeys; k++) { free(rows[k][0]); free(rows[k][1]); }
}

static Row* other(int k) { return now[k] == rows[k][0] ? rows[k][1] : rows[k][0]; }

static void
scan_check(Iterator* it, int from, const char* what)
{
	for (int k = from; k < nkeys; k++) {
		if (! now[k]) continue;
		mc_check(iterator_has(it), "scan-lost", "%s: scan ends before key #%d", what, k);
		mc_check(iterator_at(it) == now[k], "scan-wrong", "%s: scan is not at key #%d", what, k);
		iterator_next(it);
	}
	mc_check(! iterator_has(it) && ! iterator_at(it), "scan-extra", "%s: scan returns more rows than present", what);
}

static void
verify(int step)
{
	auto it = index_iterator(idx);
	iterator_open(it, NULL);
	scan_check(it, 0, "full scan");
	iterator_close(it);
	for (int k = 0; k < nkeys; k += step) {
		it = index_iterator(idx);
		bool found = iterator_open(it, rows[k][0]);
		mc_check(found == (now[k] != NULL), "lookup", "lookup of key #%d: %s, but it is %s", k, found ? "found" : "not found", now[k] ? "present" : "absent");
		if (step == 1 || k % 97 == 0)
			scan_check(it, k, "scan from a key");
		else
			mc_check(! found || iterator_at(it) == now[k], "lookup-row", "lookup of key #%d returns another row", k);
		iterator_close(it);
	}
}

static void
op_upsert(int k, int then)
{
	auto it = index_iterator(idx);
	auto row = other(k);
	bool exists = index_upsert(idx, row, it);
	mc_check(exists == (now[k] != NULL), "upsert", "upsert of key #%d: %s, but it is %s", k, exists ? "exists" : "new", now[k] ? "present" : "absent");
	mc_check(iterator_at(it) == (exists ? now[k] : row), "upsert-at", "after upsert of key #%d the position is at another row", k);
	if (! exists)
		now[k] = row;
	else if (then == 1) {
		mc_check(index_replace(idx, row, it) == now[k], "replace-prev", "replace of key #%d returned another row", k);
		now[k] = row;
	}
	if (then == 2) {
		mc_check(index_delete(idx, it) == now[k], "delete-prev", "delete of key #%d at its position returned another row", k);
		now[k] = NULL;
		iterator_next(it);
		k++;
	}
	scan_check(it, k, "scan after upsert");
	iterator_close(it);
}

static void
op_replace_by(int k)
{
	auto row = other(k);
	auto prev = index_replace_by(idx, row);
	mc_check(prev == now[k], "set-prev", "set of key #%d returned %s", k, prev ? "a row" : "nothing");
	now[k] = row;
}

static void
op_delete_by(int k)
{
	auto prev = index_delete_by(idx, rows[k][0]);
	mc_check(prev == now[k], "delete-by", "delete of key #%d returned %s", k, prev ? "another row" : "nothing");
	now[k] = NULL;
}

// scan from a key, deleting or replacing rows on the way
static void
op_scan(int from, int first, int step, bool replace)
{
	auto it = index_iterator(idx);
	iterator_open(it, from ? rows[from][0] : NULL);
	int n = 0;
	for (int k = from; k < nkeys; k++) {
		if (! now[k]) continue;
		mc_check(iterator_has(it) && iterator_at(it) == now[k], "scan-change", "a changing scan is not at key #%d", k);
		if (n >= first && (n - first) % step == 0) {
			if (replace) {
				auto r = other(k);
				mc_check(index_replace(idx, r, it) == now[k], "replace-prev", "replace in a scan returned another row");
				now[k] = r;
			} else {
				mc_check(index_delete(idx, it) == now[k], "delete-prev", "delete in a scan returned another row");
				now[k] = NULL;
			}
		}
		n++;
		iterator_next(it);
	}
	mc_check(! iterator_has(it), "scan-change-extra", "a changing scan returns more rows");
	iterator_close(it);
}

static int
pages(void)
{
	return ((IndexTree*)idx)->tree.count_pages;
}

static uint64_t
state_hash(int depth)
{
	auto tree = &((IndexTree*)idx)->tree;
	uint64_t h = depth;
	for (auto n = rbtree_min(&tree->tree); n; n = rbtree_next(&tree->tree, n)) {
		auto page = container_of(n, TreePage, node);
		h = mc_hash(h, &page->keys_count, 4);
		// colour and shape of the tree
		int shape = (n->color) + (n->l != NULL) * 4 + (n->r != NULL) * 8;
		h = mc_hash(h, &shape, 4);
	}
	for (int k = 0; k < nkeys; k++) { int p = now[k] != NULL; h = mc_hash(h, &p, 4); }
	return h;
}

static void
op_any(int c)
{
	int k = c / 5;
	switch (c % 5) {
	case 0: mc_log("upsert #%d", k); op_upsert(k, 0); break;
	case 1: mc_log("upsert+replace #%d", k); op_upsert(k, 1); break;
	case 2: mc_log("upsert+delete #%d", k); op_upsert(k, 2); break;
	case 3: mc_log("set #%d", k); op_replace_by(k); break;
	case 4: mc_log("delete #%d", k); op_delete_by(k); break;
	}
}

static void
sequence(int depth)
{
	for (int i = 0; i < depth; i++) {
		int c = mc_choose(nkeys * 5 + 6);
		if (mc_pruned()) break;
		if (c >= nkeys * 5) {
			int w = c - nkeys * 5;
			mc_log("scan %s from row %d", w & 1 ? "replacing" : "deleting", w >> 1);
			op_scan(w == 4 ? nkeys / 2 : 0, w >> 1, w == 5 ? 1 : 2, w & 1);
		} else
			op_any(c);
		mc_step(1);
		verify(1);
		if (pages() > 2)
			mc_nontrivial();
		if (! mc_visit(state_hash(i)))
			break;
	}
	mc_outcome(state_hash(0));
	t_close();
}

static void
small_int(void)
{
	t_open(4, false, mc_q(8, 9));
	sequence(mc_q(8, 11));
}

static void
small_text(void)
{
	t_open(2, true, mc_q(7, 8));
	sequence(mc_q(7, 9));
}

// any subset of text keys present, in any of four insertion orders, then changes
static void
subsets(void)
{
	static const int sizes[] = { 2, 3, 4 };
	int size = sizes[mc_choose(3)];
	int n = mc_q(12, 16);
	bool txt = mc_choose(2);
	t_open(size, txt, n);
	int have = mc_choose(1 << (n - 4)) << mc_choose(2) * 4;
	int order = mc_choose(3);
	mc_log("page %d, present %x, order %d", size, have, order);
	if (mc_pruned()) { t_close(); return; }
	for (int i = 0; i < n; i++) {
		int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 5) % n;
		if (order == 2 && n % 5 == 0) k = i;
		if (have & (1 << k)) op_upsert(k, 0);
	}
	verify(1);
	int w = mc_choose(5);
	if (w == 0) op_scan(0, 0, 2, false);
	if (w == 1) op_scan(0, 1, 2, false);
	if (w == 2) op_scan(n / 2, 0, 1, false);
	if (w == 3) op_scan(0, 0, 3, true);
	if (w == 4) op_scan(0, 0, 1, false);
	verify(1);
	for (int k = 0; k < n; k += 3) op_replace_by(k);
	verify(1);
	mc_step(n);
	mc_nontrivial();
	mc_outcome(state_hash(0));
	t_close();
}

// the real page size: filled in several orders to around its boundaries
static void
real_size(void)
{
	static const int fills[] = { 1, 255, 256, 257, 511, 512, 513, 767, 769, 1024, 1025, 1537 };
	int fill  = fills[mc_choose(12)];
	int order = mc_choose(4);
	bool txt  = mc_choose(2);
	t_open(0, txt, 1600);
	mc_log("filled %d, order %d, text %d", fill, order, txt);
	if (mc_pruned()) { t_close(); return; }
	for (int i = 0; i < fill; i++) {
		int k = order == 0 ? i : order == 1 ? fill - 1 - i : order == 2 ? (i * 7) % 1600 : i & 1 ? 1599 - i / 2 : i / 2;
		i % 3 ? op_replace_by(k) : (void)op_upsert(k, 0);
	}
	verify(13);
	int pick[] = { 0, 255, 256, 511, fill - 1, fill < 1600 ? fill : 0 };
	for (int i = 0; i < mc_q(1, 2); i++) {
		int c = mc_choose(35);
		if (c < 30) op_any(pick[c / 5] * 5 + c % 5);
		else op_scan((c - 30) * 200, c & 1, 1 + (c % 3), c == 33);
		mc_step(1);
	}
	verify(17);
	mc_nontrivial();
	index_truncate(idx);
	for (int k = 0; k < nkeys; k++) now[k] = NULL;
	verify(200);
	op_upsert(3, 0);
	verify(200);
	mc_outcome(mc_hash(fill, &order, 4));
	t_close();
}

McScenario mc_scenarios[] = {
	{ "small_int", small_int },
	{ "small_text", small_text },
	{ "subsets", subsets },
	{ "real_size", real_size },
	{ NULL }
};
