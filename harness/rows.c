// C23: rows against the values they are built from; key comparison and hashing
// against an independent order.
#include "rowkit.h"

enum { MAXC = 400 };

// ---------------------------------------------------------------- rows
typedef struct { int size; bool null; bool string; uint8_t* data; } Cell;     // size: of the content
static Cell     cells[MAXC];
static uint8_t* blob;      // 1 MB of pattern
static Heap*    heap;

static int
cell_size(Cell* c)
{
	if (c->null) return 0;
	if (! c->string) return c->size;
	return c->size + (c->size <= 31 ? 1 : c->size <= 127 ? 2 : c->size <= 32767 ? 3 : 5);
}

static void
t_build(Row* row, int n)
{
	auto pos = (uint8_t*)row_data(row, n);
	for (int i = 0; i < n; i++) {
		auto c = &cells[i];
		if (c->null) { row_set_null(row, i); continue; }
		row_set(row, i, pos - (uint8_t*)row);
		if (c->string) json_write_raw(&pos, (char*)c->data, c->size);
		else { memcpy(pos, c->data, c->size); pos += c->size; }
	}
	mc_check(pos == (uint8_t*)row + row_size(row), "exact-size", "row of %d columns has size %d, its values end at %d", n, (int)row_size(row), (int)(pos - (uint8_t*)row));
}

static void
t_verify(Row* row, int n, int size, const char* what)
{
	mc_check(row_size(row) == size, "size", "%s: row of %d columns has size %u instead of %d", what, n, row_size(row), size);
	mc_check(row->columns == n, "columns", "%s: row has %d columns instead of %d", what, row->columns, n);
	mc_check(! row->is_delete, "flags", "%s: row is marked as deleted", what);
	for (int i = 0; i < n; i++) {
		auto c = &cells[i];
		auto at = (uint8_t*)row_at(row, i);
		mc_check((at == NULL) == c->null, "null", "%s: column %d of %d is %s", what, i, n, at ? "not null" : "null");
		if (! at) continue;
		mc_check(at > (uint8_t*)row && at + cell_size(c) <= (uint8_t*)row + size, "bounds", "%s: column %d of %d is outside of the row", what, i, n);
		if (c->string) {
			Str s;
			auto pos = at;
			json_read_string(&pos, &s);
			mc_check(pos == at + cell_size(c) && str_size(&s) == c->size && ! memcmp(s.pos, c->data, c->size), "value", "%s: text column %d of %d is changed", what, i, n);
		} else
			mc_check(! memcmp(at, c->data, c->size), "value", "%s: column %d of %d is changed", what, i, n);
	}
	// a column added later
	mc_check(row_at(row, n) == NULL && row_at(row, n + 7) == NULL, "added", "%s: column past the end is not null", what);
}

static void
t_cells(int n)
{
	int data = 0;
	for (int i = 0; i < n; i++) data += cell_size(&cells[i]);
	// smallest representation
	int size = 3 + data + (1 + n), factor = 0;
	if (size > 255) { size = 3 + data + 2 * (1 + n); factor = 1; }
	if (factor && size > 65535) { size = 3 + data + 4 * (1 + n); factor = 3; }
	int f = -1;
	int m = row_measure(n, data, &f);
	mc_check(m == size && f == factor, "measure", "row of %d columns and %d bytes is measured as %d/%d instead of %d/%d", n, data, m, f, size, factor);
	Buf buf;
	buf_init(&buf);
	auto row = row_allocate_buf(&buf, n, data);
	mc_check(buf_size(&buf) == size, "buf-size", "row takes %d bytes instead of %d", buf_size(&buf), size);
	// in a block of its exact size
	row = memcpy(malloc(size), row, size);
	t_build(row, n);
	t_verify(row, n, size, "row");
	if (size < 60000 || size > 70000 || mc_q(0, 1)) {
		auto copy = row_copy(heap, row);
		t_verify(copy, n, size, "copy");
		auto other = row_allocate(heap, n, data);
		t_build(other, n);
		t_verify(other, n, size, "second row");
		t_verify(copy, n, size, "copy");
		row_free(heap, copy);
		row_free(heap, other);
	}
	free(row);
	buf_free(&buf);
	mc_cases(1);
}

static void
t_open(void)
{
	if (! blob) {
		blob = malloc(1 << 20);
		for (int i = 0; i < 1 << 20; i++) blob[i] = 1 + i % 251;
	}
	heap = heap_allocate(false);
}

static void cell(int i, int size, bool string, bool null) { cells[i] = (Cell){ size, null, string, blob + i * 17 % 1000 }; }

// every layout of a few columns
static void
s_layouts(void)
{
	static const int kind[][2] = { {0,-1}, {1,0}, {2,0}, {4,0}, {8,0}, {16,0}, {0,1}, {1,1}, {31,1}, {32,1}, {127,1}, {128,1}, {250,1}, {40,2} };
	enum { KINDS = 14 };
	int n = mc_choose(mc_q(4, 5)) + 1;
	int k[8];
	for (int i = 0; i < n; i++) k[i] = mc_choose(KINDS);
	if (! mc_split()) return;
	t_open();
	for (int i = 0; i < n; i++) cell(i, kind[k[i]][0], kind[k[i]][1] > 0, kind[k[i]][1] < 0);
	mc_log("%d columns: %d %d %d %d", n, k[0], n > 1 ? k[1] : 0, n > 2 ? k[2] : 0, n > 3 ? k[3] : 0);
	mc_step(1);
	if (n > 1) mc_nontrivial();
	t_cells(n);
	heap_free(heap);
}

// every size around the thresholds for many column counts and null patterns
static void
s_sizes(void)
{
	static const int counts[] = { 1, 2, 3, 10, 60, 61, 62, 63, 100, 125, 126, 127, 128, 200, 249, 250, 251, 252, 253, 254, 255, 256, 300, 400 };
	int c = mc_choose(24), at = mc_choose(2), nulls = mc_choose(3), where = mc_choose(3);
	if (! mc_split()) return;
	int n = counts[c];
	mc_log("%d columns around %d, nulls %d, large %d", n, at ? 65535 : 255, nulls, where);
	mc_nontrivial();
	t_open();
	for (int d = -20; d <= 20; d++) {
		for (int i = 0; i < n; i++) {
			bool null = nulls == 1 ? i % 2 : nulls == 2 ? i != 0 : false;
			cell(i, at ? 4 : 0, ! at, null);
		}
		int large = where == 0 ? 0 : where == 1 ? n / 2 : n - 1;
		cells[large].null = false;
		// everything else
		int other = 0;
		for (int i = 0; i < n; i++) if (i != large) other += cell_size(&cells[i]);
		int size = (at ? 65535 - 3 - 2 * (1 + n) : 255 - 3 - (1 + n)) - other + d;
		if (size < 0) { if (at || d) continue; size = 0; }
		cells[large] = (Cell){ size, false, false, blob + 5 };
		t_cells(n);
		mc_step(1);
		// as text
		if (size > 6) { cells[large].string = true; cells[large].size = size - 3; t_cells(n); }
	}
	heap_free(heap);
}

// ---------------------------------------------------------------- keys
enum { T_INT32, T_INT64, T_TIMESTAMP, T_UUID, T_STRING, TYPES };
enum { VALS = 9 };
static const int64_t ints[VALS] = { 0, 1, -1, INT32_MAX, INT32_MIN, 255, 256, -256, 65536 };
static const int64_t longs[VALS] = { 0, 1, -1, INT64_MAX, INT64_MIN, INT32_MAX, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, 1ll << 40 };
static const uint64_t uuids[VALS][2] = { {0,0}, {0,1}, {1,0}, {UINT64_MAX,0}, {0,UINT64_MAX}, {1ull<<63,5}, {1ull<<63,1ull<<63}, {1ull<<32,0}, {255,256} };
static const char* strings[VALS] = { "", "a", "aa", "b", "A", "\xc3\xa9", "a\x01", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab" };

static int
v_compare(int type, int a, int b)
{
	#define CMP(x, y) (((x) > (y)) - ((x) < (y)))
	switch (type) {
	case T_INT32: return CMP(ints[a], ints[b]);
	case T_UUID: return uuids[a][0] != uuids[b][0] ? CMP(uuids[a][0], uuids[b][0]) : CMP(uuids[a][1], uuids[b][1]);
	case T_STRING: { int c = strcmp(strings[a], strings[b]); return CMP(c, 0); }
	default: return CMP(longs[a], longs[b]);
	}
}

static Columns columns;
static int     ctype[8], ncols;

// a row with these values; pad: bytes of another column
static Row*
t_row(int* vals, int pad)
{
	int data = 0;
	for (int i = 0; i < ncols; i++)
		data += ctype[i] == T_INT32 ? 4 : ctype[i] == T_UUID ? 16 : ctype[i] == T_STRING ? json_size_string(strlen(strings[vals[i]])) : 8;
	data += json_size_string(pad);
	int factor, size = row_measure(ncols + 1, data, &factor);
	Row* row = malloc(size);
	row_init(row, ncols + 1, factor, size);
	auto pos = (uint8_t*)row_data(row, ncols + 1);
	for (int i = 0; i <= ncols; i++) {
		row_set(row, i, pos - (uint8_t*)row);
		if (i == ncols) { json_write_raw(&pos, (char*)blob, pad); break; }
		switch (ctype[i]) {
		case T_INT32: { int32_t x = ints[vals[i]]; memcpy(pos, &x, 4); pos += 4; break; }
		case T_UUID: memcpy(pos, uuids[vals[i]], 16); pos += 16; break;
		case T_STRING: json_write_raw(&pos, strings[vals[i]], strlen(strings[vals[i]])); break;
		default: memcpy(pos, &longs[vals[i]], 8); pos += 8;
		}
	}
	return row;
}

static void
s_keys(void)
{
	t_open();
	// types of the columns, which of them are keys and in which order
	static const int orders[][4] = { {1,0}, {2,0,1}, {2,1,0}, {1,1}, {3,0,1,2}, {3,2,0,1}, {2,2,0}, {3,1,2,0} };
	int o = mc_choose(mc_q(5, 8));
	auto order = orders[o];
	int nkeys = order[0];
	ncols = nkeys == 1 ? 2 : nkeys == 2 ? (o == 6 ? 3 : 2) : 3;
	for (int i = 0; i < ncols; i++) ctype[i] = mc_choose(TYPES);
	int pad = mc_choose(3);
	if (! mc_split()) { heap_free(heap); return; }
	static const int pads[] = { 0, 300, 70000 };
	mc_log("%d columns of types %d %d %d, key order %d, padding %d", ncols, ctype[0], ncols > 1 ? ctype[1] : -1, ncols > 2 ? ctype[2] : -1, o, pads[pad]);
	mc_step(1);
	if (nkeys > 1) mc_nontrivial();
	columns_init(&columns);
	for (int i = 0; i < ncols; i++) {
		char name[8];
		sprintf(name, "c%d", i);
		static const int types[] = { TYPE_INT, TYPE_INT, TYPE_TIMESTAMP, TYPE_UUID, TYPE_STRING }, sizes[] = { 4, 8, 8, sizeof(Uuid), 0 };
		kit_column(&columns, name, types[ctype[i]], sizes[ctype[i]]);
	}
	kit_column(&columns, "pad", TYPE_STRING, 0);
	Keys keys;
	keys_init(&keys, &columns);
	for (int i = 0; i < nkeys; i++) kit_key(&keys, order[1 + i]);

	// all rows; the last column only takes few values
	int per = ncols == 1 ? VALS : ncols == 2 ? VALS : mc_q(4, 6), total = 1;
	for (int i = 0; i < ncols; i++) total *= per;
	Row** rows = malloc(total * sizeof(Row*));
	Row** wide = malloc(total * sizeof(Row*));
	int (*vals)[4] = malloc(total * sizeof(*vals));
	uint32_t* hashes = malloc(total * 4);
	for (int r = 0; r < total; r++) {
		for (int i = 0, x = r; i < ncols; i++, x /= per) vals[r][i] = (x % per) * (per < VALS ? 2 : 1) % VALS;
		rows[r] = t_row(vals[r], 0);
		wide[r] = pad ? t_row(vals[r], pads[pad]) : rows[r];
		hashes[r] = row_hash(rows[r], &keys);
		mc_check(row_hash(wide[r], &keys) == hashes[r], "hash-layout", "hash of a key depends on the rest of the row");
		mc_check(row_hash(rows[r], &keys) == hashes[r], "hash-stable", "hash of a key changes");
	}
	int distinct_hashes = 0;
	for (int a = 0; a < total; a++) {
		bool fresh = true;
		for (int b = 0; b < total; b++) {
			int expect = 0;
			for (int i = 0; i < nkeys && ! expect; i++) expect = v_compare(ctype[order[1 + i]], vals[a][order[1 + i]], vals[b][order[1 + i]]);
			int c = compare(&keys, rows[a], wide[b]);
			mc_check(CMP(c, 0) == expect, "compare", "rows %d %d %d and %d %d %d compare as %d instead of %d", vals[a][0], vals[a][1], ncols > 2 ? vals[a][2] : 0, vals[b][0], vals[b][1], ncols > 2 ? vals[b][2] : 0, c, expect);
			int d = compare(&keys, wide[b], rows[a]);
			mc_check(CMP(d, 0) == -expect, "compare-swapped", "rows compare as %d and %d", c, d);
			if (! expect) mc_check(hashes[a] == hashes[b], "hash-equal", "equal keys have different hashes");
			if (b < a && hashes[a] == hashes[b]) fresh = false;
		}
		distinct_hashes += fresh;
	}
	mc_cases(total * total);
	// every key column takes part in the hash
	int keyed = 1;
	for (int i = 0; i < nkeys; i++) keyed *= per;
	mc_check(distinct_hashes > keyed * 9 / 10, "hash-columns", "%d keys have only %d hashes", keyed, distinct_hashes);

	// stored and read again
	Buf buf;
	buf_init(&buf);
	keys_write(&keys, &buf, 0);
	Keys again;
	keys_init(&again, &columns);
	auto pos = buf.start;
	keys_read(&again, &pos);
	mc_check(pos == buf.position && again.list_count == nkeys, "keys-read", "%d keys are read as %d", nkeys, again.list_count);
	Keys copy;
	keys_init(&copy, &columns);
	keys_copy(&copy, &again);
	for (int a = 0; a < total; a += 3)
		for (int b = 0; b < total; b += 5) {
			int c = compare(&keys, rows[a], rows[b]);
			mc_check(CMP(c, 0) == CMP(compare(&again, rows[a], rows[b]), 0) && CMP(c, 0) == CMP(compare(&copy, rows[a], rows[b]), 0), "keys-copy", "copied keys order rows differently");
			mc_check(row_hash(rows[a], &again) == hashes[a] && row_hash(rows[a], &copy) == hashes[a], "keys-copy-hash", "copied keys hash rows differently");
		}
	// lookups
	for (int i = 0; i <= ncols; i++) {
		bool is = false;
		int  at = -1;
		for (int k = 0; k < nkeys; k++) if (order[1 + k] == i) { is = true; at = k; }
		auto key = keys_find_column(&copy, i);
		mc_check((key != NULL) == is && (! is || (key->order == at && key->column->order == i)), "keys-find", "column %d is %s key", i, key ? "a" : "no");
		Str name;
		char upper[8];
		sprintf(upper, i < ncols ? "C%d" : "pad", i);
		str_set_cstr(&name, upper);
		mc_check(keys_find(&copy, &name) == key, "keys-find-name", "key '%s' is not found by its name", upper);
	}
	// extended by the primary keys which are not part of it
	Keys plain;
	keys_init(&plain, &columns);
	kit_key(&plain, ncols - 1);
	keys_copy_distinct(&plain, &keys);
	int expect[4], n = 0;
	expect[n++] = ncols - 1;
	for (int i = 0; i < nkeys; i++) if (order[1 + i] != ncols - 1) expect[n++] = order[1 + i];
	int k = 0;
	list_foreach(&plain.list) {
		auto key = list_at(Key, link);
		mc_check(k < n && key->ref == expect[k] && key->order == k && key->column->order == expect[k], "keys-distinct", "key %d of the extended keys is column %d", k, (int)key->ref);
		k++;
	}
	mc_check(k == n && plain.list_count == n, "keys-distinct", "extended keys have %d columns instead of %d", k, n);

	keys_free(&plain);
	keys_free(&copy);
	keys_free(&again);
	keys_free(&keys);
	list_foreach(&columns.list) mc_check(list_at(Column, link)->refs == 0, "refs", "freed keys still refer to columns");
	columns_free(&columns);
	buf_free(&buf);
	for (int r = 0; r < total; r++) { if (wide[r] != rows[r]) free(wide[r]); free(rows[r]); }
	free(rows); free(wide); free(vals); free(hashes);
	heap_free(heap);
}

McScenario mc_scenarios[] = {
	{ "layouts", s_layouts, 0 },
	{ "sizes", s_sizes, 0 },
	{ "keys", s_keys, 0 },
	{ NULL, NULL, 0 },
};
