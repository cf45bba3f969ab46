// C16: storage objects. Rows written in any number, over any regions and
// branches, are read back exactly and in order; a file with any damaged byte or
// cut short is refused or read exactly; a crash while a branch is added leaves
// the older branches.
#include "rowkit.h"
#include "crashfs.h"

enum { MAXK = 8, MAXB = 3, MAXR = 64 };

static Columns     columns;
static Keys        keys;
static Storage*    storage;
static Volume*     volume;
static bool        text;          // text keys
static bool        bad;           // the file is damaged: errors are allowed

static void
t_init(bool zstd, bool text_keys)
{
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->storage_sync, true);
	cfs_reset();
	cfs_mkdir("/mem/storage");
	text = text_keys;
	bad = false;
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	if (text) kit_column(&columns, "pk", TYPE_STRING, 0);
	else kit_column(&columns, "pk", TYPE_INT, 8);
	kit_column(&columns, "v", TYPE_INT, 8);
	kit_column(&columns, "s", TYPE_STRING, 0);
	keys_init(&keys, &columns);
	kit_key(&keys, 0);
	auto config = storage_config_allocate();
	Str name;
	str_set(&name, "main", 4);
	storage_config_set_name(config, &name);
	if (zstd) {
		str_set(&name, "zstd", 4);
		storage_config_set_compression(config, &name);
	}
	storage = storage_allocate(config);
	storage_config_free(config);
	volume = volume_allocate();
	Uuid id = { .a = 0xabc, .b = 0xdef };
	volume_set_id(volume, &id);
	volume->storage = storage;
	volume_mkdir(volume);
}

static void
t_free(void)
{
	volume_free(volume);
	volume = NULL;
	storage_config_free(storage->config);
	am_free(storage);
	keys_free(&keys);
	columns_free(&columns);
	mc_check(cfs_open_fds() == 0, "descriptors", "%d descriptors are left open", cfs_open_fds());
}

// keys in order: 2 * k for stored ones, odd numbers lie between
static const char* const words[] = { "", "a", "aa", "ab", "abc", "abcd", "b", "ba", "baaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "bb", "c", "ca", "cb", "d", "da", "e", "f", "g", "h" };

static Row*
t_row(int at, int64_t value, int pad)
{
	int n = text ? strlen(words[at]) : 0;
	int data = (text ? json_size_string(n) : 8) + 8 + json_size_string(pad);
	int factor;
	int total = row_measure(3, data, &factor);
	Row* row = malloc(total);
	memset(row, 0, total);
	row_init(row, 3, factor, total);
	uint8_t* pos = row_data(row, 3);
	row_set(row, 0, pos - (uint8_t*)row);
	if (text) json_write_raw(&pos, words[at], n);
	else { int64_t k = at; memcpy(pos, &k, 8); pos += 8; }
	row_set(row, 1, pos - (uint8_t*)row);
	memcpy(pos, &value, 8);
	pos += 8;
	row_set(row, 2, pos - (uint8_t*)row);
	static char fill[300000];
	for (int i = 0; i < pad; i++) fill[i] = (char)(value * 31 + i * (i >> 3));
	json_write_raw(&pos, fill, pad);
	return row;
}

typedef struct { int count; int at[MAXR]; Row* row[MAXR]; } TBranch;
static TBranch tb[MAXB];
static int     tb_count;

static void
t_rows_free(void)
{
	for (int b = 0; b < MAXB; b++) {
		for (int i = 0; i < tb[b].count; i++) free(tb[b].row[i]);
		tb[b].count = 0;
	}
	tb_count = 0;
}

static void
t_add(int b, int at, int64_t value, int pad)
{
	TBranch* t = &tb[b];
	t->at[t->count] = at;
	t->row[t->count++] = t_row(at, value, pad);
}

// adds branch b to the file
static void
t_write(Writer* writer, File* file, int b, int region_size)
{
	writer_reset(writer);
	writer_start(writer, file, storage, region_size);
	for (int i = 0; i < tb[b].count; i++) writer_add(writer, tb[b].row[i]);
	writer_stop(writer);
	file_sync(file);
}

static void
t_create(int region_size, int version)
{
	Id id = { .id = 1, .version = version, .volume = volume };
	auto object = object_allocate(&id);
	object_create(object, STATE_INCOMPLETE);
	auto writer = writer_allocate();
	for (int b = 0; b < tb_count; b++) t_write(writer, &object->file, b, region_size);
	writer_free(writer);
	object_rename(object, STATE_INCOMPLETE, STATE_COMPLETE);
	object_free(object);
}

static bool
t_same(Row* a, Row* b)
{
	return a && b && row_size(a) == row_size(b) && !memcmp(a, b, row_size(b));
}

// reads one branch from the key on (NULL: all)
static void
t_read_branch(Branch* branch, TBranch* t, int from)
{
	Row* key = from == -1 ? NULL : t_row(from, 0, 0);
	int at = 0;
	bool match = false;
	if (key) {
		while (at < t->count && t->at[at] < from) at++;
		match = at < t->count && t->at[at] == from;
	}
	auto it = branch_iterator_allocate();
	bool open_match = false, done = false;
	bool failed = error_catch
	(
		open_match = branch_iterator_open(it, &keys, branch, key);
		for (;;) {
			Row* row = iterator_at(&it->it);
			mc_check(iterator_has(&it->it) == (row != NULL), "has", "iterator has a row: %d, row %p", iterator_has(&it->it), (void*)row);
			if (!row) break;
			mc_check(at < t->count, "rows-extra", "a row follows the last of %d, read from %d", t->count, from);
			mc_check(t_same(row, t->row[at]), "row-differs", "row %d of %d differs, read from %d", at, t->count, from);
			at++;
			iterator_next(&it->it);
		}
		done = true;
	);
	if (failed) mc_check(bad, "read-error", "reading fails: %s", am_error_text());
	else {
		mc_check(done && at == t->count, "rows-missing", "the scan from %d ends at row %d of %d", from, at, t->count);
		if (key) mc_check(open_match == match, "match", "key %d is stored: %d, reported %d", from, match, open_match);
	}
	iterator_close(&it->it);
	free(key);
}

// reads all branches merged from the key on; newer rows hide older ones
static void
t_read_merged(Object* object, int from)
{
	Row* key = from == -1 ? NULL : t_row(from, 0, 0);
	Row* expect[MAXK * 4];
	int  count = 0;
	for (int at = from == -1 ? 0 : from; at <= 2 * MAXK; at++)
		for (int b = tb_count - 1; b >= 0; b--) {
			Row* row = NULL;
			for (int i = 0; i < tb[b].count && !row; i++) if (tb[b].at[i] == at) row = tb[b].row[i];
			if (row) { expect[count++] = row; break; }
		}
	auto merge = merge_iterator_allocate(true);
	int at = 0;
	bool failed = error_catch
	(
		for (auto branch = object->branches; branch; branch = branch->next) {
			auto it = branch_iterator_allocate();
			merge_iterator_add(merge, &it->it);
			branch_iterator_open(it, &keys, branch, key);
		}
		merge_iterator_open(merge, &keys);
		while (iterator_has(&merge->it)) {
			Row* row = iterator_at(&merge->it);
			mc_check(at < count, "merge-extra", "a row follows the last of %d, read from %d", count, from);
			mc_check(t_same(row, expect[at]), "merge-row", "merged row %d of %d differs, read from %d", at, count, from);
			at++;
			iterator_next(&merge->it);
		}
	);
	if (failed) mc_check(bad, "read-error", "reading fails: %s", am_error_text());
	else mc_check(at == count, "merge-missing", "%d rows of %d are read from %d", at, count, from);
	iterator_close(&merge->it);
	free(key);
}

// opens the object and reads it in every way. false: refused
static bool
t_check(int version, int ways)
{
	Id id = { .id = 1, .version = version, .volume = volume };
	auto object = object_allocate(&id);
	bool failed = error_catch( object_open(object, STATE_COMPLETE) );
	if (failed) {
		mc_check(bad, "open-error", "opening fails: %s", am_error_text());
		object_free(object);
		return false;
	}
	mc_check(object->branches_count == version, "branches", "%d branches of %d", object->branches_count, version);
	Branch* branch = object->branches;
	for (int b = version - 1; b >= 0; b--, branch = branch->next) {
		mc_check(branch->meta.rows == (uint64_t)tb[b].count, "meta-rows", "%lu rows recorded in branch %d of %d", (unsigned long)branch->meta.rows, b, tb[b].count);
		Row* min = branch_min(branch);
		Row* max = branch_max(branch);
		int n = tb[b].count;
		if (n == 0) mc_check(!min && !max, "min-max", "an empty branch has bounds");
		else mc_check(t_same(min, tb[b].row[0]) && t_same(max, tb[b].row[n - 1]), "min-max", "the bounds of branch %d are wrong", b);
		if (b == 0) mc_check(object->root == branch, "root", "the root is not the first branch");
		t_read_branch(branch, &tb[b], -1);
		if (ways)
			for (int from = 0; from <= 2 * MAXK + 1; from++) t_read_branch(branch, &tb[b], from);
		if (n > 1) mc_nontrivial();
	}
	if (version == tb_count)
		for (int from = -1; from <= (ways ? 2 * MAXK + 1 : -1); from++) t_read_merged(object, from);
	// reopening cuts what is not part of this version, nothing else
	object_free(object);
	return true;
}

// ------------------------------------------------------------------ round trip
static const int region_sizes[] = { 0, 1, 90, 200, 1 << 20 };

static void
s_branches(void)
{
	int branches = 1 + mc_choose(3);
	int k = branches == 1 ? mc_q(7, 8) : branches == 2 ? mc_q(4, 5) : mc_q(3, 4);
	int set[MAXB];
	for (int b = 0; b < branches; b++) set[b] = mc_choose(1 << k);
	int region = mc_choose(5);
	int zstd = mc_choose(2);
	int kind = mc_choose(2);
	if (!mc_split()) return;
	t_init(zstd, kind);
	tb_count = branches;
	for (int b = 0; b < branches; b++)
		for (int i = 0; i < k; i++)
			if (set[b] >> i & 1) t_add(b, 2 * i + 1, b * 100 + i, (i * 7 + b) % 3 == 0 ? 60 : i);
	t_create(region_sizes[region], branches);
	bool ok = t_check(branches, 1);
	mc_check(ok, "refused", "refused");
	t_check(branches, 0);          // once more
	mc_cases(1);
	t_rows_free();
	t_free();
}

// row sizes around the size limits of rows and regions
static void
s_sizes(void)
{
	static const int pads[] = { 0, 1, 100, 200, 230, 250, 256, 300, 1000, 65000, 65500, 65536, 70000, 200000 };
	int n = 1 + mc_choose(3);
	int pad[3];
	for (int i = 0; i < n; i++) pad[i] = pads[mc_choose(n == 3 && !mc_tier ? 8 : 14)];
	static const int regions[] = { 0, 100, 300, 70000, 1 << 20 };
	int region = regions[mc_choose(5)];
	int zstd = mc_choose(2);
	if (!mc_split()) return;
	t_init(zstd, n & 1);
	tb_count = 2;
	for (int i = 0; i < n; i++) t_add(0, 2 * i + 1, i, pad[i]);
	for (int i = 0; i < n; i++) t_add(1, 2 * i + 2, i, pad[n - 1 - i]);
	t_create(region, 2);
	bool ok = t_check(2, 1);
	mc_check(ok, "refused", "refused");
	t_rows_free();
	t_free();
}

// a file with more branches than its version: the rest is cut
static void
s_versions(void)
{
	int k = 3;
	int set[MAXB];
	for (int b = 0; b < 3; b++) set[b] = mc_choose(1 << k);
	int region = mc_choose(5);
	int zstd = mc_choose(2);
	int version = 1 + mc_choose(2);
	if (!mc_split()) return;
	t_init(zstd, false);
	tb_count = 3;
	for (int b = 0; b < 3; b++)
		for (int i = 0; i < k; i++)
			if (set[b] >> i & 1) t_add(b, 2 * i + 1, b * 100 + i, 10);
	t_create(region_sizes[region], version);
	t_check(version, 1);
	// the next branch goes where the cut ones were
	Id id = { .id = 1, .version = version, .volume = volume };
	auto object = object_allocate(&id);
	object_open(object, STATE_COMPLETE);
	file_seek_to_end(&object->file);
	auto writer = writer_allocate();
	t_write(writer, &object->file, version, region_sizes[region]);
	writer_free(writer);
	Id next = { .id = 1, .version = version + 1, .volume = volume };
	char from[PATH_MAX], to[PATH_MAX];
	id_path(&id, from, STATE_COMPLETE, false);
	id_path(&next, to, STATE_COMPLETE, false);
	fs_rename(from, "%s", to);
	object_free(object);
	tb_count = version + 1;
	t_check(version + 1, 1);
	tb_count = 3;
	t_rows_free();
	t_free();
}

// ---------------------------------------------------------------------- damage
static void
s_damage(void)
{
	int shape = mc_choose(4);
	int zstd = mc_choose(2);
	int region = mc_choose(3);
	int block = mc_choose(32);
	if (!mc_split()) return;
	t_init(zstd, shape & 1);
	tb_count = shape < 2 ? 1 : 2;
	if (shape == 0) { t_add(0, 1, 1, 3); t_add(0, 3, 2, 40); t_add(0, 5, 3, 0); }
	if (shape == 1) { t_add(0, 1, 1, 3); }
	if (shape == 2) { t_add(0, 1, 1, 3); t_add(0, 3, 2, 20); t_add(1, 3, 9, 20); }
	if (shape == 3) { t_add(0, 3, 2, 20); }
	int region_size = (int[]){ 0, 90, 1 << 20 }[region];
	t_create(region_size, tb_count);
	Id id = { .id = 1, .version = tb_count, .volume = volume };
	char path[PATH_MAX];
	id_path(&id, path, STATE_COMPLETE, false);
	size_t size;
	uint8_t* at = (uint8_t*)cfs_data(path, &size);
	uint8_t* file = malloc(size + 8);
	memcpy(file, at, size);
	bad = true;
	int masks[] = { 0x01, 0x80, 0xff, 0x10, 0x02, 0x04, 0x08, 0x20, 0x40 };
	uint64_t cases = 0;
	for (size_t i = block; i < size; i += 32) {
		for (int m = 0; m < mc_q(4, 9); m++) {
			file[i] ^= masks[m];
			cfs_set(path, file, size);
			t_check(tb_count, 0);
			file[i] ^= masks[m];
			cases++;
		}
		// cut here; zeros from here on
		cfs_set(path, file, i);
		bool served = t_check(tb_count, 0);
		mc_check(!served, "cut-served", "a file cut to %zu of %zu bytes is opened", i, size);
		uint8_t* copy = malloc(size);
		memcpy(copy, file, size);
		memset(copy + i, 0, size - i);
		if (memcmp(copy, file, size)) {
			cfs_set(path, copy, size);
			t_check(tb_count, 0);
			cases++;
		}
		// bytes exchanged
		if (i + 4 < size) {
			memcpy(copy, file, size);
			memcpy(copy + i, file + i + 1, size - i - 1);
			cfs_set(path, copy, size);
			t_check(tb_count, 0);
			cases++;
		}
		free(copy);
		cases++;
	}
	mc_nontrivial();
	mc_cases(cases);
	free(file);
	t_rows_free();
	t_free();
}

// ----------------------------------------------------------------------- crash
static int crash_region;

static void
t_append(void* arg)
{
	int version = *(int*)arg;
	cfs_arm_crash(true);
	Id id = { .id = 1, .version = version, .volume = volume };
	auto object = object_allocate(&id);
	object_open(object, STATE_COMPLETE);
	file_seek_to_end(&object->file);
	auto writer = writer_allocate();
	t_write(writer, &object->file, version, crash_region);
	writer_free(writer);
	Id next = { .id = 1, .version = version + 1, .volume = volume };
	char from[PATH_MAX], to[PATH_MAX];
	id_path(&id, from, STATE_COMPLETE, false);
	id_path(&next, to, STATE_COMPLETE, false);
	fs_rename(from, "%s", to);
	object_free(object);
	cfs_arm_crash(false);
}

// a branch is added in place, as compaction does: crash anywhere
static void
s_crash(void)
{
	int version = 1 + mc_choose(2);
	int set[MAXB];
	for (int b = 0; b <= version; b++) set[b] = mc_choose(8);
	crash_region = region_sizes[mc_choose(5)];
	int zstd = mc_choose(2);
	if (!mc_split()) return;
	mc_budget(mc_q(1, 2));
	t_init(zstd, false);
	tb_count = version;
	for (int b = 0; b <= version; b++)
		for (int i = 0; i < 3; i++)
			if (set[b] >> i & 1) t_add(b, 2 * i + 1, b * 100 + i, 10);
	t_create(crash_region, version);
	bool done = false;
	for (int round = 0; round < 2 && !done; round++) {
		if (cfs_run(t_append, &version)) {
			cfs_crash(CFS_TORN | CFS_HOLES);
			mc_nontrivial();
		} else
			done = true;
		Id next = { .id = 1, .version = version + 1, .volume = volume };
		char to[PATH_MAX];
		id_path(&next, to, STATE_COMPLETE, false);
		bool renamed = cfs_exists(to);
		if (done) mc_check(renamed, "renamed", "the new version is missing");
		tb_count = version + renamed;
		t_check(tb_count, 0);
		if (renamed) break;
	}
	tb_count = MAXB;
	t_rows_free();
	t_free();
}

McScenario mc_scenarios[] = {
	{ "branches", s_branches, 0 },
	{ "sizes",    s_sizes,    0 },
	{ "versions", s_versions, 0 },
	{ "damage",   s_damage,   0 },
	{ "crash",    s_crash,    0 },
	{ NULL, NULL, 0 },
};
