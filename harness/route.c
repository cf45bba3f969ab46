// C15: routing of keys to hash partitions.
//
// RANGES: every partition count; file system calls are answered by stubs (an
// empty directory, every write succeeds), so that tables with thousands of
// partitions are created by the real code in memory.
// otherwise: small counts over an in-memory disk, every key of several types,
// inserts, lookups, scans and restarts.
#include "rowkit.h"
#include "crashfs.h"
#include <sys/stat.h>
#include <dirent.h>
#include <errno.h>

enum { MAXK = 64, MAXC = 8192 };

// ---------------------------------------------------------------- table
static Columns       columns;
static IndexConfig*  pk;
static List          indexes;
static StorageMgr    storage_mgr;
static TierMgr       tier_mgr;
static PartMgrConfig pm_config;
static PartMgr       pm;
static PartArg       arg;
static Sequence      seq;
static Uuid          uuid;

static void
t_attach(PartMgr* self)
{
#ifdef RANGES
	// nothing to load
	(void)self;
	return;
#endif
	list_foreach(&self->list) {
		auto part = list_at(Part, link);
		part->heap->page_mgr.page_size = 64 * 1024;
		part_open(part);
	}
}

static void t_detach(PartMgr* self) { (void)self; }
static PartMgrIf iface = { t_attach, t_detach };

static Storage*
t_storage(void)
{
	auto config = storage_config_allocate();
	Str name;
	str_set(&name, "main", 4);
	storage_config_set_name(config, &name);
	auto storage = storage_allocate(config);
	storage_config_free(config);
	return storage;
}

static void
t_start(int partitions, int volumes)
{
	storage_mgr_init(&storage_mgr);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	relation_mgr_create(&storage_mgr.mgr, &tr, &t_storage()->rel);
	tr_commit(&tr);
	tr_free(&tr);
	tier_mgr_init(&tier_mgr, &storage_mgr, &pk->keys);
	part_mgr_config_init(&pm_config);
	part_mgr_config_set_partitions(&pm_config, partitions);
	for (int i = 0; i < volumes; i++) {
		auto volume = volume_allocate();
		Str name;
		str_set(&name, "main", 4);
		volume_set_name(volume, &name);
		Uuid id = { .a = 0xabc, .b = 0xde0 + i };
		volume_set_id(volume, &id);
		volume_mgr_add(&pm_config.volumes, volume);
	}
	sequence_init(&seq);
	arg.seq = &seq;
	arg.unlogged = false;
	arg.id_table = &uuid;
	part_mgr_init(&pm, &iface, NULL, &pm_config, &arg, &tier_mgr, &pk->keys);
	part_mgr_open(&pm, &indexes);
}

static void
t_stop(void)
{
	part_mgr_free(&pm);
	list_init(&pm.list);
	volume_mgr_unref(&pm_config.volumes);
	part_mgr_config_free(&pm_config);
	storage_mgr_free(&storage_mgr);
}

// every slot belongs to one partition which claims it; nothing else does
static int  slot_owner[MAXC];    // index of the partition in hash order
static Part* order[MAXC];

static void
t_mapping(int count)
{
	mc_check(pm.list_count == count, "partitions", "%d partitions were created instead of %d", pm.list_count, count);
	mc_check(pm.mapping.map, "mapping", "no mapping");
	static uint8_t claimed[PART_MAPPING_MAX];
	memset(claimed, 0, sizeof(claimed));
	int n = 0;
	list_foreach(&pm.list) {
		auto part = list_at(Part, link);
		uint64_t min = part->heap->header->hash_min, max = part->heap->header->hash_max;
		mc_check(min < max && max <= PART_MAPPING_MAX, "range", "%d partitions: partition %d has range [%d, %d)", count, n, (int)min, (int)max);
		for (uint64_t s = min; s < max; s++) {
			mc_check(! claimed[s], "overlap", "%d partitions: slot %d belongs to two partitions", count, (int)s);
			claimed[s] = 1;
			mc_check(pm.mapping.map[s] == part, "mapping", "%d partitions: slot %d is not mapped to the partition which has it", count, (int)s);
		}
		n++;
	}
	int o = -1;
	Part* prev = NULL;
	for (int s = 0; s < PART_MAPPING_MAX; s++) {
		mc_check(claimed[s], "hole", "%d partitions: slot %d belongs to no partition", count, s);
		auto part = pm.mapping.map[s];
		if (part != prev) { o++; order[o] = part; prev = part; }
		slot_owner[s] = o;
	}
}

static void
t_columns_int(void)
{
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "pk", TYPE_INT, 8);
	pk = kit_index(&columns, "primary", INDEX_TREE, true, true, 0);
	list_init(&indexes);
	list_append(&indexes, &pk->link);
}

#ifdef RANGES
static bool fake;
#define REAL(ret, name, ...) ret __real_##name(__VA_ARGS__)
REAL(int, open, const char*, int, ...);
REAL(int, close, int);
REAL(ssize_t, writev, int, const struct iovec*, int);
REAL(ssize_t, write, int, const void*, size_t);
REAL(ssize_t, pwrite, int, const void*, size_t, off_t);
REAL(ssize_t, pwritev, int, const struct iovec*, int, off_t);
REAL(int, fsync, int);
REAL(int, fdatasync, int);
REAL(int, rename, const char*, const char*);
REAL(int, mkdir, const char*, mode_t);
REAL(int, stat, const char*, struct stat*);
REAL(int, unlink, const char*);
enum { FD = 100000 };
int __wrap_open(const char* p, int flags, int mode) { if (! fake) return __real_open(p, flags, mode); return FD; }
int __wrap_close(int fd) { return fd == FD ? 0 : __real_close(fd); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return fd == FD ? (ssize_t)n : __real_write(fd, b, n); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { return fd == FD ? (ssize_t)n : __real_pwrite(fd, b, n, o); }
static ssize_t iov_total(const struct iovec* iov, int n) { ssize_t t = 0; for (int i = 0; i < n; i++) t += iov[i].iov_len; return t; }
ssize_t __wrap_writev(int fd, const struct iovec* v, int n) { return fd == FD ? iov_total(v, n) : __real_writev(fd, v, n); }
ssize_t __wrap_pwritev(int fd, const struct iovec* v, int n, off_t o) { return fd == FD ? iov_total(v, n) : __real_pwritev(fd, v, n, o); }
int __wrap_fsync(int fd) { return fd == FD ? 0 : __real_fsync(fd); }
int __wrap_fdatasync(int fd) { return fd == FD ? 0 : __real_fdatasync(fd); }
int __wrap_rename(const char* a, const char* b) { return fake ? 0 : __real_rename(a, b); }
int __wrap_unlink(const char* a) { return fake ? 0 : __real_unlink(a); }
int __wrap_mkdir(const char* a, mode_t m) { return fake ? 0 : __real_mkdir(a, m); }
int __wrap_stat(const char* a, struct stat* s) { if (! fake) return __real_stat(a, s); errno = ENOENT; return -1; }
REAL(int, lstat, const char*, struct stat*);
int __wrap_lstat(const char* a, struct stat* s) { if (! fake) return __real_lstat(a, s); errno = ENOENT; return -1; }

static void
t_init_ranges(void)
{
	opt_string_set_raw(&state()->directory, "/nowhere", 8);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->storage_sync, true);
	t_columns_int();
	uuid_init(&uuid);
	fake = true;
}

static int64_t try_count;
static void
t_try(void)
{
	t_start(try_count, 1);
}

static bool
t_rejected(int64_t count)
{
	try_count = count;
	return error_catch(t_try(); );
}

static void
s_ranges(void)
{
	t_init_ranges();
	// all counts; quick: all small ones and a stride over the large
	int count;
	if (mc_tier) count = 1 + mc_choose(PART_MAPPING_MAX);
	else {
		int c = mc_choose(1024 + 256);
		count = c < 1024 ? c + 1 : PART_MAPPING_MAX - (c - 1024) * 28;
	}
	mc_log("count %d ", count);
	if (! mc_split()) { fake = false; return; }
	state_psn_set(0);
	t_start(count, 1);
	t_mapping(count);
	mc_step(count);
	if (count > 1) mc_nontrivial();
	mc_outcome(count);
	// ids are unique
	static uint8_t ids[MAXC + 2];
	memset(ids, 0, sizeof(ids));
	list_foreach(&pm.list) {
		auto part = list_at(Part, link);
		mc_check(part->id.id >= 1 && part->id.id <= (uint64_t)count && ! ids[part->id.id], "ids", "%d partitions: partition id %d is used twice", count, (int)part->id.id);
		ids[part->id.id] = 1;
	}
	t_stop();
	index_config_free(pk);
	columns_free(&columns);
	fake = false;
}

static void
s_limits(void)
{
	t_init_ranges();
	int64_t bad[] = { 0, -1, PART_MAPPING_MAX + 1, INT64_MAX, INT64_MIN, (int64_t)1 << 32 };
	int i = mc_choose(6);
	mc_nontrivial();
	mc_check(t_rejected(bad[i]), "limit", "%lld partitions are accepted", (long long)bad[i]);
	fake = false;
}

McScenario mc_scenarios[] = {
	{ "every-count", s_ranges, 0 },
	{ "bad-counts", s_limits, 0 },
	{ NULL, NULL, 0 },
};

#else
// ---------------------------------------------------------------- keys
enum { T_INT32, T_INT64, T_TS, T_UUID, T_TEXT, T_COMPOSITE, T_MAX };
static const char* type_names[] = { "int32", "int64", "timestamp", "uuid", "text", "text+int" };

typedef struct { const char* text; int size; int64_t n; Uuid u; } KeyVal;
static int    ktype;
static KeyVal keys[MAXK];
static int    nkeys;

static void
t_columns(int type, int index_type)
{
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "v", TYPE_INT, 8);
	switch (type) {
	case T_INT32: kit_column(&columns, "k", TYPE_INT, 4); break;
	case T_INT64: kit_column(&columns, "k", TYPE_INT, 8); break;
	case T_TS:    kit_column(&columns, "k", TYPE_TIMESTAMP, 8); break;
	case T_UUID:  kit_column(&columns, "k", TYPE_UUID, 16); break;
	default:      kit_column(&columns, "k", TYPE_STRING, 0); break;
	}
	kit_column(&columns, "k2", TYPE_INT, 4);
	pk = kit_index(&columns, "primary", index_type, true, true, 1);
	if (type == T_COMPOSITE) kit_key(&pk->keys, 2);
	list_init(&indexes);
	list_append(&indexes, &pk->link);
}

static void
t_keys(int type, int count)
{
	ktype = type;
	nkeys = 0;
	static char texts[MAXK][512];
	for (int i = 0; i < count; i++) {
		auto k = &keys[nkeys++];
		memset(k, 0, sizeof(*k));
		// small, negative and large values
		int64_t v = i < count / 2 ? i - 3 : (int64_t)i * 0x9E3779B97F4A7C15ull;
		if (type == T_INT32) v = (int32_t)v;
		k->n = v;
		k->u.a = i % 5;
		k->u.b = i * 0x9E3779B97F4A7C15ull;
		// lengths around every header size
		static int len[] = { 0, 1, 2, 30, 31, 32, 33, 126, 127, 128, 129, 255, 256, 300 };
		k->size = len[i % 14];
		for (int c = 0; c < k->size; c++) texts[i][c] = 'a' + (i / 14 + c) % 26;
		k->text = texts[i];
		if (type == T_TEXT && i >= 14 && k->size == 0) nkeys--;  // empty text once
	}
}

// form 0: usual encoding; 1, 2: same values stored differently (wider string
// header, filler before the key, wider offsets)
static Row*
t_row(KeyVal* k, int form, int64_t v)
{
	static uint8_t data[4096];
	uint8_t* pos = data;
	int off[3];
	// columns are stored in any order
	if (form == 2) { memset(pos, 0xAA, 300); pos += 300; }
	off[0] = pos - data;
	memcpy(pos, &v, 8); pos += 8;
	off[1] = pos - data;
	int32_t n32 = k->n;
	switch (ktype) {
	case T_INT32: memcpy(pos, &n32, 4); pos += 4; break;
	case T_INT64: case T_TS: memcpy(pos, &k->n, 8); pos += 8; break;
	case T_UUID: memcpy(pos, &k->u, 16); pos += 16; break;
	default:
		if (form == 0) json_write_raw(&pos, k->text, k->size);
		else {
			json_write_string32(&pos, k->size);
			memcpy(pos, k->text, k->size);
			pos += k->size;
		}
	}
	off[2] = pos - data;
	memcpy(pos, &n32, 4); pos += 4;
	int size = pos - data, factor;
	int total = row_measure(3, size, &factor);
	Row* row = malloc(total);
	row_init(row, 3, factor, total);
	uint8_t* at = row_data(row, 3);
	memcpy(at, data, size);
	for (int i = 0; i < 3; i++) row_set(row, i, at + off[i] - (uint8_t*)row);
	return row;
}

static int route[MAXK];        // position of the partition in hash order
static bool present[MAXK];

// same key, same partition, however its row looks like
static void
t_check_route(const char* what, bool first)
{
	for (int i = 0; i < nkeys; i++) {
		int at = -1;
		for (int form = 0; form < 3; form++) {
			auto row = t_row(&keys[i], form, i);
			auto part = part_mapping_map(&pm.mapping, row);
			mc_check(part, "unrouted", "%s: key %d is routed nowhere", what, i);
			int p = 0;
			for (p = 0; p < pm.list_count; p++) if (order[p] == part) break;
			mc_check(p < pm.list_count, "unknown-part", "%s: key %d is routed to an unknown partition", what, i);
			uint32_t slot = row_hash(row, &pk->keys) % PART_MAPPING_MAX;
			mc_check(slot >= part->heap->header->hash_min && slot < part->heap->header->hash_max, "wrong-part", "%s: key %d is routed to a partition with another range", what, i);
			mc_check(at == -1 || at == p, "form", "%s: equal keys %d are routed to different partitions", what, i);
			at = p;
			free(row);
		}
		if (first) route[i] = at;
		mc_check(route[i] == at, "moved", "%s: key %d is routed to another partition than before", what, i);
	}
}

static void
t_check_rows(const char* what)
{
	static int seen[MAXK];
	memset(seen, 0, sizeof(seen));
	// each partition has the rows of its keys
	list_foreach(&pm.list) {
		auto part = list_at(Part, link);
		auto it = cursor_open(&pm, part, pk, false, NULL);
		for (; iterator_has(it); iterator_next(it)) {
			int i = kit_int(iterator_at(it), 0);
			mc_check(i >= 0 && i < nkeys && present[i], "row", "%s: unexpected row %d", what, i);
			mc_check(order[route[i]] == part, "misplaced", "%s: row %d is stored in another partition than its key is routed to", what, i);
			seen[i]++;
		}
		iterator_close(it);
	}
	for (int i = 0; i < nkeys; i++)
		mc_check(seen[i] == present[i], "row-count", "%s: row %d is stored %d times", what, i, seen[i]);
	// a query over all partitions returns each row once
	memset(seen, 0, sizeof(seen));
	auto it = cursor_open(&pm, NULL, pk, false, NULL);
	for (; iterator_has(it); iterator_next(it)) seen[kit_int(iterator_at(it), 0)]++;
	iterator_close(it);
	for (int i = 0; i < nkeys; i++)
		mc_check(seen[i] == present[i], "scan", "%s: row %d is returned %d times by a scan", what, i, seen[i]);
	// a lookup by any form of the key finds its row
	for (int i = 0; i < nkeys; i++) {
		for (int form = 0; form < 3; form++) {
			auto key = t_row(&keys[i], form, 0);
			auto it = cursor_open(&pm, NULL, pk, true, key);
			if (present[i]) mc_check(iterator_has(it) && kit_int(iterator_at(it), 0) == i, "lookup", "%s: key %d is not found", what, i);
			iterator_close(it);
			auto part = part_mapping_map(&pm.mapping, key);
			it = cursor_open(&pm, part, pk, true, key);
			if (present[i]) mc_check(iterator_has(it) && kit_int(iterator_at(it), 0) == i, "lookup", "%s: key %d is not found in its partition", what, i);
			iterator_close(it);
			free(key);
		}
	}
}

static void
t_insert(int i, int form)
{
	auto tmp = t_row(&keys[i], form, i);
	auto part = part_mapping_map(&pm.mapping, tmp);
	auto row = row_copy(part->heap, tmp);
	free(tmp);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	part_insert(part, &tr, false, row);
	tr_commit(&tr);
	tr_free(&tr);
	present[i] = true;
}

static void
t_save(Part* part)
{
	File file;
	file_init(&file);
	heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
	if (opt_int_of(&config()->storage_sync))
		file_sync(&file);
	file_close(&file);
	id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
}

static void
t_route(int count, int volumes, int type, int index_type)
{
	mc_log("%d partitions, %d volumes, %s keys ", count, volumes, type_names[type]);
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->storage_sync, true);
	state_psn_set(0);
	state_lsn_set(0);
	cfs_reset();
	cfs_mkdir("/mem/storage");
	uuid_init(&uuid);
	t_columns(type, index_type);
	t_keys(type, 56);
	memset(present, 0, sizeof(present));
	t_start(count, volumes);
	t_mapping(count);
	t_check_route("after create", true);
	for (int i = 0; i < nkeys; i++)
		if (i % 3 != 1) t_insert(i, i % 3);
	t_check_rows("after insert");
	list_foreach(&pm.list) t_save(list_at(Part, link));
	t_stop();
	for (int i = 0; i < 2; i++) {
		state_psn_set(0);
		t_start(count, volumes);
		t_mapping(count);
		t_check_route("after restart", false);
		t_check_rows("after restart");
		t_stop();
		mc_step(nkeys);
	}
	if (count > 1) mc_nontrivial();
	mc_cases(nkeys * 3);
	index_config_free(pk);
	columns_free(&columns);
}

static void
s_keys(void)
{
	int count = 1 + mc_choose(mc_q(24, 128));
	int volumes = 1 + mc_choose(mc_q(2, 3));
	int type = mc_choose(T_MAX);
	int index_type = mc_choose(2) ? INDEX_HASH : INDEX_TREE;
	if (! mc_split()) return;
	t_route(count, volumes, type, index_type);
}

// equal keys of every size are hashed alike however they are stored
static void
s_hash(void)
{
	int type = mc_choose(T_MAX);
	t_columns(type, INDEX_TREE);
	t_keys(type, 56);
	for (int i = 0; i < nkeys; i++) {
		uint32_t h = 0;
		Row* a = t_row(&keys[i], 0, 1);
		for (int form = 0; form < 3; form++) {
			auto row = t_row(&keys[i], form, 100 + form);
			uint32_t x = row_hash(row, &pk->keys);
			mc_check(form == 0 || h == x, "hash-form", "%s key %d: equal keys have different hashes", type_names[type], i);
			mc_check(! compare(&pk->keys, a, row), "compare-form", "%s key %d: equal keys compare as different", type_names[type], i);
			h = x;
			free(row);
		}
		free(a);
		mc_cases(3);
	}
	mc_nontrivial();
	index_config_free(pk);
	columns_free(&columns);
}

McScenario mc_scenarios[] = {
	{ "keys", s_keys, 0 },
	{ "hash", s_hash, 0 },
	{ NULL, NULL, 0 },
};
#endif

