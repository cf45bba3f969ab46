// C05/C06: partition files. Crash-atomic creation and saving over an in-memory
// disk; exact read back; detection of every damaged byte and truncation.
#include "rowkit.h"
#include "crashfs.h"

enum { MAXP = 3, MAXR = 24, PAGE = 1024 };

typedef struct { int count; int64_t id[MAXR]; int size[MAXR]; } Set;

// ---------------------------------------------------------------- partitions
static Columns       columns;
static IndexConfig*  pk;
static List          indexes;
static StorageMgr    storage_mgr;
static TierMgr       tier_mgr;
static PartMgrConfig pm_config;
static PartMgr       pm;
static bool          pm_open;
static PartArg       arg;
static Sequence      seq;
static Uuid          uuid;
static int           partitions;
static bool          zstd;

static void
t_attach(PartMgr* self)
{
	list_foreach(&self->list) {
		auto part = list_at(Part, link);
		part->heap->page_mgr.page_size = PAGE;
		part_open(part);
	}
}

static void t_detach(PartMgr* self) { (void)self; }
static PartMgrIf iface = { t_attach, t_detach };

static Storage*
t_storage(bool compressed)
{
	auto config = storage_config_allocate();
	Str name;
	str_set(&name, "main", 4);
	storage_config_set_name(config, &name);
	if (compressed) {
		str_set(&name, "zstd", 4);
		storage_config_set_compression(config, &name);
	}
	auto storage = storage_allocate(config);
	storage_config_free(config);
	return storage;
}

static void
t_init(int count, bool compressed)
{
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->storage_sync, true);
	state_psn_set(0);
	state_lsn_set(0);
	cfs_reset();
	cfs_mkdir("/mem/storage");
	memset(&columns, 0, sizeof(columns));
	columns_init(&columns);
	kit_column(&columns, "pk", TYPE_INT, 8);
	kit_column(&columns, "v", TYPE_INT, 8);
	pk = kit_index(&columns, "primary", INDEX_TREE, true, true, 0);
	list_init(&indexes);
	list_append(&indexes, &pk->link);
	partitions = count;
	zstd = compressed;
	uuid_init(&uuid);
	uuid.a = 0x1234;
	uuid.b = 0x5678;
	sequence_init(&seq);
	pm_open = false;
}

static void
t_stop(void)
{
	if (! pm_open) return;
	pm_open = false;
	list_foreach_safe(&pm.list) {
		auto part = list_at(Part, link);
		part_mgr_remove(&pm, part);
		part_free(part);
	}
	list_init(&pm.list);
	part_mgr_free(&pm);
	volume_mgr_unref(&pm_config.volumes);
	part_mgr_config_free(&pm_config);
	storage_mgr_free(&storage_mgr);
}

static void
t_start(void)
{
	mc_check(cfs_open_fds() == 0, "descriptors", "%d descriptors are left open", cfs_open_fds());
	state_psn_set(0);
	storage_mgr_init(&storage_mgr);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	relation_mgr_create(&storage_mgr.mgr, &tr, &t_storage(zstd)->rel);
	tr_commit(&tr);
	tr_free(&tr);
	tier_mgr_init(&tier_mgr, &storage_mgr, &pk->keys);
	part_mgr_config_init(&pm_config);
	part_mgr_config_set_partitions(&pm_config, partitions);
	auto volume = volume_allocate();
	Str name;
	str_set(&name, "main", 4);
	volume_set_name(volume, &name);
	Uuid id = { .a = 0xabc, .b = 0xdef };
	volume_set_id(volume, &id);
	volume_mgr_add(&pm_config.volumes, volume);
	arg.seq = &seq;
	arg.unlogged = false;
	arg.id_table = &uuid;
	part_mgr_init(&pm, &iface, NULL, &pm_config, &arg, &tier_mgr, &pk->keys);
	pm_open = true;
	part_mgr_open(&pm, &indexes);
}

static void
t_set(Heap* heap, Set* set)
{
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, heap, NULL);
	set->count = 0;
	while (heap_iterator_has(&it)) {
		auto row = heap_iterator_at(&it);
		mc_check(set->count < MAXR, "rows-extra", "more rows than were ever written");
		// sorted by id
		int i = set->count++;
		int64_t id = kit_int(row, 1);
		while (i > 0 && set->id[i - 1] > id) { set->id[i] = set->id[i - 1]; set->size[i] = set->size[i - 1]; i--; }
		set->id[i] = id;
		set->size[i] = row_size(row);
		heap_iterator_next(&it);
	}
}

static bool set_eq(Set* a, Set* b)
{
	return a->count == b->count && ! memcmp(a->id, b->id, sizeof(a->id[0]) * a->count) && ! memcmp(a->size, b->size, sizeof(a->size[0]) * a->count);
}

static Part*
t_part(int i)
{
	// by hash range: the order of files in the directory does not matter
	return pm.mapping.map[(PART_MAPPING_MAX / partitions) * i];
}

static Set  saved[MAXP], saving[MAXP];
static int64_t next_id;
static int  inflight;     // partition being saved or -1
static bool created, crashed_creating;

// every hash slot belongs to the partition with its range; no leftovers
static void
t_verify(const char* what)
{
	mc_check(pm.list_count == partitions, "partitions", "%s: %d partitions of %d", what, pm.list_count, partitions);
	for (int s = 0; s < PART_MAPPING_MAX; s++) {
		auto part = pm.mapping.map[s];
		mc_check(part, "mapping-hole", "%s: hash slot %d has no partition", what, s);
		mc_check(s >= part->heap->header->hash_min && s < part->heap->header->hash_max, "mapping", "%s: hash slot %d is mapped outside of its range", what, s);
		int i = s / (PART_MAPPING_MAX / partitions);
		if (i >= partitions) i = partitions - 1;
		mc_check(part == t_part(i), "mapping", "%s: hash slot %d is not mapped as before", what, s);
	}
	char names[64][256];
	int  n = cfs_list("/mem/storage/00000000-0000-0abc-0000-000000000def", names, 64);
	char dir[128], id[UUID_SZ];
	Uuid vid = { .a = 0xabc, .b = 0xdef };
	uuid_get(&vid, id, sizeof(id));
	snprintf(dir, sizeof(dir), "/mem/storage/%s", id);
	n = cfs_list(dir, names, 64);
	mc_check(n == partitions, "leftover", "%s: %d files for %d partitions (%s ..)", what, n, partitions, names[n - 1]);
	for (int i = 0; i < partitions; i++) {
		Set have;
		auto part = t_part(i);
		mc_check(state_psn() >= part->id.id, "psn", "%s: id counter is behind partition ids", what);
		t_set(part->heap, &have);
		bool ok = set_eq(&have, &saved[i]);
		if (! ok && inflight == i && set_eq(&have, &saving[i])) {
			ok = true;
			saved[i] = saving[i];
		}
		mc_check(ok, "rows", "%s: partition %d has %d rows, last completed save had %d, save in progress %d", what, i, have.count, saved[i].count, inflight == i ? saving[i].count : -1);
		// index was rebuilt
		auto it = index_iterator(part_primary(part));
		iterator_open(it, NULL);
		int c = 0;
		for (; iterator_has(it); iterator_next(it)) c++;
		iterator_close(it);
		mc_check(c == have.count, "index", "%s: partition %d index has %d rows of %d", what, i, c, have.count);
	}
	inflight = -1;
	created = true;
}

static void
t_insert(int i)
{
	auto part = t_part(i);
	int64_t v[2] = { next_id, next_id };
	next_id++;
	auto tmp = kit_row_write(NULL, 2, v, NULL);
	auto row = row_copy(part->heap, tmp);
	free(tmp);
	Tr tr;
	tr_init(&tr);
	tr_begin(&tr);
	part_insert(part, &tr, false, row);
	tr_commit(&tr);
	tr_free(&tr);
}

static void
t_delete(int i)
{
	auto part = t_part(i);
	auto it = index_iterator(part_primary(part));
	iterator_open(it, NULL);
	if (iterator_has(it)) {
		Tr tr;
		tr_init(&tr);
		tr_begin(&tr);
		part_delete(part, &tr, it);
		tr_commit(&tr);
		tr_free(&tr);
	}
	iterator_close(it);
}

static void
t_save(int i)
{
	auto part = t_part(i);
	t_set(part->heap, &saving[i]);
	inflight = i;
	File file;
	file_init(&file);
	heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
	if (opt_int_of(&config()->storage_sync))
		file_sync(&file);
	file_close(&file);
	id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
	saved[i] = saving[i];
	inflight = -1;
}

static void
t_snapshot(int i)
{
	// backup: hard link, removed when done
	auto part = t_part(i);
	id_snapshot(&part->id, STATE_COMPLETE, STATE_SNAPSHOT);
	id_delete(&part->id, STATE_SNAPSHOT);
}

static int steps_left;
static bool abandoned;

// known finding: initial creation is not atomic
static bool
t_partial(void)
{
	if (created || ! crashed_creating || ! pm.list_count || pm.list_count == partitions)
		return false;
	abandoned = true;
	mc_fail_soft("create-partial", "creation of the initial partitions was interrupted, %d of %d are there", pm.list_count, partitions);
	return true;
}

static void
incarnation(void* a)
{
	(void)a;
	cfs_arm_crash(true);
	t_start();
	if (t_partial()) return;
	t_verify("after start");
	while (steps_left > 0) {
		int op = mc_choose(5);
		steps_left--;
		mc_step(1);
		switch (op) {
		case 0: mc_log("insert+save 0 "); t_insert(0); t_save(0); break;
		case 1: mc_log("insert+save 1 "); t_insert(1); t_insert(1); t_save(1); break;
		case 2: mc_log("delete+save 0 "); t_delete(0); t_save(0); break;
		case 3: mc_log("insert 0 "); t_insert(0); break;
		case 4: mc_log("snapshot 0 "); t_snapshot(0); break;
		}
	}
}

static void
t_crash(int count, int steps, int crashes, int flags)
{
	mc_budget(crashes);
	t_init(count, mc_choose(2));
	memset(saved, 0, sizeof(saved));
	next_id = 1;
	inflight = -1;
	created = crashed_creating = false;
	steps_left = steps;
	abandoned = false;
	for (;;) {
		bool crashed = cfs_run(incarnation, NULL);
		if (mc_pruned() || abandoned) return;
		// memory of a crashed process is gone
		if (crashed) pm_open = false;
		else t_stop();
		if (! crashed) break;
		mc_nontrivial();
		if (! created) crashed_creating = true;
		cfs_crash(flags);
		if (mc_pruned()) return;
	}
	mc_log("power loss ");
	cfs_crash(flags);
	t_start();
	if (t_partial()) return;
	t_verify("after power loss");
	t_insert(0);
	t_save(0);
	t_stop();
	cfs_crash(flags);
	t_start();
	t_verify("after second power loss");
	t_stop();
	index_config_free(pk);
	columns_free(&columns);
}

static void s_crash_one(void)  { t_crash(2, mc_q(3, 4), 1, CFS_TORN); }
static void s_crash_two(void)  { t_crash(2, mc_q(2, 3), 2, CFS_TORN); }
static void s_crash_tears(void){ t_crash(2, mc_q(2, 2), 1, CFS_TORN | CFS_HOLES | (mc_tier ? CFS_ALLTEARS : 0)); }

// ---------------------------------------------------------------- C06
static Storage* storage;
static Volume*  volume;
static Id       hid;
static void
h_init(bool compressed)
{
	t_init(1, compressed);
	storage = t_storage(compressed);
	volume = volume_allocate();
	volume->storage = storage;
	hid = (Id){ .id = 1, .version = 0, .volume = volume };
	volume_mkdir(volume);
}

static Heap*
h_new(void)
{
	auto heap = heap_allocate(false);
	heap->page_mgr.page_size = PAGE;
	return heap;
}

typedef struct { Heap* heap; bool error; } Open;
static void h_open_call(Open* o) { heap_open(o->heap, &hid, STATE_COMPLETE); }
static void
h_save(Heap* heap)
{
	id_delete(&hid, STATE_COMPLETE);
	File file;
	file_init(&file);
	heap_create(heap, &file, &hid, STATE_COMPLETE);
	file_sync(&file);
	file_close(&file);
}

typedef struct { Row* row; int size; int64_t id; } HRow;
static HRow live[MAXR];
static int  nlive;
static int64_t hid_next;
// total row sizes: small classes, a class boundary, near a page
static int sizes[] = { 8, 40, 41, 300, 900 };

static Row*
h_add(Heap* heap, int size)
{
	int64_t v[2] = { 0, hid_next };
	auto tmp = kit_row_write(NULL, 2, v, NULL);
	int base = row_size(tmp);
	free(tmp);
	(void)base;
	int factor;
	int total = row_measure(2, 16 + size, &factor);
	auto row = (Row*)heap_add(heap, total);
	row_init(row, 2, factor, total);
	uint8_t* pos = row_data(row, 2);
	row_set(row, 0, pos - (uint8_t*)row);
	memcpy(pos, &v[0], 8);
	row_set(row, 1, pos + 8 - (uint8_t*)row);
	memcpy(pos + 8, &v[1], 8);
	memset(pos + 16, (int)(hid_next * 37), size);
	live[nlive++] = (HRow){ row, total, hid_next };
	hid_next++;
	return row;
}

static bool
h_row_ok(Row* row, int64_t id, int total)
{
	if ((int)row_size(row) != total) return false;
	if (kit_int(row, 1) != id) return false;
	uint8_t* pos = row_data(row, 2) + 16;
	for (uint8_t* end = (uint8_t*)row + total; pos < end; pos++)
		if (*pos != (uint8_t)(id * 37)) { 
			// alignment padding is at the end
			return end - pos < 8;
		}
	return true;
}

// heap contents equal the live list
static void
h_verify(Heap* heap, bool relocate, const char* what)
{
	HeapIterator it;
	heap_iterator_init(&it);
	heap_iterator_open(&it, heap, NULL);
	bool seen[MAXR] = {0};
	int  n = 0;
	uint64_t used = 0;
	while (heap_iterator_has(&it)) {
		auto row = heap_iterator_at(&it);
		int  i = 0;
		while (i < nlive && live[i].id != kit_int(row, 1)) i++;
		mc_check(i < nlive, "row-extra", "%s: row %d is not live", what, (int)kit_int(row, 1));
		mc_check(! seen[i], "row-twice", "%s: row %d is returned twice", what, (int)live[i].id);
		mc_check(h_row_ok(row, live[i].id, live[i].size), "row-changed", "%s: row %d is changed", what, (int)live[i].id);
		seen[i] = true;
		if (relocate) live[i].row = row;
		else mc_check(live[i].row == row, "row-moved", "%s: row %d moved", what, (int)live[i].id);
		used += heap->buckets[heap_chunk_of(row)->bucket].size;
		n++;
		heap_iterator_next(&it);
	}
	mc_check(n == nlive, "row-lost", "%s: %d rows of %d", what, n, nlive);
	mc_check((int)heap->header->count_used == nlive && heap->header->size_used == used, "counters", "%s: used counters %d/%d, rows %d/%d", what, (int)heap->header->count_used, (int)heap->header->size_used, nlive, (int)used);
}

static void
h_remove(Heap* heap, int i)
{
	heap_remove(heap, live[i].row);
	live[i] = live[--nlive];
}

static void
h_op(Heap* heap)
{
	int n = sizeof(sizes) / sizeof(sizes[0]);
	int op = mc_choose(n + (nlive > 3 ? 3 : nlive));
	if (op < n) { mc_log("add %d ", sizes[op]); h_add(heap, sizes[op]); }
	else { mc_log("remove %d ", op - n); h_remove(heap, op - n); }
	mc_step(1);
}

static void
h_roundtrip(void)
{
	bool compressed = mc_choose(2);
	int  prepared = mc_choose(2);
	h_init(compressed);
	mc_log("%s ", compressed ? "zstd" : "plain");
	nlive = 0;
	hid_next = 1;
	auto heap = h_new();
	heap->header->lsn = 77;
	heap->header->hash_min = 5;
	heap->header->hash_max = 9;
	if (prepared)
		for (int i = 0; i < 8; i++) h_add(heap, sizes[i % 5]);
	int depth = mc_q(3, 5);
	int more = mc_q(2, 3);
	int first = mc_choose(depth + 1);
	for (int i = 0; i < first; i++) h_op(heap);
	// twice: what is loaded can be saved again
	for (int round = 0; round < 2; round++) {
		mc_log("save, load ");
		h_save(heap);
		auto copy = h_new();
		Open o = { copy, false };
		bool err = error_catch( h_open_call(&o); );
		mc_check(! err, "load-error", "a saved partition does not load: %s", am_error_text());
		mc_check(copy->header->lsn == 77 && copy->header->hash_min == 5 && copy->header->hash_max == 9, "header", "header fields are not read back");
		heap_free(heap);
		heap = copy;
		h_verify(heap, true, "after load");
		for (int i = 0; i < (round ? 1 : more); i++) {
			h_op(heap);
			h_verify(heap, false, "after load and change");
		}
	}
	mc_nontrivial();
	heap_free(heap);
	volume_free(volume);
	storage_free(storage, false);
}

static void
h_damage(void)
{
	bool compressed = mc_choose(2);
	int  kind = mc_choose(5);
	h_init(compressed);
	nlive = 0;
	hid_next = 1;
	auto heap = h_new();
	static const char* kinds[] = { "empty", "one row", "three pages", "with free space", "all free" };
	mc_log("%s %s ", compressed ? "zstd" : "plain", kinds[kind]);
	if (kind == 1) h_add(heap, 40);
	if (kind >= 2) for (int i = 0; i < 9; i++) h_add(heap, sizes[i % 5]);
	if (kind == 3) { h_remove(heap, 2); h_remove(heap, 0); h_remove(heap, 4); }
	if (kind == 4) while (nlive) h_remove(heap, 0);
	h_save(heap);
	char path[PATH_MAX];
	id_path(&hid, path, STATE_COMPLETE, false);
	size_t size;
	auto data = cfs_data(path, &size);
	auto good = malloc(size);
	memcpy(good, data, size);
	uint8_t* bad = malloc(size);
	// split the positions over executions
	int parts = 16;
	int slice = mc_choose(parts);
	size_t from = size * slice / parts, to = size * (slice + 1) / parts;
	uint64_t cases = 0;
	for (size_t at = from; at < to; at++) {
		for (int v = 0; v < mc_q(11, 256); v++) {
			memcpy(bad, good, size);
			size_t n = size;
			if (v == 0)
				n = at; // truncation
			else {
				uint8_t was = bad[at];
				uint8_t set = mc_tier ? (was ^ v) : v <= 8 ? was ^ (1 << (v - 1)) : v == 9 ? 0 : 0xff;
				if (set == was) continue;
				bad[at] = set;
			}
			cfs_set(path, bad, n);
			auto copy = h_new();
			Open o = { copy, false };
			bool err = error_catch( h_open_call(&o); );
			cases++;
			if (! err) {
				mc_check(v != 0, "truncated", "%s: file truncated to %d of %d bytes loads", kinds[kind], (int)n, (int)size);
				h_verify(copy, true, "damaged file");
				// the state needed to go on is the same
				mc_check(! memcmp(copy->header, heap->header, sizeof(HeapHeader) + sizeof(HeapBucket) * 385), "header", "byte %d changed: other header is served", (int)at);
				for (int i = 0; i < copy->page_mgr.list_count; i++) {
					auto a = (PageHeader*)page_mgr_at(&copy->page_mgr, i)->pointer;
					auto b = (PageHeader*)page_mgr_at(&heap->page_mgr, i)->pointer;
					mc_check(a->size == b->size && a->order == b->order && a->last == b->last, "page-header", "byte %d of %d changed: other page header is served", (int)at, (int)size);
				}
			}
			heap_free(copy);
			mc_check(cfs_open_fds() == 0, "descriptors", "file is left open after a load error");
		}
	}
	mc_cases(cases);
	mc_nontrivial();
	free(good);
	free(bad);
	heap_free(heap);
	volume_free(volume);
	storage_free(storage, false);
}

#ifdef C06
McScenario mc_scenarios[] = { { "roundtrip", h_roundtrip, 0 }, { "damage", h_damage, 0 }, { 0 } };
#else
McScenario mc_scenarios[] = {
	{ "crash_one", s_crash_one, 0 }, { "crash_two", s_crash_two, 0 }, { "crash_tears", s_crash_tears, 0 }, { 0 } };
#endif
