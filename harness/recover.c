// C32: recovery of the whole database. The real schema, partitions, log and
// recovery run over an in-memory disk; the server around them (sessions and
// the checkpoint) is replaced by its sequence of calls. After every history of
// changes, with or without a crash at any system call of it, the next start
// finds exactly the tables and rows of the transactions which were committed.
// C33 (-DBACKUP): backups of it, taken with other operations in between, are
// copied, restored into a fresh directory, and opened.
#include "rowkit.h"
#include "crashfs.h"
#include <amelie_db>
void service_create_index(Service*, Tr*, uint8_t*, int);
#ifdef REPL
static bool h_ddl(Catalog*, Tr*, uint8_t*, int);
#define catalog_execute h_ddl
#endif
#include "db/recover.c"
#undef catalog_execute
#include "db/snapshot_mgr.c"

enum { MAXK = 8, NKEY = 4, NT = 3, MAXC = 4, MAXH = 24 };

// ---------------------------------------------------------------- reference
typedef struct { int64_t key, v[MAXC]; int n; } MRow;
typedef struct { bool used; char name[8]; int uid, columns; bool index; int64_t identity; int count; MRow row[MAXK]; } MTab;
typedef struct { MTab t[NT]; } Model;

static Model hist[MAXH];         // states after every transaction
static int   acked, issued;      // states which are durable, may be durable
static const char* issued_what;

static MTab* m_find(Model* m, const char* name)
{
	for (int i = 0; i < NT; i++) if (m->t[i].used && ! strcmp(m->t[i].name, name)) return &m->t[i];
	return NULL;
}
static MRow* m_row(MTab* t, int64_t key)
{
	for (int i = 0; i < t->count; i++) if (t->row[i].key == key) return &t->row[i];
	return NULL;
}

// ---------------------------------------------------------------- database
static Db*  db;
static const char* home = "/mem";
static int  uids, variant;
static bool sync_log;
static int64_t keys[NKEY];       // two of partition 0, two of partition 1
static uint8_t* spill;

static void udf_compile(Catalog* c, Udf* udf) { (void)c; (void)udf; }
static void t_udf_free(Udf* udf) { (void)udf; }
static bool udf_depends(Udf* udf, Str* name) { (void)udf; (void)name; return false; }
static CatalogIf catalog_if = { udf_compile, t_udf_free, udf_depends };

static void
t_attach(PartMgr* self)
{
	list_foreach(&self->list) {
		auto part = list_at(Part, link);
		part->heap->page_mgr.page_size = 1024;
		part_open(part);
	}
}
static void t_detach(PartMgr* self) { (void)self; }
static PartMgrIf part_if = { t_attach, t_detach };
static Str t_str(const char* s) { Str r; str_set(&r, (char*)s, strlen(s)); return r; }

// the index is built by the service; it is not a part of the build
void
service_create_index(Service* self, Tr* tr, uint8_t* op, int flags)
{
	(void)self; (void)flags;
	Str name_db, name;
	auto pos = table_op_index_create_read(op, &name_db, &name);
	auto table = table_mgr_find(&db->catalog.table_mgr, &name_db, &name, true);
	auto config = index_config_read(table_columns(table), &pos);
	keys_set_primary(&config->keys, false);
	if (table_index_find(table, &config->name, false)) error("already exists");
	list_foreach(&table->part_mgr.list) {
		auto part = list_at(Part, link);
		part_index_create(part, config);
		auto index = part_index_find(part, &config->name, true);
		auto it = index_iterator(part_primary(part));
		for (iterator_open(it, NULL); iterator_has(it); iterator_next(it)) index_replace_by(index, iterator_at(it));
		iterator_close(it);
	}
	table_index_add(table, tr, config);
	log_persist_relation(&tr->log, NULL, op);
}

static void
t_open(bool bootstrap)
{
	// as db_open() and system_recover()
	db = calloc(1, sizeof(Db));
	catalog_init(&db->catalog, &catalog_if, NULL, &part_if, NULL);
	wal_mgr_init(&db->wal_mgr);
	snapshot_mgr_init(&db->snapshot_mgr, &db->catalog, &db->wal_mgr.wal);
	catalog_open(&db->catalog, bootstrap);
	Recover recover;
	recover_init(&recover, db, false);
	recover_wal(&recover);
	recover_free(&recover);
}

static void
t_close(void)
{
	snapshot_mgr_free(&db->snapshot_mgr);
	wal_mgr_stop(&db->wal_mgr);
	catalog_close(&db->catalog);
	wal_mgr_free(&db->wal_mgr);
	free(db);
	db = NULL;
}

static void
t_forget(void)
{
	db = NULL;
	state_lsn_set(0);
	state_psn_set(0);
	opt_int_set(&state()->catalog, 0);
	opt_int_set(&state()->catalog_pending, 0);
}

static Table* t_table(const char* name)
{
	Str d = t_str("main"), n = t_str(name);
	return table_mgr_find(&db->catalog.table_mgr, &d, &n, false);
}

static Row*
t_row(Part* part, MTab* t, int64_t key, int64_t value)
{
	int64_t v[MAXC] = { key, key * 10, value, value + 1000 };
	(void)t;
	auto tmp = kit_row_write(NULL, t->columns, v, NULL);
	if (! part) return tmp;
	auto row = row_copy(part->heap, tmp);
	free(tmp);
	return row;
}

static Part* t_part(Table* table, int64_t key)
{
	int64_t v[3] = { key, 0, 0 };
	auto tmp = kit_row_write(NULL, 3, v, NULL);
	auto part = part_mapping_map(&table->part_mgr.mapping, tmp);
	free(tmp);
	return part;
}

// ---------------------------------------------------------------- transactions
// as the commit of the executor (or of a session for schema changes); there is
// one local transaction for each partition
static void
t_commit(Tr** tr, int trs, Part** parts)
{
	Write write;
	write_init(&write);
	write_begin(&write);
	for (int i = 0; i < trs; i++) write_add(&write, &tr[i]->log.write_log);
	WriteList list;
	write_list_init(&list);
	write_list_add(&list, &write);
	wal_mgr_write(&db->wal_mgr, &list);
	auto lsn = write.header.lsn;
	if (! parts) opt_int_set(&state()->catalog_pending, lsn);
	for (int i = 0; i < trs; i++) {
		if (parts) track_lsn_follow(&parts[i]->track, lsn);
		tr_commit(tr[i]);
		tr_free(tr[i]);
	}
	write_free(&write);
	unlock_all();
}

enum { PUT_BOTH, PUT_A, PUT_B, DEL_A, DROP, CREATE, TRUNCATE, RENAME, COL_ADD, IDX_ADD, IDX_DROP, IDENTITY, SAVE, REFRESH, RESTART, BEGIN, END_FIRST, END_LAST, OPS_ALL };
#ifdef BACKUP
enum { OPS = OPS_ALL };
#else
enum { OPS = BEGIN };
#endif
static const char* op_name[] = { "put both", "put a", "put b", "delete a", "drop", "create", "truncate", "rename", "add column", "create index", "drop index", "set identity", "checkpoint", "refresh", "restart", "begin backup", "end first backup", "end last backup" };
static int value;

static bool b_possible(int op);

// the state after the operation; false: not possible now
static bool
m_apply(Model* m, int op)
{
	MTab* t = m_find(m, "t1");
	MTab* t2 = m_find(m, "t2");
	if (op == CREATE) {
		if (t) return false;
		for (int i = 0; i < NT; i++) {
			if (m->t[i].used) continue;
			memset(&m->t[i], 0, sizeof(MTab));
			m->t[i].used = true;
			strcpy(m->t[i].name, "t1");
			m->t[i].columns = 3;
			m->t[i].index = true;
			m->t[i].uid = uids + 1;
			return true;
		}
		return false;
	}
	if (op >= BEGIN) return b_possible(op);
	if (! t) return op == SAVE || op == RESTART;

	int64_t put[2];
	int n = 0;
	switch (op) {
	case PUT_BOTH: put[n++] = keys[0]; put[n++] = keys[2]; break;
	case PUT_A: put[n++] = keys[0]; break;
	case PUT_B: put[n++] = keys[3]; break;
	case DEL_A: {
		MRow* r = m_row(t, keys[0]);
		if (! r) return false;
		*r = t->row[--t->count];
		break;
	}
	case DROP: t->used = false; break;
	case TRUNCATE: t->count = 0; break;
	case RENAME: if (t2) return false; strcpy(t->name, "t2"); break;
	case COL_ADD: if (t->columns == MAXC) return false; t->columns++; break;
	case IDENTITY: if (t->identity) return false; t->identity = 100; break;
	case IDX_ADD: if (t->index) return false; t->index = true; break;
	case IDX_DROP: if (! t->index) return false; t->index = false; break;
	}
	for (int i = 0; i < n; i++) {
		MRow* r = m_row(t, put[i]);
		if (! r) r = &t->row[t->count++];
		r->key = put[i];
		r->n = t->columns;
		r->v[0] = put[i];
		r->v[1] = put[i] * 10;
		r->v[2] = value;
		r->v[3] = value + 1000;
	}
	return true;
}

static void
t_ddl(Tr* tr, int op)
{
	Str d = t_str("main"), n = t_str("t1"), n2 = t_str("t2"), idx = t_str("idx");
	auto buf = buf_create();
	defer_buf(buf);
	switch (op) {
	case CREATE: {
		auto c = table_config_allocate();
		table_config_set_db(c, &d);
		table_config_set_name(c, &n);
		Uuid id = { .a = 9, .b = ++uids };
		table_config_set_id(c, &id);
		auto pk = kit_column(&c->columns, "pk", TYPE_INT, 8);
		constraints_set_not_null(&pk->constraints, true);
		constraints_set_as_identity(&pk->constraints, IDENTITY_SERIAL);
		kit_column(&c->columns, "k", TYPE_INT, 8); // (indexed columns are not updated)
		kit_column(&c->columns, "a", TYPE_INT, 8);
		auto primary = kit_index(&c->columns, "primary", variant ? INDEX_HASH : INDEX_TREE, true, true, 0);
		table_config_index_add(c, primary);
		auto x = kit_index(&c->columns, "idx", variant ? INDEX_TREE : INDEX_HASH, false, false, 1);
		keys_copy_distinct(&x->keys, &primary->keys);
		table_config_index_add(c, x);
		part_mgr_config_set_partitions(&c->part_mgr_config, 2);
		auto volume = volume_allocate();
		Str s = t_str("main");
		volume_set_name(volume, &s);
		Uuid vid = { .a = 7, .b = uids };
		volume_set_id(volume, &vid);
		volume_mgr_add(&c->part_mgr_config.volumes, volume);
		table_op_create(buf, c);
		table_config_free(c);
		break;
	}
	case DROP: table_op_drop(buf, &d, &n); break;
	case TRUNCATE: table_op_truncate(buf, &d, &n); break;
	case RENAME: table_op_rename(buf, &d, &n, &d, &n2); break;
	case COL_ADD: {
		auto c = column_allocate();
		Str s = t_str("b");
		column_set_name(c, &s);
		column_set_type(c, TYPE_INT, 8);
		table_op_column_add(buf, &d, &n, c);
		column_free(c);
		break;
	}
	case IDENTITY: table_op_set_identity(buf, &d, &n, 100); break;
	case IDX_DROP: table_op_index_drop(buf, &d, &n, &idx); break;
	case IDX_ADD: {
		auto table = t_table("t1");
		auto x = kit_index(table_columns(table), "idx", variant ? INDEX_TREE : INDEX_HASH, false, false, 1);
		keys_copy_distinct(&x->keys, table_keys(table));
		table_op_index_create(buf, &d, &n, x);
		index_config_free(x);
		service_create_index(&db->service, tr, buf->start, 0);
		return;
	}
	}
	catalog_execute(&db->catalog, tr, buf->start, 0);
}

static void
t_refresh(Table* table, Part* part)
{
	// what the service does to the files (C05 has the concurrent part)
	(void)table;
	track_sync(&part->track, &part->track.consensus);
	part->heap->header->lsn = part->track.lsn;
	File file;
	file_init(&file);
	heap_create(part->heap, &file, &part->id, STATE_INCOMPLETE);
	if (opt_int_of(&config()->storage_sync)) file_sync(&file);
	file_close(&file);
	id_rename(&part->id, STATE_INCOMPLETE, STATE_COMPLETE);
}

static void t_gc(void);

static void
t_checkpoint(void)
{
	// as service_checkpoint() and service_gc()
	auto lsn = state_lsn();
	if (state_catalog() < state_catalog_pending())
		catalog_write(&db->catalog);
	list_foreach(&db->catalog.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		list_foreach(&table->part_mgr.list) {
			auto part = list_at(Part, link);
			if (part->heap->header->lsn < lsn && part_has_updates(part)) t_refresh(table, part);
		}
	}
	t_gc();
}

static void
t_gc(void)
{
	auto min = UINT64_MAX;
	if (state_catalog_pending() > state_catalog()) min = state_catalog();
	list_foreach(&db->catalog.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		list_foreach(&table->part_mgr.list) {
			auto part = list_at(Part, link);
			if (! part_has_updates(part)) continue;
			if (part->heap->header->lsn < min) min = part->heap->header->lsn;
		}
	}
	wal_gc(&db->wal_mgr.wal, min);
}

// ---------------------------------------------------------------- backups
typedef struct { char path[200]; uint8_t* data; size_t size; bool dir; } Copied;
typedef struct { Snapshot* snapshot; int state; bool done; int files; Copied file[40]; } Backup_;
static Backup_ backups[4];
static int     nbackups;

static Backup_* b_active(bool last)
{
	Backup_* found = NULL;
	for (int i = 0; i < nbackups; i++) {
		if (! backups[i].snapshot) continue;
		if (! found || last) found = &backups[i];
	}
	return found;
}

static bool b_possible(int op)
{
	int active = 0;
	for (int i = 0; i < nbackups; i++) active += backups[i].snapshot != NULL;
	if (op == BEGIN) return nbackups < 3 && active < 2;
	if (op == END_FIRST) return active > 0;
	return active > 1;
}

static void b_forget(void)
{
	// a restart ends the backups which run
	for (int i = 0; i < nbackups; i++) backups[i].snapshot = NULL;
}

static void b_reset(void)
{
	for (int i = 0; i < nbackups; i++)
		for (int j = 0; j < backups[i].files; j++) free(backups[i].file[j].data);
	memset(backups, 0, sizeof(backups));
	nbackups = 0;
}

static Copied* b_file(Backup_* b, Str* name)
{
	mc_check(b->files < 40, "harness", "files");
	Copied* f = &b->file[b->files++];
	memset(f, 0, sizeof(*f));
	int size = str_size(name);
	// (as restore_file_remote)
	if (size > 9 && ! strncmp(name->end - 9, ".snapshot", 9)) size -= 9;
	snprintf(f->path, sizeof(f->path), "/mem/%.*s", size, str_of(name));
	return f;
}

static bool faulty; // a system call of the begin of a backup may fail

// Known finding: DROP removes the directory of the table with the files of
// backups which run.
static bool b_dropped(Backup_* b)
{
	for (int i = 0; i < NT; i++) {
		MTab* t = &hist[b->state].t[i];
		if (! t->used) continue;
		bool is = false;
		for (int j = 0; j < NT; j++) is |= hist[acked].t[j].used && hist[acked].t[j].uid == t->uid;
		if (! is) return true;
	}
	return false;
}

static void
b_run(int op)
{
	if (op == BEGIN) {
		// as db_snapshot()
		Backup_* b = &backups[nbackups++];
		memset(b, 0, sizeof(*b));
		b->state = acked;
		auto lock_catalog = lock_system(REL_CATALOG, LOCK_EXCLUSIVE);
		Snapshot* s = NULL;
		int faults = cfs_fault_count();
		cfs_arm_fault(faulty);
		auto failed = error_catch( s = snapshot_mgr_create(&db->snapshot_mgr); );
		cfs_arm_fault(false);
		unlock(lock_catalog);
		b->snapshot = s;
		if (failed) {
			mc_check(cfs_fault_count() > faults, "refused", "backup is refused: %s", am_error_text());
			mc_nontrivial();
			nbackups--;
		}
		return;
	}

	// as restore_run(): the files are copied, then the backup ends
	Backup_* b = b_active(op == END_LAST);
	auto pos = b->snapshot->data.start;
	uint8_t *pos_catalog = NULL, *pos_volumes = NULL, *pos_files = NULL, *pos_wal = NULL, *pos_version = NULL, *pos_config = NULL, *pos_state = NULL;
	Decode obj[] = {
		{ DECODE_OBJ,   "version", &pos_version },
		{ DECODE_OBJ,   "config",  &pos_config  },
		{ DECODE_OBJ,   "state",   &pos_state   },
		{ DECODE_OBJ,   "catalog", &pos_catalog },
		{ DECODE_ARRAY, "volumes", &pos_volumes },
		{ DECODE_ARRAY, "files",   &pos_files   },
		{ DECODE_ARRAY, "wal",     &pos_wal     },
		{ 0,             NULL,      NULL        },
	};
	decode_obj(obj, "snapshot", &pos);
	auto text = buf_create();
	json_export_pretty(text, NULL, &pos_catalog);
	Str name = t_str("catalog.json");
	Copied* f = b_file(b, &name);
	f->size = buf_size(text);
	f->data = malloc(f->size);
	memcpy(f->data, text->start, f->size);
	buf_free(text);
	json_read_array(&pos_volumes);
	while (! json_read_array_end(&pos_volumes)) {
		json_read_string(&pos_volumes, &name);
		b_file(b, &name)->dir = true;
	}
	for (int i = 0; i < 2; i++) {
		auto at = i ? &pos_wal : &pos_files;
		json_read_array(at);
		while (! json_read_array_end(at)) {
			int64_t size, mode;
			decode_basefile(at, &name, &size, &mode);
			char path[300];
			snprintf(path, sizeof(path), "/mem/%.*s", str_size(&name), str_of(&name));
			f = b_file(b, &name);
			size_t now = 0;
			char* data = cfs_data(path, &now);
			mc_check(data || (cfs_exists(path) && ! size), b_dropped(b) ? "drop-during" : "file-gone", "file %s of the backup is gone", path);
			mc_check((size_t)size <= now, "file-short", "file %s of the backup has %d bytes of %d", path, (int)now, (int)size);
			f->data = malloc(size + 1);
			memcpy(f->data, data, size);
			f->size = size;
		}
	}
	b->done = true;

	// as db_snapshot_drop()
	auto s = b->snapshot;
	b->snapshot = NULL;
	auto lock_catalog = lock_system(REL_CATALOG, LOCK_EXCLUSIVE);
	snapshot_mgr_drop(&db->snapshot_mgr, s);
	unlock(lock_catalog);
	t_gc();
}

// nothing is left of backups which ended
static void
b_left(const char* what)
{
	if (b_active(false) || strcmp(home, "/mem")) return;
	mc_check(db->wal_mgr.wal.slots_count == 0, "slots", "%s: the log is kept for %d backups", what, db->wal_mgr.wal.slots_count);
	char names[16][256];
	list_foreach(&db->catalog.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		list_foreach(&table->config->part_mgr_config.volumes.list) {
			char id[UUID_SZ], path[300];
			uuid_get(&list_at(Volume, link)->id, id, sizeof(id));
			snprintf(path, sizeof(path), "/mem/storage/%s", id);
			int n = cfs_list(path, names, 16);
			for (int i = 0; i < n; i++) mc_check(! strchr(names[i], '.'), "left", "%s: file %s is left", what, names[i]);
			mc_check(n == 2, "left", "%s: there are %d files of partitions", what, n);
		}
	}
}

static void
t_run(void* arg)
{
	int op = *(int*)arg;
	cfs_arm_crash(! faulty && (OPS == BEGIN || op >= BEGIN)); // (C33: crashes of other operations are C32)
	if (op == SAVE) t_checkpoint();
	else if (op >= BEGIN) b_run(op);
	else if (op == REFRESH) {
		auto table = t_table("t1");
		t_refresh(table, t_part(table, keys[0]));
	} else if (op == RESTART) {
		b_forget();
		t_close();
		t_forget();
		t_open(false);
	} else {
		Part* parts[2];
		Tr*   tr[2];
		int   trs = 0;
		bool  ddl = op > DEL_A;
		if (! ddl) {
			auto table = t_table("t1");
			auto t = m_find(&hist[issued], "t1");
			int64_t k[2];
			int n = 0;
			if (op == PUT_B) k[n++] = keys[3];
			else k[n++] = keys[0];
			if (op == PUT_BOTH) k[n++] = keys[2];
			for (int i = 0; i < n; i++) {
				auto part = t_part(table, k[i]);
				tr[trs] = tr_allocate();
				tr_begin(tr[trs]);
				if (op == DEL_A) {
					auto key = t_row(NULL, t, k[i], 0);
					part_delete_by(part, tr[trs], key);
					free(key);
				} else
					part_insert(part, tr[trs], true, t_row(part, t, k[i], value));
				parts[trs++] = part;
			}
		} else {
			tr[trs] = tr_allocate();
			tr_begin(tr[trs]);
			t_ddl(tr[trs++], op);
		}
		t_commit(tr, trs, ddl ? NULL : parts);
	}
	cfs_arm_crash(false);
}

static void
t_reopen(void* arg)
{
	(void)arg;
	cfs_arm_crash(true);
	t_open(false);
	cfs_arm_crash(false);
}

// ---------------------------------------------------------------- comparison
static char why[512];

static bool
t_same(Model* m)
{
	why[0] = 0;
	int tables = 0;
	list_foreach(&db->catalog.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		tables++;
		char name[32];
		snprintf(name, sizeof(name), "%.*s", str_size(&table->config->name), str_of(&table->config->name));
		MTab* t = m_find(m, name);
		if (! t || table->config->id.b != (uint64_t)t->uid) { snprintf(why, sizeof(why), "table %s (%d) exists", name, (int)table->config->id.b); return false; }
		if (table->config->columns.count != t->columns) { snprintf(why, sizeof(why), "table %s has %d columns of %d", name, table->config->columns.count, t->columns); return false; }
		if (table->config->indexes_count != 1 + t->index) { snprintf(why, sizeof(why), "table %s has %d indexes of %d", name, table->config->indexes_count, 1 + t->index); return false; }
		int rows = 0;
		list_foreach(&table->part_mgr.list) {
			auto part = list_at(Part, link);
			auto it = index_iterator(part_primary(part));
			int  n = 0;
			for (iterator_open(it, NULL); iterator_has(it); iterator_next(it)) {
				auto row = iterator_at(it);
				MRow* r = m_row(t, kit_int(row, 0));
				n++;
				if (! r) { snprintf(why, sizeof(why), "table %s has the row %d", name, (int)kit_int(row, 0)); iterator_close(it); return false; }
				for (int c = 0; c < r->n; c++)
					if (! row_at(row, c) || kit_int(row, c) != r->v[c]) { snprintf(why, sizeof(why), "row %d has %d in column %d, not %d", (int)r->key, row_at(row, c) ? (int)kit_int(row, c) : -1, c, (int)r->v[c]); iterator_close(it); return false; }
				if (row_at(row, r->n)) { snprintf(why, sizeof(why), "row %d has an extra column", (int)r->key); iterator_close(it); return false; }
			}
			iterator_close(it);
			rows += n;
		}
		if (rows != t->count) { snprintf(why, sizeof(why), "table %s has %d rows of %d", name, rows, t->count); return false; }
	}
	int want = 0;
	for (int i = 0; i < NT; i++) want += m->t[i].used;
	if (tables != want) { snprintf(why, sizeof(why), "%d tables of %d", tables, want); return false; }
	return true;
}

// Known finding: a dropped table. The catalog file still has it, its partition files are
// removed, and a delete of a row which was saved in them does not match.
static bool dropped; // since the last checkpoint

static const char*
t_open_sig(const char* sig)
{
	if (dropped && strstr(am_error_text(), "delete by key does not match")) return "drop-replay";
	return sig;
}

// Known findings: a crash between the creations (replay of CREATE) or removals
// (DROP) of the partition files of one table leaves some of them, and holes in
// the mapping.
static bool
t_partial(void)
{
	char dirs[16][256], names[16][256];
	int n = cfs_list("/mem/storage", dirs, 16);
	for (int i = 0; i < n; i++) {
		char path[600];
		snprintf(path, sizeof(path), "/mem/storage/%s", dirs[i]);
		int c = cfs_list(path, names, 16), parts = 0;
		for (int j = 0; j < c; j++) parts += ! strchr(names[j], '.');
		if (parts == 1) return true;
	}
	return false;
}

// properties of any recovered state
static const char* hole_sig = "hole";

static void
t_sound(const char* what)
{
	list_foreach(&db->catalog.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		int64_t last = 0;
		for (int s = 0; s < PART_MAPPING_MAX; s++)
			mc_check(table->part_mgr.mapping.map[s], hole_sig, "%s: hash slot %d has no partition", what, s);
		list_foreach(&table->part_mgr.list) {
			auto part = list_at(Part, link);
			mc_check(state_psn() >= part->id.id, "psn", "%s: id counter is behind partition ids", what);
			mc_check(state_lsn() >= part->heap->header->lsn, "lsn", "%s: log position is behind a partition", what);
			int n = -1;
			for (auto index = part->indexes; index; index = index->next) {
				auto it = index_iterator(index);
				int c = 0;
				for (iterator_open(it, NULL); iterator_has(it); iterator_next(it), c++) {
					auto row = iterator_at(it);
					mc_check(part_mapping_map(&table->part_mgr.mapping, row) == part, "routing", "%s: row %d is in a wrong partition", what, (int)kit_int(row, 0));
					if (kit_int(row, 0) > last) last = kit_int(row, 0);
				}
				iterator_close(it);
				if (n == -1) n = c;
				mc_check(n == c, "index", "%s: index %.*s has %d rows of %d", what, str_size(&index->config->name), str_of(&index->config->name), c, n);
			}
			// nothing else is in the heap
			HeapIterator it;
			heap_iterator_init(&it);
			heap_iterator_open(&it, part->heap, NULL);
			int c = 0;
			for (; heap_iterator_has(&it); heap_iterator_next(&it)) c++;
			mc_check(n == c, "heap", "%s: partition has %d rows in the heap, %d in indexes", what, c, n);
		}
		mc_check((int64_t)sequence_get(&table->seq) > last || last == 0, "identity", "%s: next identity %d was used before (%d)", what, (int)sequence_get(&table->seq), (int)last);
	}
}

static bool saved; // a checkpoint (the catalog does not have the identity)

static void
t_identity(const char* what)
{
	if (strcmp(home, "/mem")) return; // (C41)
	list_foreach(&db->catalog.table_mgr.mgr.list) {
		auto table = table_of(list_at(Relation, link));
		for (int i = 0; i < NT; i++) {
			MTab* t = &hist[acked].t[i];
			if (! t->used || t->uid != (int)table->config->id.b || t->identity <= (int64_t)sequence_get(&table->seq)) continue;
			// (in progress: it is not visible otherwise)
			if (acked && ! strcmp(issued_what, op_name[IDENTITY])) continue;
			mc_fail_soft(saved ? "set-identity" : "identity-lost", "%s: next identity is %d, it was set to %d", what, (int)sequence_get(&table->seq), (int)t->identity);
			t->identity = 0;
		}
	}
}

static void
t_verify(const char* what)
{
	t_sound(what);
	if (t_same(&hist[acked])) { issued = acked; t_identity(what); return; }
	char first[512];
	strcpy(first, why);
	if (issued != acked && t_same(&hist[issued])) { acked = issued; t_identity(what); return; }
	mc_check(false, "state", "%s: %s; %d transactions committed%s%s", what, first, acked, issued != acked ? ", in progress: " : "", issued != acked ? issued_what : "");
}

static int crash_flags;

static bool
t_step(int op)
{
	Model next = hist[acked];
	value++;
	if (! m_apply(&next, op)) return false;
	bool txn = op < SAVE;
	issued = acked;
	if (txn) { issued = acked + 1; mc_check(issued < MAXH, "harness", "history"); hist[issued] = next; }
	issued_what = op_name[op];
	if (op == SAVE || op == BEGIN) saved = true;
	if (op == DROP) dropped = true;
	mc_log("%s", op_name[op]);
	mc_step(1);
	bool crashed = false;
	hole_sig = "hole";
	auto failed = error_catch( crashed = cfs_run(t_run, &op); );
	mc_check(! failed, op == RESTART ? t_open_sig("error") : "error", "%s fails: %s", op_name[op], am_error_text());
	if (crashed) {
		mc_nontrivial();
		// (the budget allows one more crash only in the deep scenario)
		do {
			mc_log("crash");
			if (sync_log) cfs_crash(crash_flags);
			else cfs_crash_exact();
			t_forget();
			b_forget();
			hole_sig = t_partial() ? (op == DROP ? "drop-partial" : "create-partial") : "hole";
			crashed = false;
			failed = error_catch( crashed = cfs_run(t_reopen, NULL); );
			mc_check(! failed, t_open_sig(strcmp(hole_sig, "hole") && strstr(am_error_text(), "partition mapping failed") ? hole_sig : "open"), "database does not open after a crash during %s: %s", op_name[op], am_error_text());
		} while (crashed);
		t_verify("after a crash");
		b_left("after a crash");
		return true;
	}
	acked = issued;
	if (op == SAVE) dropped = false;
	if (op == RESTART) t_verify("after a restart");
	b_left(op_name[op]);
	return true;
}

static void
t_start_config(void)
{
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->storage_sync, true);
	opt_int_set(&config()->catalog_sync, true);
	opt_int_set(&config()->wal_worker, false);
	opt_int_set(&config()->wal_crc, true);
	opt_int_set(&config()->wal_size, variant ? 60 : 300);
	opt_int_set(&config()->wal_sync_on_write, sync_log);
	opt_int_set(&config()->wal_sync_on_create, true);
	opt_int_set(&config()->wal_sync_on_close, true);
	opt_int_set(&config()->wal_truncate, 0);
}

static void
t_start(void)
{
	t_start_config();
	t_forget();
	b_reset();
	cfs_arm_fault(false);
	cfs_reset();
	cfs_mkdir("/mem");
	cfs_mkdir("/mem/storage");
	memset(hist, 0, sizeof(hist));
	acked = issued = 0;
	uids = value = 0;
	saved = dropped = false;
	auto failed = error_catch( t_open(true); );
	mc_check(! failed, "bootstrap", "new database does not open: %s", am_error_text());
}

static void
b_restore(Backup_* b)
{
	// as restore_run()
	mc_log("restore");
	mc_nontrivial();
	cfs_reset();
	cfs_mkdir("/mem");
	cfs_mkdir("/mem/storage");
	cfs_mkdir("/mem/wal");
	for (int i = 0; i < b->files; i++) {
		Copied* f = &b->file[i];
		if (f->dir) cfs_mkdir(f->path);
		else {
			mc_check(! cfs_exists(f->path), "twice", "file %s is twice in the backup", f->path);
			cfs_set(f->path, f->data, f->size);
		}
	}
	t_forget();
	acked = issued = b->state;
	hole_sig = "hole";
	auto failed = error_catch( t_open(false); );
	mc_check(! failed, t_open_sig("open"), "restored backup does not open: %s", am_error_text());
	t_verify("restored");
	if (m_find(&hist[acked], "t1")) t_step(PUT_BOTH);
	t_step(RESTART);
	t_close();
}

static void
t_keys(void)
{
	if (! keys[0]) {
		// two keys of each partition
		auto table = t_table("t1");
		auto first = list_first(&table->part_mgr.list);
		auto part = container_of(first, Part, link);
		int a = 0, b = 0;
		for (int64_t k = 1; a < 2 || b < 2; k++) {
			bool is = t_part(table, k) == part;
			if (is && a < 2) keys[a++] = k;
			if (! is && b < 2) keys[2 + b++] = k;
		}
	}
}

static void
t_history(int depth, int crashes)
{
	sync_log = mc_choose(2);
	variant = mc_choose(2);
	t_start();
	int op = CREATE;
	mc_check(t_step(op), "harness", "create");
	t_keys();
	int ops[2] = { mc_choose(OPS), mc_choose(OPS) };
	if (! mc_split()) { t_forget(); return; }
	mc_budget(crashes);
	for (int i = 0; i < depth; i++) {
		op = i < 2 ? ops[i] : mc_choose(OPS);
		int left = mc_budget_left();
		if (! t_step(op)) { t_close(); return; }
		if (! faulty && mc_budget_left() < left) break;
	}
	mc_budget(0);
#ifdef BACKUP
	while (b_active(false)) t_step(END_FIRST);
	if (! nbackups) { t_close(); return; }
#endif
	// the database works on, and the next start finds it again
	if (m_find(&hist[acked], "t1")) t_step(PUT_BOTH);
	t_step(RESTART);
	t_close();
	mc_check(cfs_open_fds() == 0, "descriptors", "%d descriptors are left open", cfs_open_fds());
	// (the last one first: the states after it are not needed any more)
	for (int i = nbackups - 1; i >= 0; i--) if (backups[i].done) b_restore(&backups[i]);
}

#ifdef REPL
#elif defined(BACKUP)
static void sc_backup(void) { crash_flags = CFS_TORN; t_history(mc_q(4, 5), 0); }
static void sc_crash(void) { crash_flags = CFS_TORN; t_history(mc_q(4, 5), 1); }
static void sc_fault(void) { faulty = true; t_history(mc_q(3, 5), 1); faulty = false; }
McScenario mc_scenarios[] = {
	{ "backup", sc_backup },
	{ "fault", sc_fault },
	{ "crash", sc_crash },
	{ NULL, NULL }
};
#else
static void sc_history(void) { crash_flags = CFS_TORN; t_history(mc_q(4, 5), 0); }
static void sc_crash(void)   { crash_flags = CFS_TORN; t_history(mc_q(3, 4), 1); }

// a second crash during the recovery
static void sc_twice(void) { crash_flags = 0; t_history(mc_q(2, 3), 2); }

McScenario mc_scenarios[] = {
	{ "history", sc_history },
	{ "crash", sc_crash },
	{ "twice", sc_twice },
	{ NULL, NULL }
};
#endif
