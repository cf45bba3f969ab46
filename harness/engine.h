#pragma once
// The whole server below its connections: sessions, compiler, virtual machine,
// executor with its backends and group commit, schema, partitions and log over an
// in-memory disk.
#include "rowkit.h"
#include "crashfs.h"
#include <amelie_server>
#include <amelie_db>
#include <amelie_sync>
#include <amelie_vm>
#include <amelie_compiler>
#include <amelie_frontend.h>
#include <amelie_backend.h>
#include <amelie_session.h>
#include <amelie_system.h>

// db/db and db/service without the background services
static Db* e_db;
void db_init(Db* a, CatalogIf* b, void* c, PartMgrIf* d, void* e) { (void)a; (void)b; (void)c; (void)d; (void)e; }
void db_free(Db* a) { (void)a; }
void db_open(Db* a, bool b) { (void)a; (void)b; }
void db_close(Db* a) { (void)a; }
Buf* db_state(Db* a) { (void)a; return NULL; }
Snapshot* db_snapshot(Db* a) { (void)a; return NULL; }
void db_snapshot_drop(Db* a, Snapshot* b) { (void)a; (void)b; }
int service_checkpoint(Service* a) { (void)a; error("checkpoint"); }
int service_refresh(Service* a, ...) { (void)a; error("refresh"); }
int service_flush(Service* a, ...) { (void)a; error("flush"); }

void service_create_index(Service*, Tr*, uint8_t*, int);
#include "db/recover.c"
#include "db/snapshot_mgr.c"
#include "system/system.c"

// the index is built by the service; it is not a part of the build
void
service_create_index(Service* self, Tr* tr, uint8_t* op, int flags)
{
	(void)self; (void)flags;
	Str name_db, name;
	auto pos = table_op_index_create_read(op, &name_db, &name);
	auto table = table_mgr_find(&e_db->catalog.table_mgr, &name_db, &name, true);
	auto config = index_config_read(table_columns(table), &pos);
	keys_set_primary(&config->keys, false);
	if (table_index_find(table, &config->name, false)) error("already exists");
	list_foreach(&table->part_mgr.list) {
		auto part = list_at(Part, link);
		track_sync(&part->track, &part->track.consensus);
		part_index_create(part, config);
		auto index = part_index_find(part, &config->name, true);
		auto it = index_iterator(part_primary(part));
		for (iterator_open(it, NULL); iterator_has(it); iterator_next(it)) index_replace_by(index, iterator_at(it));
		iterator_close(it);
	}
	table_index_add(table, tr, config);
	log_persist_relation(&tr->log, NULL, op);
}

static Share       e_share;
static Executor    e_executor;
static Commit      e_commit;
static BackendMgr  e_backends;
static FunctionMgr e_functions;
static UserMgr     e_users;
static Endpoint    e_endpoint;
static Output      e_output;
static Session*    e_session;
static int         e_workers = 2;
static FILE*       e_trace;

static void
e_attach(PartMgr* self)
{
	list_foreach(&self->list) {
		auto part = list_at(Part, link);
		part->heap->page_mgr.page_size = 4096;
	}
	// (one after another, the disk in memory has no locks)
	list_foreach(&self->list) backend_mgr_deploy(&e_backends, list_at(Part, link));
}
static void e_detach(PartMgr* self) { backend_mgr_undeploy_all(&e_backends, self); }
static PartMgrIf e_part_if = { e_attach, e_detach };
static void e_save(void* arg) { (void)arg; }
static RuntimeIf e_runtime_if = { e_save };

static void
e_config(void)
{
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->storage_crc, true);
	opt_int_set(&config()->wal_worker, false);
	opt_int_set(&config()->wal_crc, true);
	opt_int_set(&config()->wal_size, 1000000000);
	opt_int_set(&config()->wal_sync_on_write, false);
	opt_int_set(&config()->backends, e_workers);
	opt_string_set_raw(&config()->timezone, "UTC", 3);
}

// once in a process
static void
e_setup(void)
{
	static bool once;
	if (once) return;
	once = true;
	if (getenv("AM_SQL")) e_trace = fopen(getenv("AM_SQL"), "w");
	e_config();
	runtime()->iface = &e_runtime_if;
	e_share = (Share){ .executor = &e_executor, .commit = &e_commit, .function_mgr = &e_functions, .user_mgr = &e_users };
	am_share = &e_share;
	user_mgr_init(&e_users);
	executor_init(&e_executor);
	function_mgr_init(&e_functions);
	fn_register(&e_functions);
	backend_mgr_init(&e_backends);
	backend_mgr_start(&e_backends, e_workers);
	endpoint_init(&e_endpoint);
	opt_string_set_raw(&e_endpoint.db, "main", 4);
	opt_string_set_raw(&e_endpoint.content_type, "plain/text", 10);
	opt_string_set_raw(&e_endpoint.accept, "application/json", 16);
	output_init(&e_output);
	output_set_buf(&e_output, buf_create());
	output_reset(&e_output);
	output_set(&e_output, &e_endpoint);
	commit_init(&e_commit, NULL, &e_executor);
	commit_start(&e_commit);
	e_session = session_create();
}

static void
e_open(bool bootstrap)
{
	e_setup();
	e_db = calloc(1, sizeof(Db));
	e_share.db = e_db;
	catalog_init(&e_db->catalog, &catalog_if, NULL, &e_part_if, NULL);
	wal_mgr_init(&e_db->wal_mgr);
	snapshot_mgr_init(&e_db->snapshot_mgr, &e_db->catalog, &e_db->wal_mgr.wal);
	e_commit.db = e_db;
	catalog_open(&e_db->catalog, bootstrap);
	Recover recover;
	recover_init(&recover, e_db, false);
	recover_wal(&recover);
	recover_free(&recover);
}

static void
e_close(void)
{
	snapshot_mgr_free(&e_db->snapshot_mgr);
	wal_mgr_stop(&e_db->wal_mgr);
	catalog_close(&e_db->catalog);
	wal_mgr_free(&e_db->wal_mgr);
	free(e_db);
	e_db = NULL;
}

static void
e_fresh(void)
{
	cfs_arm_fault(false);
	cfs_arm_crash(false);
	cfs_reset();
	cfs_mkdir("/mem");
	cfs_mkdir("/mem/storage");
	state_lsn_set(0);
	state_psn_set(0);
	opt_int_set(&state()->catalog, 0);
	opt_int_set(&state()->catalog_pending, 0);
	e_open(true);
}

// the reply; e_failed is set if it is an error
static bool e_failed;

static const char*
e_run(const char* sql)
{
	buf_reset(e_output.buf);
	if (e_trace) { fprintf(e_trace, "%s;\n", sql); fflush(e_trace); }
	Str text;
	str_set(&text, (char*)sql, strlen(sql));
	e_failed = session_execute(e_session, &e_endpoint, &text, &e_output);
	buf_write(e_output.buf, "", 1);
	return (char*)e_output.buf->start;
}
