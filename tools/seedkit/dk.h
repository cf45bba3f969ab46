#pragma once
#define _GNU_SOURCE
#include <amelie_runtime>
#include <amelie_server>
#include <amelie_row.h>
#include <amelie_transaction.h>
#include <amelie_storage.h>
#include <amelie_object.h>
#include <amelie_tier.h>
#include <amelie_heap.h>
#include <amelie_index.h>
#include <amelie_part.h>
#include <amelie_catalog.h>
#include <amelie_wal.h>

static void demo(void);
static inline const char* dk_dir(void) { return getenv("DEMO_DIR"); }

#define ok(cond, ...) do { if (! (cond)) { printf("FAILED: "); printf(__VA_ARGS__); printf("\n"); fflush(NULL); _exit(1); } } while (0)

static void
dk_main(void* arg, int argc, char** argv)
{
	logger_set_enable(&runtime()->logger, false);
	auto on_error = error_catch( demo(); );
	if (on_error) {
		printf("FAILED: unexpected error: %.*s\n", (int)buf_size(&am_self()->error.text), (char*)am_self()->error.text.start);
		fflush(NULL);
		_exit(1);
	}
	printf("ok\n");
	fflush(NULL);
	_exit(0);
}

int
main(void)
{
	static Runtime rt;
	runtime_init(&rt);
	runtime_start(&rt, dk_main, NULL, 0, NULL);
	_exit(5);
}

static inline void
dk_str(Str* str, const char* s) { str_set(str, (char*)s, strlen(s)); }

static inline Column*
dk_column(Columns* columns, const char* name, int type, int type_size)
{
	auto column = column_allocate();
	Str str;
	dk_str(&str, name);
	column_set_name(column, &str);
	column_set_type(column, type, type_size);
	columns_add(columns, column);
	return column;
}

static inline void
dk_key(Keys* keys, int ref)
{
	auto key = key_allocate();
	key_set_ref(key, ref);
	keys_add(keys, key);
}

static inline IndexConfig*
dk_index(Columns* columns, const char* name, int type, bool unique, bool primary, int key)
{
	auto config = index_config_allocate(columns);
	Str str;
	dk_str(&str, name);
	index_config_set_name(config, &str);
	index_config_set_type(config, type);
	index_config_set_unique(config, unique);
	index_config_set_primary(config, primary);
	dk_key(&config->keys, key);
	return config;
}

// row of n int64 columns
static inline Row*
dk_row(void* at, int n, ...)
{
	int  size_factor;
	int  size = row_measure(n, n * 8, &size_factor);
	Row* row = at ? at : malloc(size);
	row_init(row, n, size_factor, size);
	uint8_t* pos = row_data(row, n);
	va_list args;
	va_start(args, n);
	for (int i = 0; i < n; i++) {
		row_set(row, i, pos - (uint8_t*)row);
		int64_t v = va_arg(args, int);
		memcpy(pos, &v, 8);
		pos += 8;
	}
	va_end(args);
	return row;
}

static inline int64_t dk_int(Row* row, int column) { return *(int64_t*)row_at(row, column); }

// ---- write-ahead log
static inline void
dk_wal_start(WalMgr* mgr, int size)
{
	opt_string_set_raw(&state()->directory, dk_dir(), strlen(dk_dir()));
	opt_int_set(&config()->wal_worker, false);
	opt_int_set(&config()->wal_crc, true);
	opt_int_set(&config()->wal_size, size);
	opt_int_set(&config()->wal_sync_on_write, true);
	opt_int_set(&config()->wal_sync_on_create, true);
	opt_int_set(&config()->wal_sync_on_close, true);
	memset(mgr, 0, sizeof(*mgr));
	wal_mgr_init(mgr);
	wal_mgr_start(mgr);
}

// one transaction of one row with this padding
static inline void
dk_wal_write(WalMgr* mgr, int value, int padding)
{
	Uuid id = { .a = 1, .b = 77 };
	int  size_factor;
	int  size = row_measure(1, 8 + padding, &size_factor);
	Row* row = malloc(size);
	memset(row, 0, size);
	row_init(row, 1, size_factor, size);
	uint8_t* pos = row_data(row, 1);
	row_set(row, 0, pos - (uint8_t*)row);
	int64_t v = value;
	memcpy(pos, &v, 8);
	WriteList list;
	Write     write;
	WriteLog  log;
	write_list_init(&list);
	write_init(&write);
	write_begin(&write);
	write_log_init(&log);
	write_log_add(&log, CMD_REPLACE, &id, row);
	write_add(&write, &log);
	write_list_add(&list, &write);
	wal_mgr_write(mgr, &list);
	write_log_free(&log);
	write_free(&write);
	free(row);
}

// ---- storages and partitions
static inline Storage*
dk_storage(const char* name, const char* compression)
{
	auto config = storage_config_allocate();
	Str str;
	dk_str(&str, name);
	storage_config_set_name(config, &str);
	if (compression) {
		dk_str(&str, compression);
		storage_config_set_compression(config, &str);
	}
	auto storage = storage_allocate(config);
	storage_config_free(config);
	return storage;
}

static inline Row*
dk_part_row(Part* part, int a, int b)
{
	auto tmp = dk_row(NULL, 2, a, b);
	auto row = row_copy(part->heap, tmp);
	free(tmp);
	return row;
}
