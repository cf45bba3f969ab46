#pragma once
// Write-ahead log driver shared by the log harnesses: builds real write lists,
// keeps the reference list of records, reopens and recovers the directory.
#include "am.h"
#include "crashfs.h"

enum { MAXREC = 64 };

typedef struct
{
	uint8_t* bytes;
	int      size;
	uint64_t lsn;
	bool     acked;
	uint64_t file;      // log file it was written to
} RefRec;

typedef struct
{
	WalMgr mgr;
	bool   open;
	RefRec recs[MAXREC];
	int    count;
	int    seq;
} WalSim;

static WalSim sim;

static inline void
wal_config(bool crc, int size, bool sync_write, bool sync_create, bool sync_close)
{
	opt_string_set_raw(&state()->directory, "/mem", 4);
	opt_int_set(&config()->wal_worker, false);
	opt_int_set(&config()->wal_crc, crc);
	opt_int_set(&config()->wal_size, size);
	opt_int_set(&config()->wal_sync_on_write, sync_write);
	opt_int_set(&config()->wal_sync_on_create, sync_create);
	opt_int_set(&config()->wal_sync_on_close, sync_close);
	opt_int_set(&config()->wal_truncate, 0);
}

static inline void
sim_reset(void)
{
	for (int i = 0; i < sim.count; i++)
		free(sim.recs[i].bytes);
	memset(&sim, 0, sizeof(sim));
	state_lsn_set(0);
}

// one transaction: Write with its logs and rows
typedef struct
{
	Write    write;
	WriteLog logs[3];
	int      logs_count;
	Buf      data;
} Txn;

typedef struct
{
	WriteList list;
	Txn       txn[3];
	int       count;
} Batch;

static inline Row*
batch_row(Buf* buf, uint64_t value, int padding)
{
	int  size_factor;
	int  size = row_measure(1, 8 + padding, &size_factor);
	auto row = (Row*)buf_emplace(buf, size);
	row_init(row, 1, size_factor, size);
	uint8_t* pos = row_data(row, 1);
	row_set(row, 0, pos - (uint8_t*)row);
	memset(pos, (int)(value * 7 + 3), 8 + padding);
	memcpy(pos, &value, 8);
	return row;
}

// kind 0: one row; 1: two transactions, commands of two kinds over two tables, two logs;
// 2: one row of ~700 bytes; 3: ddl; 4: no commands
static inline void
batch_build(Batch* self, int kind)
{
	memset(self, 0, sizeof(*self));
	write_list_init(&self->list);
	self->count = kind == 1 ? 2 : 1;
	for (int i = 0; i < self->count; i++) {
		auto t = &self->txn[i];
		write_init(&t->write);
		write_begin(&t->write);
		buf_init(&t->data);
		buf_reserve(&t->data, 8192); // rows keep their address
		t->logs_count = kind == 1 ? 2 : 1;
		for (int l = 0; l < t->logs_count; l++) {
			auto log = &t->logs[l];
			write_log_init(log);
			Uuid id = { .a = 1 + l, .b = 77 };
			Uuid id2 = { .a = 9, .b = 78 };
			sim.seq++;
			if (kind == 0)
				write_log_add(log, CMD_REPLACE, &id, batch_row(&t->data, sim.seq, 0));
			else if (kind == 1) {
				write_log_add(log, CMD_REPLACE, &id, batch_row(&t->data, sim.seq, 3));
				write_log_add(log, CMD_REPLACE, &id, batch_row(&t->data, sim.seq + 1000, i * 11));
				write_log_add(log, CMD_DELETE, &id, batch_row(&t->data, sim.seq + 2000, 0));
				write_log_add(log, CMD_DELETE, &id2, batch_row(&t->data, sim.seq + 3000, 250));
			} else if (kind == 2)
				write_log_add(log, CMD_REPLACE, &id, batch_row(&t->data, sim.seq, 700));
			else if (kind == 3) {
				auto pos = t->data.position;
				encode_array(&t->data);
				encode_integer(&t->data, sim.seq);
				encode_raw(&t->data, "create table x", 14);
				encode_array_end(&t->data);
				write_log_add_op(log, CMD_DDL, NULL, pos);
			}
			if (! write_log_empty(log))
				write_add(&t->write, log);
		}
		write_list_add(&self->list, &t->write);
	}
}

static inline void
batch_free(Batch* self)
{
	for (int i = 0; i < self->count; i++) {
		auto t = &self->txn[i];
		for (int l = 0; l < t->logs_count; l++)
			write_log_free(&t->logs[l]);
		write_free(&t->write);
		buf_free(&t->data);
	}
}

// reference image: [header][commands][rows], built without the vectors used for writing
static inline void
batch_expect(Batch* self, bool acked, uint64_t file)
{
	for (int i = 0; i < self->count; i++) {
		auto t = &self->txn[i];
		if (t->write.header.lsn == 0)
			continue; // never reached the log
		auto r = &sim.recs[sim.count];
		mc_check(sim.count < MAXREC, "harness", "too many records");
		int size = sizeof(Record) + buf_size(&t->data);
		for (int l = 0; l < t->logs_count; l++)
			size += buf_size(&t->logs[l].meta);
		r->bytes = malloc(size);
		r->size  = size;
		r->lsn   = t->write.header.lsn;
		r->acked = acked;
		r->file  = file;
		uint8_t* p = r->bytes;
		memcpy(p, &t->write.header, sizeof(Record));
		((Record*)p)->size = size;
		p += sizeof(Record);
		// every log has its commands first, rows follow all commands
		for (int l = 0; l < t->logs_count; l++) {
			memcpy(p, t->logs[l].meta.start, buf_size(&t->logs[l].meta));
			p += buf_size(&t->logs[l].meta);
		}
		memcpy(p, t->data.start, buf_size(&t->data));
		sim.count++;
	}
}

static inline Batch*
batch_slot(void)
{
	static Batch batch;
	return &batch;
}

// true: acknowledged
static inline bool
sim_write(int kind)
{
	auto b = batch_slot();
	batch_build(b, kind);
	auto file = sim.mgr.wal.current->id;
	auto on_error = error_catch( wal_mgr_write(&sim.mgr, &b->list); );
	batch_expect(b, !on_error, file);
	batch_free(b);
	b->count = 0;
	return !on_error;
}

typedef struct
{
	uint8_t* bytes[MAXREC];
	int      size[MAXREC];
	uint64_t lsn[MAXREC];
	int      count;
} Got;

static Got got;

static inline void
got_reset(void)
{
	for (int i = 0; i < got.count; i++)
		free(got.bytes[i]);
	got.count = 0;
}

static inline void
got_add(Record* record)
{
	mc_check(got.count < MAXREC, "reader-extra", "reader returns more records than were ever written");
	got.bytes[got.count] = malloc(record->size);
	memcpy(got.bytes[got.count], record, record->size);
	got.size[got.count] = record->size;
	got.lsn[got.count]  = record->lsn;
	got.count++;
}

// open the log and read it as recovery does: file by file, then continue writing
static inline void
sim_start(void)
{
	state_lsn_set(0);
	memset(&sim.mgr, 0, sizeof(sim.mgr));
	wal_mgr_init(&sim.mgr);
	got_reset();
	wal_mgr_start(&sim.mgr);
	sim.open = true;
	uint64_t id = 0;
	for (int files = 0;; files++) {
		mc_check(files < 200, "recovery-loop", "recovery does not get through the files");
		WalCursor cursor;
		wal_cursor_init(&cursor);
		wal_cursor_open(&cursor, &sim.mgr.wal, id, false, opt_int_of(&config()->wal_crc));
		while (wal_cursor_next(&cursor)) {
			auto record = wal_cursor_at(&cursor);
			// commands are validated the way recovery does it
			auto cmd = record_cmd(record);
			auto pos = record_data(record);
			for (auto i = record->count; i > 0; i--) {
				if (opt_int_of(&config()->wal_crc))
					mc_check(record_validate_cmd(cmd, pos), "record-damaged", "recovered record %lu has a damaged command", (uint64_t)record->lsn);
				record_cmd_skip(cmd, &pos);
				cmd++;
			}
			got_add(record);
			state_lsn_follow(record->lsn);
		}
		bool active = wal_cursor_active(&cursor);
		if (active)
			id = id_mgr_next(&sim.mgr.wal.list, cursor.file->id);
		wal_cursor_close(&cursor);
		if (! active || id == UINT64_MAX)
			break;
	}
}

static inline void
sim_stop(void)
{
	wal_mgr_stop(&sim.mgr);
	sim.open = false;
}

// what recovery returned against what was written; afterwards the reference
// holds exactly the recovered records
static inline void
sim_verify(const char* when)
{
	int j = 0, kept = 0;
	for (int i = 0; i < sim.count; i++) {
		auto r = &sim.recs[i];
		bool same = j < got.count && got.size[j] == r->size && !memcmp(got.bytes[j], r->bytes, r->size);
		if (same) {
			j++;
			r->acked = true;
			sim.recs[kept++] = *r;
			continue;
		}
		mc_check(! r->acked, "lost", "%s: acknowledged write lsn %lu (%d bytes) was not recovered; recovered %d records of %d written",
		         when, r->lsn, r->size, got.count, sim.count);
		free(r->bytes);
	}
	mc_check(j == got.count, "fabricated", "%s: recovered record #%d (lsn %lu, %d bytes) was never written or is out of order",
	         when, j, got.lsn[j < got.count ? j : 0], got.size[j < got.count ? j : 0]);
	sim.count = kept;
	for (int i = 1; i < kept; i++)
		mc_check(sim.recs[i].lsn == sim.recs[i - 1].lsn + 1, "gap", "%s: positions %lu and %lu are not adjacent", when, sim.recs[i - 1].lsn, sim.recs[i].lsn);
}

static inline uint64_t
got_hash(void)
{
	uint64_t h = got.count;
	for (int i = 0; i < got.count; i++)
		h = mc_hash(h, got.bytes[i], got.size[i]);
	return h;
}
