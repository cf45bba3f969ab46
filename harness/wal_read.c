// C02: readers over every history of writes, rotations and restarts: opened at
// every position, following the writer, reading ahead, truncating, and over
// every single-byte damage of the files.
#include "walkit.h"

static void
setup(bool crc, int size)
{
	wal_config(crc, size, true, true, true);
	cfs_reset();
	sim_reset();
	batch_slot()->count = 0;
	sim_start();
}

static void
expect_record(Record* record, uint64_t lsn, const char* what)
{
	for (int i = 0; i < sim.count; i++) {
		auto r = &sim.recs[i];
		if (r->lsn != lsn)
			continue;
		mc_check(record->lsn == lsn, "order", "%s: got record %lu, expected %lu", what, (uint64_t)record->lsn, lsn);
		mc_check(record->size == (uint32_t)r->size && !memcmp(record, r->bytes, r->size), "bytes", "%s: record %lu differs from what was written", what, lsn);
		return;
	}
	mc_fail("extra", "%s: got record %lu which was never written (expected position %lu)", what, (uint64_t)record->lsn, lsn);
}

static uint64_t last_lsn(void) { return sim.count ? sim.recs[sim.count - 1].lsn : 0; }

static void
restart(void)
{
	sim_stop();
	sim_start();
	sim_verify("restart");
}

// every history up to the depth, then every start position and way to read it
static void
positions(void)
{
	static const int sizes[] = { 1 << 20, 1, 150 };
	bool crc = mc_choose(2) == 0;
	int size = sizes[mc_choose(3)];
	setup(crc, size);
	mc_log("crc %d wal_size %d", crc, size);
	int depth = mc_q(5, 7);
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(6);
		if (op == 5) break;
		mc_step(1);
		if (op < 3) { mc_log("write %d", op); sim_write(op); }
		else if (op == 3) {
			mc_log("rotate");
			if (sim.mgr.wal.current->file.size > 0) wal_mgr_create(&sim.mgr);
		} else { mc_log("restart"); restart(); }
	}
	uint64_t last = last_lsn();
	for (uint64_t lsn = 0; lsn <= last + 1; lsn++) {
		for (int way = 0; way < 4; way++) {
			WalCursor cursor;
			wal_cursor_init(&cursor);
			wal_cursor_open(&cursor, &sim.mgr.wal, lsn, true, crc);
			uint64_t at = lsn ? lsn : 1;
			if (way == 0) {
				while (wal_cursor_next(&cursor))
					expect_record(wal_cursor_at(&cursor), at++, "reader");
			} else {
				// 1: everything at once, 2: record by record, 3: up to some position
				int sz = way == 2 ? 1 : way == 1 ? 1 << 20 : 150;
				uint64_t max = way == 3 ? (at + last) / 2 : UINT64_MAX;
				for (;;) {
					uint64_t to = 0;
					int n = wal_cursor_readahead(&cursor, sz, &to, max);
					if (!n && max == UINT64_MAX) break;
					if (!n) { max = UINT64_MAX; continue; } // what is written later comes next
					uint8_t* p = cursor.buf.start;
					mc_check(n == buf_size(&cursor.buf), "readahead-size", "readahead reports %d bytes, buffer has %d", n, (int)buf_size(&cursor.buf));
					int count = 0;
					while (p < cursor.buf.position) {
						mc_check(way != 2 || count == 0, "readahead-limit", "readahead returned more records than asked for");
						expect_record((Record*)p, at++, "readahead");
						p += ((Record*)p)->size;
						count++;
					}
					mc_check(to == at - 1, "readahead-lsn", "readahead reports position %lu after record %lu", to, at - 1);
					mc_check(at - 1 <= max, "readahead-max", "readahead passed the limit %lu: %lu", max, at - 1);
				}
			}
			mc_check(at == (last + 1 > (lsn ? lsn : 1) ? last + 1 : (lsn ? lsn : 1)), "missing", "reader from %lu (way %d) stopped before record %lu of %lu", lsn, way, at, last);
			wal_cursor_close(&cursor);
			mc_cases(1);
		}
	}
	mc_nontrivial();
	mc_outcome(cfs_hash());
	sim_stop();
}

// two readers follow the log while it grows
static void
follow(void)
{
	static const int sizes[] = { 1 << 20, 1, 150 };
	int size = sizes[mc_choose(3)];
	setup(true, size);
	mc_log("wal_size %d", size);
	WalCursor c[2];
	uint64_t at[2];
	bool on[2] = {0};
	int depth = mc_q(7, 9);
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(7);
		mc_step(1);
		if (op < 2) { mc_log("write %d", op); sim_write(op); }
		else if (op == 2) {
			mc_log("rotate");
			if (sim.mgr.wal.current->file.size > 0) wal_mgr_create(&sim.mgr);
		} else if (op == 3 || op == 4) {
			int k = op - 3;
			if (! on[k]) {
				uint64_t lsn = k ? last_lsn() + 1 : 0;
				mc_log("open %d at %lu", k, lsn);
				wal_cursor_init(&c[k]);
				wal_cursor_open(&c[k], &sim.mgr.wal, lsn, true, true);
				at[k] = lsn ? lsn : 1;
				on[k] = true;
				continue;
			}
			mc_log("next %d", k);
			if (wal_cursor_next(&c[k]))
				expect_record(wal_cursor_at(&c[k]), at[k]++, "follower");
			else
				mc_check(at[k] > last_lsn(), "stuck", "follower reports the end at record %lu of %lu", at[k], last_lsn());
		} else if (op == 5) {
			mc_log("readahead");
			for (int k = 0; k < 2; k++) {
				if (! on[k]) continue;
				uint64_t to = 0;
				int n = wal_cursor_readahead(&c[k], 120, &to, UINT64_MAX);
				uint8_t* p = c[k].buf.start;
				if (! n)
					mc_check(at[k] > last_lsn(), "stuck", "readahead reports the end at record %lu of %lu", at[k], last_lsn());
				while (n && p < c[k].buf.position) {
					expect_record((Record*)p, at[k]++, "readahead");
					p += ((Record*)p)->size;
				}
			}
		} else
			break;
	}
	for (int k = 0; k < 2; k++) {
		if (! on[k]) continue;
		while (wal_cursor_next(&c[k]))
			expect_record(wal_cursor_at(&c[k]), at[k]++, "follower");
		mc_check(at[k] == last_lsn() + 1, "missing", "follower stopped before record %lu of %lu", at[k], last_lsn());
		wal_cursor_close(&c[k]);
		mc_nontrivial();
	}
	mc_outcome(cfs_hash());
	sim_stop();
}

// the log is cut back to a position and continues from there
static void
truncate_to(void)
{
	static const int sizes[] = { 1 << 20, 1, 150 };
	bool crc = mc_choose(2) == 0;
	int size = sizes[mc_choose(3)];
	setup(crc, size);
	int depth = mc_q(4, 5);
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(4);
		if (op == 3) break;
		mc_log("write %d", op);
		sim_write(op);
	}
	uint64_t last = last_lsn();
	uint64_t lsn = 1 + mc_choose((int)last + 2);
	mc_log("truncate to %lu", lsn);
	sim_stop();
	opt_int_set(&config()->wal_truncate, lsn);
	int kept = 0;
	for (int i = 0; i < sim.count; i++) {
		if (sim.recs[i].lsn <= lsn) sim.recs[kept++] = sim.recs[i];
		else free(sim.recs[i].bytes);
	}
	sim.count = kept;
	sim_start();
	sim_verify("truncate");
	mc_check(opt_int_of(&config()->wal_truncate) == 0, "truncate-again", "the position is still set");
	sim_write(0);
	sim_write(1);
	sim_stop();
	sim_start();
	sim_verify("write after truncate");
	mc_nontrivial();
	mc_outcome(cfs_hash());
	sim_stop();
}

// every byte of every file damaged in several ways, and every truncation
static void
damage(void)
{
	static const int sizes[] = { 1 << 20, 1 };
	int size = sizes[mc_choose(2)];
	setup(true, size);
	int depth = mc_q(2, 3);
	for (int i = 0; i < depth; i++) {
		int op = mc_choose(3);
		mc_log("write %d", op);
		sim_write(op);
	}
	sim_stop();
	int nfiles;
	static char names[256][256];
	nfiles = cfs_list("/mem/wal", names, 256);
	for (int f = 0; f < nfiles; f++) {
		char path[600];
		snprintf(path, sizeof(path), "/mem/wal/%s", names[f]);
		size_t len;
		char* orig = cfs_data(path, &len);
		char* keep = malloc(len + 1);
		memcpy(keep, orig, len);
		static const uint8_t flips[] = { 0x01, 0x80, 0xff, 0x10, 0x02 };
		for (size_t pos = 0; pos < len; pos++) {
			int nflips = pos < sizeof(Record) ? 255 : mc_q(3, 5);
			for (int k = 0; k < nflips; k++) {
				uint8_t flip = nflips == 255 ? k + 1 : flips[k];
				char* data = malloc(len);
				memcpy(data, keep, len);
				data[pos] ^= flip;
				cfs_set(path, data, len);
				free(data);
				mc_cases(1);
				// read everything the way recovery does
				Wal wal;
				wal_init(&wal);
				auto on_error = error_catch(
					wal.dirfd = -1;
					for (int i = 0; i < nfiles; i++)
						id_mgr_add(&wal.list, strtoull(names[i], NULL, 10));
				);
				WalCursor cursor;
				wal_cursor_init(&cursor);
				bool stopped = false;
				on_error = error_catch(
					wal_cursor_open(&cursor, &wal, 0, true, true);
					while (! stopped && wal_cursor_next(&cursor)) {
						auto record = wal_cursor_at(&cursor);
						auto cmd = record_cmd(record);
						auto at = record_data(record);
						for (auto i = record->count; i > 0; i--) {
							if (! record_validate_cmd(cmd, at)) { stopped = true; break; }
							record_cmd_skip(cmd, &at);
							cmd++;
						}
						if (stopped) break;
						// accepted: must be one of the records as written
						bool found = false;
						for (int i = 0; i < sim.count; i++)
							if (sim.recs[i].lsn == record->lsn && sim.recs[i].size == (int)record->size && !memcmp(sim.recs[i].bytes, record, record->size))
								found = true;
						mc_check(found, "damage-served", "file %s byte %zu xor %02x: a record that was never written was delivered as valid (lsn %lu size %u)", names[f], pos, flip, (uint64_t)record->lsn, record->size);
					}
				);
				wal_cursor_close(&cursor);
				id_mgr_free(&wal.list);
			}
		}
		cfs_set(path, keep, len);
		free(keep);
	}
	mc_nontrivial();
	mc_outcome(cfs_hash());
}

McScenario mc_scenarios[] = {
	{ "positions", positions },
	{ "follow", follow },
	{ "truncate", truncate_to },
	{ "damage", damage },
	{ NULL }
};
