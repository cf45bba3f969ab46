// C03: cleanup against slots, checkpoints and rotations.
#include "walkit.h"

enum { SLOTS = 3 };

static WalSlot  slots[SLOTS];
static int      slot_at[SLOTS]; // -1: not added
static uint64_t removed_to;     // records below are gone

static uint64_t last_lsn(void) { return sim.count ? sim.recs[sim.count - 1].lsn : 0; }

static void
verify(void)
{
	// files on disk are the files in the list
	static char names[256][256];
	int n = cfs_list("/mem/wal", names, 256);
	int count;
	uint64_t min;
	id_mgr_stats(&sim.mgr.wal.list, &count, &min);
	mc_check(n == count, "files", "%d files on disk, %d in the list", n, count);
	uint64_t lo = UINT64_MAX, hi = 0;
	for (int i = 0; i < n; i++) {
		uint64_t id = strtoull(names[i], NULL, 10);
		if (id < lo) lo = id;
		if (id > hi) hi = id;
	}
	mc_check(lo == min, "files-min", "oldest file %lu, reported %lu", lo, min);
	mc_check(hi == sim.mgr.wal.current->id, "current", "current file %lu, newest on disk %lu", sim.mgr.wal.current->id, hi);
	for (uint64_t lsn = 0; lsn <= last_lsn() + 1; lsn++)
		mc_check(wal_in_range(&sim.mgr.wal, lsn) == (lsn >= lo), "range", "position %lu in range: %d, oldest file %lu", lsn, wal_in_range(&sim.mgr.wal, lsn), lo);

	// reported status
	uint64_t slots_min = UINT64_MAX;
	int slots_count = 0;
	for (int i = 0; i < SLOTS; i++)
		if (slot_at[i] >= 0) {
			slots_count++;
			if ((uint64_t)slot_at[i] < slots_min) slots_min = slot_at[i];
		}
	auto buf = wal_status(&sim.mgr.wal);
	uint8_t* pos = buf->start;
	json_read_obj(&pos);
	while (! json_read_obj_end(&pos)) {
		Str name;
		json_read_string(&pos, &name);
		int64_t value;
		json_read_integer(&pos, &value);
		if (str_is_cstr(&name, "lsn"))
			mc_check((uint64_t)value == last_lsn(), "status", "reported lsn %ld, last %lu", value, last_lsn());
		else if (str_is_cstr(&name, "lsn_min"))
			mc_check((uint64_t)value == lo, "status", "reported lsn_min %ld, oldest file %lu", value, lo);
		else if (str_is_cstr(&name, "files"))
			mc_check(value == n, "status", "reported files %ld, %d on disk", value, n);
		else if (str_is_cstr(&name, "slots"))
			mc_check(value == slots_count, "status", "reported slots %ld, have %d", value, slots_count);
		else if (str_is_cstr(&name, "slots_min"))
			mc_check((uint64_t)value == slots_min, "status", "reported slots_min %ld, expected %ld", value, (int64_t)slots_min);
	}
	buf_free(buf);

	// all records not cleaned up are still there
	WalCursor cursor;
	wal_cursor_init(&cursor);
	wal_cursor_open(&cursor, &sim.mgr.wal, 0, true, true);
	uint64_t at = lo;
	while (wal_cursor_next(&cursor)) {
		auto r = wal_cursor_at(&cursor);
		mc_check(r->lsn == at, "hole", "record %lu follows %lu", (uint64_t)r->lsn, at - 1);
		at++;
	}
	mc_check(at == last_lsn() + 1 || lo > last_lsn(), "hole", "log ends at %lu of %lu", at - 1, last_lsn());
	wal_cursor_close(&cursor);
}

static void
gc(uint64_t checkpoint)
{
	static char before[256][256], after[256][256];
	int nb = cfs_list("/mem/wal", before, 256);
	uint64_t ids[256];
	for (int i = 0; i < nb; i++) ids[i] = strtoull(before[i], NULL, 10);
	for (int i = 0; i < nb; i++) for (int j = i + 1; j < nb; j++)
		if (ids[j] < ids[i]) { auto t = ids[i]; ids[i] = ids[j]; ids[j] = t; }
	uint64_t need = checkpoint;
	for (int i = 0; i < SLOTS; i++)
		if (slot_at[i] >= 0 && (uint64_t)slot_at[i] < need) need = slot_at[i];
	wal_gc(&sim.mgr.wal, checkpoint);
	int na = cfs_list("/mem/wal", after, 256);
	for (int i = 0; i < nb; i++) {
		bool there = false;
		for (int j = 0; j < na; j++) if (strtoull(after[j], NULL, 10) == ids[i]) there = true;
		// the file holds records [ids[i], ids[i + 1])
		bool below = i + 1 < nb && ids[i + 1] <= need;
		mc_check(there || below, "removed-needed", "file %lu was removed, its records up to %lu include the oldest needed position %lu", ids[i], i + 1 < nb ? ids[i + 1] - 1 : last_lsn(), need);
		mc_check(! there || ! below, "not-removed", "file %lu is still there, its last record %lu is below the oldest needed position %lu", ids[i], i + 1 < nb ? ids[i + 1] - 1 : 0, need);
	}
	if (na < nb) mc_nontrivial();
}

static void
gc_body(int ops)
{
	static const int sizes[] = { 1, 120, 1 << 20 };
	int size = sizes[mc_choose(3)];
	wal_config(true, size, false, true, true);
	cfs_reset();
	sim_reset();
	batch_slot()->count = 0;
	sim_start();
	mc_log("wal_size %d", size);
	for (int i = 0; i < SLOTS; i++) { wal_slot_init(&slots[i]); slot_at[i] = -1; }
	for (int i = 0; i < ops; i++) {
		int op = mc_choose(9);
		mc_step(1);
		uint64_t last = last_lsn();
		int k = op & 1;
		switch (op) {
		case 0: mc_log("write"); sim_write(0); break;
		case 1: mc_log("write two"); sim_write(1); break;
		case 2:
			mc_log("rotate");
			if (sim.mgr.wal.current->file.size > 0) wal_mgr_create(&sim.mgr);
			break;
		case 3: case 4:
			if (slot_at[k] < 0) {
				slot_at[k] = mc_choose((int)last + 1);
				mc_log("slot %d added at %d", k, slot_at[k]);
				wal_slot_set(&slots[k], slot_at[k]);
				wal_add(&sim.mgr.wal, &slots[k]);
			} else {
				int to = slot_at[k] + 1;
				if (to > (int)last) to = last;
				if (to < slot_at[k]) to = slot_at[k];
				mc_log("slot %d moves to %d", k, to);
				slot_at[k] = to;
				wal_slot_set(&slots[k], to);
			}
			break;
		case 5: mc_log("slot drop");
			for (k = 0; k < 2; k++)
				if (slot_at[k] >= 0) { wal_del(&sim.mgr.wal, &slots[k]); slot_at[k] = -1; break; }
			break;
		case 6: {
			uint64_t c = mc_choose((int)last + 2);
			mc_log("gc %lu", c);
			gc(c);
			break;
		}
		case 7: {
			if (slot_at[2] >= 0) {
				mc_log("snapshot end");
				wal_del(&sim.mgr.wal, &slots[2]);
				slot_at[2] = -1;
				break;
			}
			mc_log("snapshot");
			Buf data;
			buf_init(&data);
			wal_snapshot(&sim.mgr.wal, &slots[2], &data);
			slot_at[2] = 0;
			// lists every file with its size
			uint8_t* pos = data.start;
			json_read_array(&pos);
			int n = 0;
			while (! json_read_array_end(&pos)) {
				n++;
				Str path;
				int64_t sz, mode;
				json_read_array(&pos);
				json_read_string(&pos, &path);
				json_read_integer(&pos, &sz);
				json_read_integer(&pos, &mode);
				mc_check(json_read_array_end(&pos), "snapshot", "unexpected entry");
				char p[300];
				snprintf(p, sizeof(p), "/mem/%.*s", (int)str_size(&path), str_of(&path));
				size_t have;
				mc_check(cfs_exists(p), "snapshot", "snapshot lists missing file %s", p);
				cfs_data(p, &have);
				mc_check((int64_t)have == sz, "snapshot", "%s: %ld bytes listed, %zu on disk", p, sz, have);
			}
			mc_check(n == sim.mgr.wal.list.list_count, "snapshot", "snapshot lists %d files of %d", n, sim.mgr.wal.list.list_count);
			buf_free(&data);
			break;
		}
		case 8: i = ops; break;
		}
		verify();
	}
	mc_outcome(cfs_hash());
	for (int i = 0; i < SLOTS; i++)
		if (slot_at[i] >= 0) wal_del(&sim.mgr.wal, &slots[i]);
	sim_stop();
}

static void history(void) { gc_body(mc_q(5, 6)); }

// prepared log of several files, then slots and cleanup
static void
prepared(void)
{
	wal_config(true, 1, false, true, true);
	cfs_reset();
	sim_reset();
	batch_slot()->count = 0;
	sim_start();
	for (int i = 0; i < SLOTS; i++) { wal_slot_init(&slots[i]); slot_at[i] = -1; }
	// file sizes: 1, 2, 1, 2 records
	for (int i = 0; i < 4; i++) sim_write(i & 1);
	uint64_t last = last_lsn();
	int n = 1 + mc_choose(SLOTS);
	for (int i = 0; i < n; i++) {
		slot_at[i] = mc_choose((int)last + 1);
		mc_log("slot at %d", slot_at[i]);
		wal_slot_set(&slots[i], slot_at[i]);
		wal_add(&sim.mgr.wal, &slots[i]);
	}
	for (int round = 0; round < 2; round++) {
		uint64_t c = mc_choose((int)last + 2);
		mc_log("gc %lu", c);
		gc(c);
		verify();
		if (round == 0) {
			int k = mc_choose(n);
			mc_log("drop %d", k);
			wal_del(&sim.mgr.wal, &slots[k]);
			slot_at[k] = -1;
		}
	}
	// survives a restart
	mc_nontrivial();
	mc_outcome(cfs_hash());
	for (int i = 0; i < SLOTS; i++)
		if (slot_at[i] >= 0) { wal_del(&sim.mgr.wal, &slots[i]); slot_at[i] = -1; }
	sim_stop();
	sim_start();
	state_lsn_set(last); // restored from the catalog
	verify();
	sim_stop();
}

McScenario mc_scenarios[] = {
	{ "history", history },
	{ "prepared", prepared },
	{ NULL }
};
