// C01: real log write path over the in-memory disk, crashed at every system
// call and with every loss pattern of unsynced data, then recovered.
#include "walkit.h"

static int  left;
static bool sync_write;
static int  kinds;
static bool finished;

static void
incarnation(void* arg)
{
	unused(arg);
	cfs_arm_crash(true);
	sim_start();
	cfs_arm_crash(false);
	sim_verify("restart");
	cfs_arm_crash(true);
	while (left > 0) {
		int op = mc_choose(kinds + 1);
		if (op == kinds) {
			mc_log("restart");
			left--;
			sim_stop();
			return;
		}
		mc_log("write %d", op);
		left--;
		mc_step(1);
		sim_write(op);
		// without sync on write only complete log files are durable
		if (! sync_write)
			for (int i = 0; i < sim.count; i++)
				if (sim.recs[i].file == sim.mgr.wal.current->id)
					sim.recs[i].acked = false;
	}
	finished = true;
}

// the write in flight when the crash came
static void
crash_inflight(void)
{
	auto b = batch_slot();
	if (b->count) {
		batch_expect(b, false, 0);
		b->count = 0;
	}
}

static void
explore(int writes, int nkinds, int budget, int flags, bool sync_write_)
{
	sync_write = sync_write_;
	mc_budget(budget);
	bool crc = mc_choose(2) == 0;
	static const int sizes[] = { 1 << 20, 1, 150 };
	int size = sizes[mc_choose(3)];
	bool sync = !sync_write || (flags & CFS_ALLTEARS) || mc_choose(2) == 0;
	left = writes;
	kinds = nkinds;
	mc_log("crc %d wal_size %d sync_create/close %d", crc, size, sync);
	wal_config(crc, size, sync_write, sync, sync);
	cfs_reset();
	sim_reset();
	batch_slot()->count = 0;
	finished = false;
	int crashes = 0;
	while (! finished) {
		bool crashed = cfs_run(incarnation, NULL);
		if (mc_pruned())
			return;
		if (crashed) {
			crashes++;
			crash_inflight();
			cfs_crash(flags);
		} else {
			if (finished)
				break;
			cfs_crash_exact();
		}
		if (mc_pruned())
			return;
	}
	// power loss at the end of the history: everything acknowledged is there
	mc_log("power loss");
	batch_slot()->count = 0;
	cfs_crash(flags);
	sim_start();
	sim_verify("after power loss");
	// the log is usable and durable again
	opt_int_set(&config()->wal_sync_on_write, true);
	mc_check(sim_write(0), "unusable", "log refuses a write after recovery");
	batch_slot()->count = 0;
	mc_log("write, power loss");
	cfs_crash(flags);
	sim_start();
	sim_verify("after second power loss");
	mc_outcome(got_hash());
	if (crashes)
		mc_nontrivial();
}

static void crash_one(void)    { explore(mc_q(3, 4), 3, 1, CFS_TORN, true); }
static void crash_two(void)    { explore(mc_q(2, 3), 2, 2, CFS_TORN, true); }
static void crash_tears(void)  { explore(2, mc_q(2, 4), 1, CFS_TORN | CFS_ALLTEARS, true); }
static void crash_three(void)  { explore(3, 1, 3, CFS_TORN, true); }
static void crash_nosync(void) { explore(3, mc_q(2, 3), 1, CFS_TORN, false); }

// a system call fails instead of a crash: no acknowledgement, log stays sound
static void
faults_body(void* arg)
{
	unused(arg);
	sim_start();
	while (left > 0) {
		int op = mc_choose(3);
		mc_log("write %d", op);
		left--;
		mc_step(1);
		cfs_arm_fault(true);
		bool ok = sim_write(op);
		cfs_arm_fault(false);
		if (! ok)
			mc_log("error returned");
		batch_slot()->count = 0;
	}
}

static void
faults(void)
{
	mc_budget(mc_q(1, 2));
	bool crc = mc_choose(2) == 0;
	static const int sizes[] = { 1 << 20, 1, 150 };
	int size = sizes[mc_choose(3)];
	mc_log("crc %d wal_size %d", crc, size);
	left = mc_q(3, 4);
	wal_config(crc, size, true, true, true);
	cfs_reset();
	sim_reset();
	cfs_run(faults_body, NULL);
	if (cfs_fault_count())
		mc_nontrivial();
	cfs_crash(CFS_TORN);
	sim_start();
	sim_verify("after power loss");
	mc_check(sim_write(0), "unusable", "log refuses a write after recovery");
	batch_slot()->count = 0;
	cfs_crash(CFS_TORN);
	sim_start();
	sim_verify("after second power loss");
	mc_outcome(got_hash());
}

// short and interrupted transfers are invisible
static void
short_io(void)
{
	mc_budget(mc_q(1, 2));
	static const int sizes[] = { 1 << 20, 1 };
	int size = sizes[mc_choose(2)];
	left = 2;
	wal_config(true, size, true, true, true);
	cfs_reset();
	sim_reset();
	sim_start();
	for (int i = 0; i < 2; i++) {
		int op = mc_choose(3);
		mc_log("write %d", op);
		cfs_arm_short(true);
		mc_check(sim_write(op), "short-error", "write failed because of a short or interrupted transfer");
		cfs_arm_short(false);
		batch_slot()->count = 0;
		mc_step(1);
	}
	cfs_crash(CFS_TORN);
	cfs_arm_short(true);
	sim_start();
	cfs_arm_short(false);
	sim_verify("after power loss");
	if (cfs_fault_count())
		mc_nontrivial();
	mc_outcome(got_hash());
}

McScenario mc_scenarios[] = {
	{ "crash_one", crash_one },
	{ "crash_tears", crash_tears },
	{ "crash_nosync", crash_nosync },
	{ "faults", faults },
	{ "short_io", short_io },
	{ "crash_two", crash_two },
	{ "crash_three", crash_three, 1 },
	{ NULL }
};
