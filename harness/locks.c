// C17: relation locks. The monitors know who holds what and who waits in which
// order; every grant is compared with strict first-come first-served service.
#include "am.h"
#include "sc.h"

static const char* mode_name[] = { "none", "shared", "shared_rw", "exclusive_ro", "exclusive", "call" };
static bool conflict(int a, int b)
{
	// the documented meaning: exclusive excludes everyone, writers and
	// exclusive readers exclude each other
	if (a == LOCK_EXCLUSIVE || b == LOCK_EXCLUSIVE) return true;
	if (a == LOCK_SHARED_RW && b == LOCK_EXCLUSIVE_RO) return true;
	if (b == LOCK_SHARED_RW && a == LOCK_EXCLUSIVE_RO) return true;
	return false;
}

enum { NREL = 2 };
static Relation rels[NREL];
static Str rel_names[NREL];
static LockMgr* lm(void) { return &runtime()->lock_mgr; }

static void rels_init(void)
{
	static char names[NREL][8];
	for (int i = 0; i < NREL; i++) {
		relation_init(&rels[i]);
		snprintf(names[i], 8, "r%d", i);
		str_set_cstr(&rel_names[i], names[i]);
		relation_set_name(&rels[i], &rel_names[i]);
		relation_set_rsn(&rels[i], i + 1);
	}
	lock_mgr_init(lm());
}

static void rels_check_empty(void)
{
	for (int i = 0; i < NREL; i++) {
		for (int m = 0; m < LOCK_MAX; m++)
			mc_check(rels[i].lock_set[m] == 0, "trace-left", "relation %d still has %d %s locks after everyone left", i, rels[i].lock_set[m], mode_name[m]);
		mc_check(rels[i].lock_wait_count == 0 && list_empty(&rels[i].lock_wait), "trace-left", "relation %d still has waiters after everyone left", i);
	}
	mc_check(lm()->list_count == 0 && list_empty(&lm()->list), "trace-left", "%d locks are still registered after everyone left", lm()->list_count);
}

#ifndef SCHED
// ------------------------------------------------- one task, many coroutines

enum { NC = 4 };
typedef struct {
	int id;
	bool used;
	uint64_t coro;
	Event wake;
	int cmd, rel, mode;      // 0 none, 1 lock, 2 unlock
	bool failed;
	// model
	int refs[NREL][LOCK_MAX]; // by mode
	int wait_rel, wait_mode; // -1: not waiting
	uint64_t arrival;
	bool got;                // observed: lock() returned
	Lock* lock[NREL][LOCK_MAX];
} C;
static C cs[NC];
static uint64_t arrivals;

static void c_loop(C* c)
{
	for (;;) {
		while (!c->cmd) event_wait(&c->wake, -1);
		int cmd = c->cmd;
		c->cmd = 0;
		if (cmd == 1) {
			int rel = c->rel;
			c->lock[rel][c->mode] = lock(&rels[rel], c->mode);
			c->got = true;
		} else if (cmd == 2) {
			unlock(c->lock[c->rel][c->mode]);
		} else {
			unlock_all();
			return;
		}
	}
}

// a coroutine which fails or is killed gives its locks back first
static void c_main(void* arg)
{
	if (error_catch( c_loop(arg) )) { unlock_all(); rethrow(); }
}

static void settle(void) { for (int i = 0; i < 3; i++) coroutine_yield(); }
static void c_start(C* c, int id)
{
	memset(c, 0, sizeof(*c));
	c->id = id; c->used = true; c->wait_rel = -1;
	event_init(&c->wake);
	c->coro = coroutine_create(c_main, c);
	settle();
}
static void c_cmd(C* c, int cmd, int rel, int mode)
{
	c->cmd = cmd; c->rel = rel; c->mode = mode;
	event_signal(&c->wake);
	settle();
}
static bool model_free(int rel, int mode)
{
	for (int i = 0; i < NC; i++)
		for (int m = 0; m < LOCK_MAX && cs[i].used; m++)
			if (cs[i].refs[rel][m] && conflict(m, mode)) return false;
	return true;
}
// grants in order of arrival
static void model_grant(void)
{
	for (int r = 0; r < NREL; r++)
		for (;;) {
			C* first = NULL;
			for (int i = 0; i < NC; i++)
				if (cs[i].used && cs[i].wait_rel == r && (!first || cs[i].arrival < first->arrival)) first = &cs[i];
			if (!first || !model_free(r, first->wait_mode)) break;
			first->refs[r][first->wait_mode] = 1;
			first->wait_rel = -1;
		}
}
static void h_compare(void)
{
	int n = 0;
	for (int i = 0; i < NC; i++) {
		C* c = &cs[i];
		if (!c->used) continue;
		bool waits = c->wait_rel >= 0;
		if (waits) n++;
		mc_check(waits || c->got || !c->mode, "not-granted", "coroutine %d still waits for %s of relation %d although nothing stands before it", i, mode_name[c->mode], c->rel);
		mc_check(!waits || !c->got, "granted-early", "coroutine %d got %s of relation %d although %s", i, mode_name[c->mode], c->rel, model_free(c->rel, c->mode) ? "an earlier request waits" : "an incompatible holder exists");
		for (int r = 0; r < NREL; r++) for (int m = 0; m < LOCK_MAX; m++) n += c->refs[r][m] > 0;
	}
	for (int r = 0; r < NREL; r++) {
		int waiters = 0, set[LOCK_MAX] = { 0 };
		for (int i = 0; i < NC; i++) {
			if (!cs[i].used) continue;
			waiters += cs[i].wait_rel == r;
			for (int m = 0; m < LOCK_MAX; m++) set[m] += cs[i].refs[r][m] > 0;
		}
		mc_check(rels[r].lock_wait_count == waiters, "waiters", "relation %d counts %d waiters, there are %d", r, rels[r].lock_wait_count, waiters);
		for (int m = 0; m < LOCK_MAX; m++)
			mc_check(rels[r].lock_set[m] == set[m], "holders", "relation %d counts %d holders of %s, there are %d", r, rels[r].lock_set[m], mode_name[m], set[m]);
		Buf buf;
		buf_init(&buf);
		int listed = lock_mgr_count(lm(), &rel_names[r]), expect = waiters;
		for (int m = 0; m < LOCK_MAX; m++) expect += set[m];
		mc_check(listed == expect, "listed", "%d locks are registered for relation %d, there are %d", listed, r, expect);
		// the list of locks can be read
		lock_mgr_list(lm(), &buf);
		buf_free_memory(&buf);
	}
	mc_step(1);
}
static uint64_t state_hash(int left)
{
	struct { int left; struct { int used, refs[NREL][LOCK_MAX], wr, wm, ord; } c[NC]; } s;
	memset(&s, 0, sizeof(s));
	s.left = left;
	for (int i = 0; i < NC; i++) {
		if (!cs[i].used) continue;
		s.c[i].used = 1;
		memcpy(s.c[i].refs, cs[i].refs, sizeof(cs[i].refs));
		s.c[i].wr = cs[i].wait_rel; s.c[i].wm = cs[i].wait_rel >= 0 ? cs[i].wait_mode : 0;
		if (cs[i].wait_rel >= 0)
			for (int k = 0; k < NC; k++) s.c[i].ord += cs[k].used && cs[k].wait_rel == cs[i].wait_rel && cs[k].arrival < cs[i].arrival;
	}
	return mc_hash(17, &s, sizeof(s));
}

static bool c_holds(C* c, int rel)
{
	for (int m = 0; m < LOCK_MAX; m++) if (c->refs[rel][m]) return true;
	return false;
}

static void seq(int nc, int nrel, int depth)
{
	rels_init();
	arrivals = 0;
	memset(cs, 0, sizeof(cs));
	for (int i = 0; i < nc; i++) c_start(&cs[i], i);
	for (int step = 0; step < depth; step++) {
		// operations: idle coroutine: lock or unlock; waiting one: kill
		int op[128][4], n = 0;
		bool fresh = false;
		for (int i = 0; i < nc; i++) {
			C* c = &cs[i];
			if (c->wait_rel >= 0) { op[n][0] = i; op[n][1] = 3; n++; continue; }
			// coroutines which did nothing yet are equal
			bool untouched = !c->mode;
			if (untouched && fresh) continue;
			if (untouched) fresh = true;
			for (int r = 0; r < nrel; r++) {
				for (int m = LOCK_SHARED; m < LOCK_MAX; m++) {
					// a holder may ask again for the same mode or for another
					// one of the same relation, unless it would wait for itself
					if (c->refs[r][m] >= 2) continue;
					bool self = false;
					for (int h = 0; h < LOCK_MAX; h++) self |= ! c->refs[r][m] && c->refs[r][h] && conflict(h, m);
					if (self) continue;
					// lock order: relations are locked in ascending order
					if (r == 0 && nrel > 1 && c_holds(c, 1)) continue;
					op[n][0] = i; op[n][1] = 1; op[n][2] = r; op[n][3] = m; n++;
				}
				for (int m = LOCK_SHARED; m < LOCK_MAX; m++)
					if (c->refs[r][m]) { op[n][0] = i; op[n][1] = 2; op[n][2] = r; op[n][3] = m; n++; }
			}
			if (!untouched) { op[n][0] = i; op[n][1] = 4; n++; }
		}
		int k = mc_choose(n);
		C* c = &cs[op[k][0]];
		int r = op[k][2], m = op[k][3];
		switch (op[k][1]) {
		case 1:
			mc_log("c%d lock r%d %s", c->id, r, mode_name[m]);
			c->got = false;
			if (c->refs[r][m]) { c->refs[r][m]++; }
			else { c->wait_rel = r; c->wait_mode = m; c->arrival = ++arrivals; model_grant(); }
			if (c->wait_rel >= 0) mc_nontrivial();
			c_cmd(c, 1, r, m);
			break;
		case 2:
			mc_log("c%d unlock r%d %s", c->id, r, mode_name[m]);
			if (--c->refs[r][m] == 0) model_grant();
			c_cmd(c, 2, r, m);
			break;
		case 3: {
			mc_log("c%d cancelled while waiting", c->id);
			mc_nontrivial();
			c->wait_rel = -1;
			memset(c->refs, 0, sizeof(c->refs));
			c->used = false;
			// locks it holds are released by its owner when it ends
			coroutine_kill(c->coro);
			model_grant();
			settle();
			h_compare();
			c_start(c, c->id);
			break;
		}
		case 4:
			mc_log("c%d unlocks all and ends", c->id);
			memset(c->refs, 0, sizeof(c->refs));
			model_grant();
			c_cmd(c, 5, 0, 0);
			c_start(c, c->id);
			break;
		}
		settle();
		h_compare();
		if (!mc_visit(state_hash(depth - step))) break;
	}
	// end: everyone leaves
	for (int guard = 0; guard < 20; guard++) {
		bool any = false;
		for (int i = 0; i < nc; i++) {
			C* c = &cs[i];
			if (!c->used || c->wait_rel >= 0) continue;
			any = true;
			memset(c->refs, 0, sizeof(c->refs));
			c->used = false;
			model_grant();
			c_cmd(c, 5, 0, 0);
			settle();
			h_compare();
		}
		// (one which waits behind a request which waits for it is cancelled)
		for (int i = 0; i < nc && !any; i++) {
			C* c = &cs[i];
			if (!c->used) continue;
			any = true;
			c->wait_rel = -1;
			memset(c->refs, 0, sizeof(c->refs));
			c->used = false;
			coroutine_kill(c->coro);
			model_grant();
			settle();
			h_compare();
		}
		if (!any) break;
	}
	for (int i = 0; i < nc; i++) mc_check(!cs[i].used, "harness", "coroutine %d never ended", i);
	rels_check_empty();
}

static void s_one(void) { seq(mc_q(3, 4), 1, mc_q(6, 7)); }
static void s_two(void) { seq(mc_q(2, 3), 2, mc_q(6, 7)); }
McScenario mc_scenarios[] = { { "one-relation", s_one }, { "two-relations", s_two }, { 0 } };

#else
// ------------------------------------------------- threads

enum { NTASK = 4 };
typedef struct { int n; struct { int rel, mode; } take[2]; int rounds; bool cancel; } Plan;
static Plan plan[NTASK] SC_MON;
static int  holds[NREL][LOCK_MAX] SC_MON;
static int  grants SC_MON, cancels SC_MON;
static Task tasks[NTASK];

static void take(int t, int rel, int mode)
{
	for (int m = 0; m < LOCK_MAX; m++)
		if (holds[rel][m]) mc_check(!conflict(m, mode), "incompatible", "task %d holds %s of relation %d while another task holds %s", t, mode_name[mode], rel, mode_name[m]);
	holds[rel][mode]++;
	grants++;
}
static void t_work(int t)
{
	Plan* p = &plan[t];
	for (int k = 0; k < p->rounds; k++) {
		for (int i = 0; i < p->n; i++) {
			lock(&rels[p->take[i].rel], p->take[i].mode);
			take(t, p->take[i].rel, p->take[i].mode);
		}
		sc_point();
		for (int i = 0; i < p->n; i++) holds[p->take[i].rel][p->take[i].mode]--;
		unlock_all();
	}
}
static void t_main(void* arg) { t_work((int)(intptr_t)arg); }

// the lock is taken by a second coroutine of the task, which the main one cancels
static void t_child(void* arg)
{
	int t = (int)(intptr_t)arg;
	Plan* p = &plan[t];
	if (error_catch( lock(&rels[p->take[0].rel], p->take[0].mode) )) { cancels++; unlock_all(); rethrow(); }
	take(t, p->take[0].rel, p->take[0].mode);
	sc_point();
	holds[p->take[0].rel][p->take[0].mode]--;
	unlock_all();
}
static void t_cancel(void* arg)
{
	uint64_t id = coroutine_create(t_child, arg);
	coroutine_yield();
	coroutine_kill(id);
	// memory of the cancelled coroutine is reused
	uint64_t id2 = coroutine_create(t_child, arg);
	coroutine_wait(id2);
}

static const char* describe_(void)
{
	static char text[256];
	int n = 0;
	for (int r = 0; r < NREL; r++) {
		n += snprintf(text + n, sizeof(text) - n, "relation %d: %d waiters, holders", r, rels[r].lock_wait_count);
		for (int m = 1; m < LOCK_MAX; m++) n += snprintf(text + n, sizeof(text) - n, " %d", rels[r].lock_set[m]);
		n += snprintf(text + n, sizeof(text) - n, "; ");
	}
	return text;
}

static void run_(int n, int pre, int fl)
{
	for (int i = 0; i < n; i++)
		mc_log("task %d: %s%s of r%d%s%s x%d", i, plan[i].cancel ? "cancelled " : "", mode_name[plan[i].take[0].mode], plan[i].take[0].rel,
		       plan[i].n > 1 ? " then " : "", plan[i].n > 1 ? mode_name[plan[i].take[1].mode] : "", plan[i].rounds);
	if (!mc_split()) return;
	memset(holds, 0, sizeof(holds));
	grants = cancels = 0;
	sc_begin(pre, fl);
	sc_hook(describe_);
	rels_init();
	for (int i = 0; i < n; i++) {
		task_init(&tasks[i]);
		task_create(&tasks[i], "t", plan[i].cancel ? t_cancel : t_main, (void*)(intptr_t)i);
	}
	for (int i = 0; i < n; i++) task_wait(&tasks[i]);
	rels_check_empty();
	for (int i = 0; i < n; i++) task_free(&tasks[i]);
	sc_end();
	mc_outcome(grants * 100 + cancels);
	mc_nontrivial();
}

// two tasks, every pair of modes
static void s_pair(void)
{
	int a = 1 + mc_choose(5), b = 1 + mc_choose(5);
	if (b < a) return;
	if (!conflict(a, b) && !(a == b)) { if (!mc_split()) return; }
	plan[0] = (Plan){ 1, { { 0, a } }, 2, false };
	plan[1] = (Plan){ 1, { { 0, b } }, 2, false };
	run_(2, mc_q(3, 4), 0);
}
// three tasks
static void s_three(void)
{
	static const int m[][3] = { { LOCK_SHARED, LOCK_EXCLUSIVE, LOCK_SHARED }, { LOCK_EXCLUSIVE, LOCK_EXCLUSIVE, LOCK_EXCLUSIVE },
		{ LOCK_SHARED_RW, LOCK_EXCLUSIVE_RO, LOCK_SHARED_RW }, { LOCK_SHARED_RW, LOCK_EXCLUSIVE_RO, LOCK_EXCLUSIVE }, { LOCK_CALL, LOCK_EXCLUSIVE, LOCK_SHARED_RW } };
	int k = mc_choose(5);
	for (int i = 0; i < 3; i++) plan[i] = (Plan){ 1, { { 0, m[k][i] } }, 1, false };
	run_(3, mc_q(2, 3), 0);
}
// two relations, taken in order
static void s_order(void)
{
	int k = mc_choose(3);
	for (int i = 0; i < 3; i++) plan[i] = (Plan){ 2, { { 0, i == 2 ? LOCK_EXCLUSIVE : LOCK_SHARED }, { 1, (i + k) % 2 ? LOCK_EXCLUSIVE : LOCK_SHARED_RW } }, 1, false };
	plan[2].n = 1 + (k == 2);
	run_(k == 2 ? 3 : 2 + (mc_tier > 0), 2, 0);
}
// a waiter is cancelled while the holder releases
static void s_cancel(void)
{
	int a = mc_choose(2), third = mc_choose(2);
	plan[0] = (Plan){ 1, { { 0, LOCK_EXCLUSIVE } }, 1, false };
	plan[1] = (Plan){ 1, { { 0, a ? LOCK_SHARED : LOCK_EXCLUSIVE } }, 1, true };
	plan[2] = (Plan){ 1, { { 0, LOCK_SHARED } }, 1, false };
	run_(2 + third, mc_q(2, 3), SC_TIME);
}
McScenario mc_scenarios[] = { { "pair", s_pair }, { "three", s_three }, { "order", s_order }, { "cancel", s_cancel }, { 0 } };
#endif
