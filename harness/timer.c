// C19: timers and timed waits under virtual time.
//
// timers: operation sequences on the timer manager against a list of deadlines.
// loop: coroutines which wait, sleep and work on the real task main loop; the
// clock and the poll call are virtual, signals arrive at any moment from outside.
#include "am.h"
#include <sys/epoll.h>
#include <time.h>

// ---------------------------------------------------------------- virtual time
static bool     virt;
static uint64_t now;         // milliseconds
static uint64_t sub;         // nanoseconds below a millisecond

int __real_clock_gettime(clockid_t id, struct timespec* ts);
int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
	if (! virt) return __real_clock_gettime(id, ts);
	ts->tv_sec = now / 1000;
	ts->tv_nsec = (now % 1000) * 1000000 + sub;
	return 0;
}

int __real_gettimeofday(struct timeval* tv, void* tz);
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
	if (! virt) return __real_gettimeofday(tv, tz);
	tv->tv_sec = now / 1000;
	tv->tv_usec = (now % 1000) * 1000 + sub / 1000;
	return 0;
}

// ---------------------------------------------------------------- timers
enum { MAXT = 5 };
static TimerMgr tm;
static Timer    timers[64];
static int      fired[64];
static int      nfired;

static void on_timer(Timer* t) { if (nfired < 64) fired[nfired] = t - timers; nfired++; }

typedef struct { bool active; uint64_t deadline; uint64_t seq; } Ref;

static void
t_step_check(Ref* ref, int count)
{
	nfired = 0;
	timer_mgr_reset(&tm);
	timer_mgr_update(&tm);
	// what the loop would sleep for
	auto min = timer_mgr_timer_min(&tm);
	int best = -1;
	for (int i = 0; i < count; i++)
		if (ref[i].active && (best < 0 || ref[i].deadline < ref[best].deadline)) best = i;
	mc_check((min != NULL) == (best >= 0), "next", "next timer is %s, %s timers are running", min ? "set" : "not set", best >= 0 ? "some" : "no");
	mc_check(! min || (min->active && min->timeout == ref[best].deadline), "next", "next timer is due at %d, nearest deadline is %d", min ? (int)min->timeout : -1, best >= 0 ? (int)ref[best].deadline : -1);
	int hit = timer_mgr_step(&tm);
	mc_check(hit == nfired, "count", "%d timers are reported as fired, %d were", hit, nfired);
	int n = 0;
	uint64_t last = 0;
	for (;;) {
		// next expected: earliest deadline
		int e = -1;
		for (int i = 0; i < count; i++)
			if (ref[i].active && ref[i].deadline <= now && (e < 0 || ref[i].deadline < ref[e].deadline)) e = i;
		if (e < 0) break;
		mc_check(n < nfired, "late", "timer %d is due at %d and did not fire at %d", e, (int)ref[e].deadline, (int)now);
		int f = fired[n];
		mc_check(ref[f].active, "stopped-fired", "timer %d fired and is not running", f);
		mc_check(ref[f].deadline <= now, "early", "timer %d fired at %d before its deadline %d", f, (int)now, (int)ref[f].deadline);
		mc_check(ref[f].deadline >= last && ref[f].deadline == ref[e].deadline, "order", "timer %d (deadline %d) fired before timer %d (deadline %d)", f, (int)ref[f].deadline, e, (int)ref[e].deadline);
		// those with the same deadline fire in the order they were started
		for (int i = 0; i < count; i++)
			mc_check(! (ref[i].active && ref[i].deadline == ref[f].deadline && ref[i].seq < ref[f].seq), "order", "timer %d was started after timer %d with the same deadline and fired before it", f, i);
		last = ref[f].deadline;
		ref[f].active = false;
		n++;
	}
	if (n) mc_nontrivial();
	mc_check(n == nfired, nfired > n && ref[fired[n]].active ? "early" : "extra", "%d timers fired at %d instead of %d", nfired, (int)now, n);
	for (int i = 0; i < count; i++)
		mc_check(timers[i].active == ref[i].active, "active", "timer %d is shown as %srunning", i, timers[i].active ? "" : "not ");
}

static void
s_timers(void)
{
	static int gap[] = { 0, 1, 2, 7 };
	static int interval[] = { 0, 1, 2, 7 };
	int depth = mc_q(6, 8), count = mc_q(3, 4);
	virt = true;
	now = 1000;
	sub = 0;
	timer_mgr_init(&tm);
	memset(timers, 0, sizeof(timers));
	Ref ref[64];
	memset(ref, 0, sizeof(ref));
	uint64_t seq = 0;
	for (int i = 0; i < count; i++) timer_init(&timers[i], on_timer, NULL, 0);
	for (int d = 0; d < depth; d++) {
		// start of one kind of timer each; stop; advance
		int op = mc_choose(count * 2 + 4);
		mc_step(1);
		if (op < count) {
			int i = op, v = interval[mc_choose(4)];
			// timers are restarted by stopping first
			if (ref[i].active) { timer_stop(&timers[i]); }
			mc_log("start %d +%d", i, v);
			timers[i].interval = v;
			timer_mgr_reset(&tm);
			timer_start(&tm, &timers[i]);
			ref[i] = (Ref){ true, now + v, seq++ };
		} else
		if (op < count * 2) {
			int i = op - count;
			mc_log("stop %d", i);
			timer_stop(&timers[i]);
			ref[i].active = false;
		} else {
			now += gap[op - count * 2];
			mc_log("step at %d", (int)now);
			t_step_check(ref, count);
		}
		for (int i = 0; i < count; i++)
			mc_check(timers[i].active == ref[i].active, "active", "timer %d is shown as %srunning", i, timers[i].active ? "" : "not ");
		if (mc_pruned()) break;
		// same relative state seen with as many operations left
		uint64_t h = d;
		for (int i = 0; i < count; i++) {
			int64_t v[3] = { ref[i].active, ref[i].active ? (int64_t)(ref[i].deadline - now) : 0, 0 };
			for (int j = 0; j < count; j++) if (ref[i].active && ref[j].active && ref[j].seq < ref[i].seq) v[2]++;
			h = mc_hash(h, v, sizeof(v));
		}
		for (int i = 0; i < tm.timers_count; i++) { int64_t v = tm.timers[i] - timers; h = mc_hash(h, &v, 8); }
		if (! mc_visit(h)) break;
	}
	if (! mc_pruned()) {
		now += 100;
		t_step_check(ref, count);
		mc_check(! timer_mgr_has_timers(&tm), "left", "timers are left after all are done");
	}
	timer_mgr_free(&tm);
	virt = false;
}

// many timers: the list grows; every order of deadlines of a few groups
static void
s_many(void)
{
	int count = 12 + mc_choose(mc_q(30, 50)), group = 1 + mc_choose(6), stride = 1 + mc_choose(12);
	virt = true;
	now = 1000;
	timer_mgr_init(&tm);
	Ref ref[64];
	memset(ref, 0, sizeof(ref));
	for (int i = 0; i < count; i++) {
		int v = (i * stride % 13) * group;
		timer_init(&timers[i], on_timer, NULL, v);
		timer_mgr_reset(&tm);
		timer_start(&tm, &timers[i]);
		ref[i] = (Ref){ true, now + v, i };
	}
	for (int i = 0; i < count; i += stride + 1) { timer_stop(&timers[i]); ref[i].active = false; }
	for (int s = 0; s < 20; s++) { now += group; t_step_check(ref, count); mc_step(1); }
	now += 100;
	t_step_check(ref, count);
	mc_check(! timer_mgr_has_timers(&tm), "left", "timers are left after all are done");
	timer_mgr_free(&tm);
	virt = false;
}

// ---------------------------------------------------------------- main loop
enum { MAXC = 3, MAXL = 4 };
enum { O_WAIT_SHORT, O_WAIT_LONG, O_WAIT, O_SLEEP, O_BUSY, O_SIGNAL, O_MAX };
static const char* op_names[] = { "wait 5", "wait 12", "wait", "sleep 5", "work 7", "signal" };

typedef struct {
	Event    event;
	uint64_t id;
	bool     waiting, timed;     // inside of a wait
	uint64_t early, late;        // bounds of the deadline
	bool     must, may;          // a signal must or may be seen by the next wait
	uint64_t must_at;            // when it was sent
	bool     done;
	int      op[MAXL];
} Coro;

static Task     task;
static Coro     coros[MAXC];
static int      ncoros, nops;
static uint64_t loop_time;       // when the poll call returned last
static int      idle;
static int      done;
static bool     in_task;

static void
t_signal(int i)
{
	auto c = &coros[i];
	if (c->done) return;
	event_signal(&c->event);
	if (! c->must) { c->must = true; c->must_at = now; }
	else c->may = true;
}

static void
t_inject(const char* where)
{
	int i = mc_cost(ncoros + 1, 1);
	if (! i || coros[i - 1].done) return;
	mc_log("%s: signal %d at %d", where, i - 1, (int)now);
	t_signal(i - 1);
}

int __real_epoll_wait(int fd, struct epoll_event* ev, int max, int timeout);
int __wrap_epoll_wait(int fd, struct epoll_event* ev, int max, int timeout)
{
	if (! in_task) return __real_epoll_wait(fd, ev, max, timeout);
	int rc = __real_epoll_wait(fd, ev, max, 0);
	if (rc == 0) {
		mc_check(idle++ < 200, "spin", "the loop spins without progress");
		bool timed = false;
		uint64_t until = 0;
		for (int i = 0; i < ncoros; i++) {
			auto c = &coros[i];
			if (! c->waiting) continue;
			mc_check(! c->must, "lost", "the loop sleeps while coroutine %d waits and was signalled at %d", i, (int)c->must_at);
			if (! c->timed) continue;
			if (! timed || c->late < until) until = c->late;
			timed = true;
		}
		if (timed)
			mc_check(timeout >= 0 && now + timeout <= (until > now ? until : now), "oversleep", "the loop sleeps for %d at %d, a wait ends at %d", timeout, (int)now, (int)until);
		if (timeout == 0) {
			// or just when a timer fired
			t_inject("before poll");
			rc = __real_epoll_wait(fd, ev, max, 0);
		} else {
			// a signal may arrive while it sleeps
			int len = timeout < 0 ? 3 : timeout;
			int i = mc_cost(ncoros + 1, 1);
			if (i && ! coros[i - 1].done) {
				int at = len > 1 ? 1 + mc_choose(2) * (len - 2) : 0;
				now += at;
				mc_log("in poll: signal %d at %d", i - 1, (int)now);
				t_signal(i - 1);
				rc = __real_epoll_wait(fd, ev, max, 0);
				mc_check(rc > 0, "lost", "a signal to a sleeping task does not wake it");
			} else
			if (timeout < 0) {
				// only waits without a deadline: end them
				int w = -1;
				for (int i = 0; i < ncoros; i++) if (coros[i].waiting) { w = i; break; }
				mc_check(w >= 0, "stuck", "the loop sleeps forever and nothing waits");
				now += 3;
				t_signal(w);
				rc = __real_epoll_wait(fd, ev, max, 0);
				mc_check(rc > 0, "lost", "a signal to a sleeping task does not wake it");
			} else {
				now += timeout;
			}
		}
	}
	loop_time = now;
	return rc;
}

static void
t_wait(int i, int ms)
{
	auto c = &coros[i];
	c->waiting = true;
	c->timed = ms >= 0;
	c->early = loop_time + ms;
	c->late = now + ms;
	bool timedout = event_wait(&c->event, ms);
	c->waiting = false;
	idle = 0;
	mc_log("%d: %s at %d", i, timedout ? "timeout" : "signal", (int)now);
	if (timedout) {
		mc_check(ms > 0, "timeout", "coroutine %d: wait without a deadline times out", i);
		mc_check(now >= c->early, "early", "coroutine %d: wait of %d started at %d or later timed out at %d", i, ms, (int)(c->early - ms), (int)now);
		mc_check(! c->must || c->must_at >= c->early, "signal-missed", "coroutine %d: a timeout is reported at %d, a signal was sent at %d before the deadline %d", i, (int)now, (int)c->must_at, (int)c->early);
		return;
	}
	mc_check(c->must || c->may, "no-signal", "coroutine %d: wait reports a signal at %d and none was sent", i, (int)now);
	c->may = c->must && c->may;
	c->must = false;
}

static void
t_coro(void* arg)
{
	int i = (int)(intptr_t)arg;
	auto c = &coros[i];
	for (int k = 0; k < nops; k++) {
		mc_step(1);
		switch (c->op[k]) {
		case O_WAIT_SHORT: t_wait(i, 5); break;
		case O_WAIT_LONG:  t_wait(i, 12); break;
		case O_WAIT:       t_wait(i, -1); break;
		case O_SLEEP: {
			uint64_t end = loop_time + 5;
			coroutine_sleep(5);
			idle = 0;
			mc_check(now >= end, "early", "coroutine %d: sleep of 5 started at %d or later ended at %d", i, (int)(end - 5), (int)now);
			break;
		}
		case O_BUSY:
			now += 3;
			t_inject("in work");
			now += 4;
			break;
		case O_SIGNAL:
			t_signal((i + 1) % ncoros);
			break;
		}
	}
	c->done = true;
	done++;
}

static void
t_main(void* arg)
{
	(void)arg;
	for (int i = 0; i < ncoros; i++) {
		event_init(&coros[i].event);
		event_attach(&coros[i].event);
		coros[i].id = coroutine_create(t_coro, (void*)(intptr_t)i);
	}
	for (int i = 0; i < ncoros; i++) coroutine_wait(coros[i].id);
}

static void
t_loop(int n, int ops, int signals)
{
	mc_budget(signals);
	ncoros = n;
	nops = ops;
	memset(coros, 0, sizeof(coros));
	bool any = false;
	for (int i = 0; i < n; i++)
		for (int k = 0; k < ops; k++) {
			coros[i].op[k] = mc_choose(O_MAX);
			if (coros[i].op[k] <= O_WAIT_LONG) any = true;
			mc_log("%d: %s", i, op_names[coros[i].op[k]]);
		}
	if (! mc_split() || ! any) return;
	virt = true;
	now = 1000;
	loop_time = now;
	idle = done = 0;
	mc_nontrivial();
	task_init(&task);
	int rc = task_create_nothrow(&task, "t", NULL, NULL, am_runtime, am_share, am_task->log.write, am_task->log.write_arg, am_task->buf_mgr);
	mc_check(rc == 0, "harness", "task_create");
	in_task = true;
	task_execute(&task, t_main, NULL);
	in_task = false;
	mc_check(done == ncoros, "unfinished", "%d coroutines of %d finished", done, ncoros);
	mc_check(! timer_mgr_has_timers(&task.timer_mgr), "timer-left", "a timer is left running");
	task_free(&task);
	virt = false;
}

static void s_loop2(void) { t_loop(2, mc_q(2, 3), 2); }
static void s_loop3(void) { t_loop(3, 2, mc_q(1, 2)); }
static void s_loop1(void) { t_loop(1, mc_q(4, 4), 3); }

McScenario mc_scenarios[] = {
	{ "timers", s_timers, 0 },
	{ "many", s_many, 0 },
	{ "loop-one", s_loop1, 0 },
	{ "loop-two", s_loop2, 0 },
	{ "loop-three", s_loop3, 0 },
	{ NULL, NULL, 0 },
};
