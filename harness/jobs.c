// C20: background jobs. Every job runs exactly once on some worker, its
// submitter is resumed after the job has finished and sees its error.
#include "am.h"
#include "sc.h"

enum { NJOB = 8, NTASK = 4 };
typedef struct { int runs, done, fails; bool running, finished, resumed; } JobState;
static JobState js[NJOB] SC_MON;
static int njobs SC_MON, cancel_ SC_MON;
static int par SC_MON, par_max SC_MON;
static Task tasks[NTASK];
static intptr_t result[NJOB];
static JobMgr* jm(void) { return &runtime()->job_mgr; }

// the job writes its result before it ends; the submitter reads it without locks
static void j_main(intptr_t* argv)
{
	int id = (int)argv[0];
	JobState* j = &js[id];
	mc_check(++j->runs == 1, "twice", "job %d ran %d times", id, j->runs);
	if (++par > par_max) par_max = par;
	mc_check(argv[1] == id * 7 + 1 && argv[2] == 99 + id, "arguments", "job %d got wrong arguments %ld, %ld", id, (long)argv[1], (long)argv[2]);
	j->running = true;
	sc_point();
	result[id] = id + 100;
	j->running = false;
	j->finished = true;
	par--;
	if (j->fails) error("job %d failed", id);
}

static void s_jobs(int n, int fails, bool coros)
{
	memset(js, 0, sizeof(js));
	memset(result, 0, sizeof(result));
	njobs = n;
	if (!coros) cancel_ = -1;
	par = par_max = 0;
	for (int i = 0; i < n; i++) js[i].fails = fails >> i & 1;
}

static void s_submit(int id)
{
	JobState* j = &js[id];
	char expect[32];
	snprintf(expect, sizeof(expect), "job %d failed", id);
	auto failed = error_catch( run(j_main, 3, (intptr_t)id, (intptr_t)(id * 7 + 1), (intptr_t)(99 + id)) );
	j->resumed = true;
	mc_check(j->finished, "resumed-early", "the submitter of job %d was resumed before the job finished", id);
	mc_check(result[id] == id + 100, "result", "the result of job %d is not visible to its submitter", id);
	if (failed && am_self()->error.code == CANCEL) {
		mc_check(id == cancel_, "error-foreign", "the submitter of job %d was told it is cancelled", id);
		rethrow();
	}
	if (j->fails) {
		mc_check(failed, "error-lost", "job %d failed, its submitter saw no error", id);
		auto e = &am_self()->error;
		mc_check(e->code == ERROR && buf_size(&e->text) >= (int)strlen(expect) && !memcmp(e->text.start, expect, strlen(expect)), "error-text",
		         "the submitter of job %d saw another error", id);
	} else
		mc_check(!failed, "error-foreign", "job %d succeeded, its submitter saw an error: %s", id, am_error_text());
}

static const char* describe_(void)
{
	static char text[256];
	int n = snprintf(text, sizeof(text), "%d queued, ", jm()->jobs_count);
	for (int i = 0; i < njobs; i++)
		n += snprintf(text + n, sizeof(text) - n, "job %d: %s, ", i, js[i].resumed ? "resumed" : js[i].finished ? "finished, submitter not resumed" : js[i].runs ? "running" : "not run");
	return text;
}

static void s_end(int tasks_)
{
	for (int i = 0; i < tasks_; i++) { task_wait(&tasks[i]); task_free(&tasks[i]); }
	job_mgr_stop(jm());
	mc_check(jm()->workers_count == 0 && list_empty(&jm()->workers), "workers-left", "workers left after stop");
	mc_check(jm()->jobs_count == 0 && list_empty(&jm()->jobs), "jobs-left", "%d jobs left after stop", jm()->jobs_count);
	for (int i = 0; i < njobs; i++)
		mc_check(js[i].runs == 1 && js[i].finished && js[i].resumed, "not-run", "job %d: ran %d times, finished %d, submitter resumed %d", i, js[i].runs, js[i].finished, js[i].resumed);
	job_mgr_free(jm());
	mc_outcome(par_max);
	mc_nontrivial();
}

// one job after another in every task
static int per_task SC_MON;
static void t_submit(void* arg)
{
	int t = (int)(intptr_t)arg;
	for (int i = 0; i < per_task; i++) s_submit(t * per_task + i);
}
static void plain(int ntask, int per, int workers, int pre, int fl)
{
	int fails = mc_choose(1 << (ntask * per > 2 ? 2 : ntask * per));
	mc_log("%d tasks with %d jobs each, %d workers, failing set %d", ntask, per, workers, fails);
	if (!mc_split()) return;
	sc_begin(pre, fl);
	sc_hook(describe_);
	s_jobs(ntask * per, fails, false);
	per_task = per;
	job_mgr_init(jm());
	job_mgr_start(jm(), workers);
	for (int i = 0; i < ntask; i++) {
		task_init(&tasks[i]);
		task_create(&tasks[i], "t", t_submit, (void*)(intptr_t)i);
	}
	s_end(ntask);
	sc_end();
}
static void s_single(void) { int w = 1 + mc_choose(2); plain(1, 2, w, mc_q(w == 1 ? 3 : 2, 4 - (w > 1)), w == 1 ? 0 : SC_DELAY); }
static void s_many(void)   { int w = 1 + mc_choose(2); plain(2, mc_q(1, 2), w, mc_q(2, 3), SC_TIME|SC_DELAY); }
static void s_three(void)  { int w = 1 + mc_choose(2); plain(3, 1, w, mc_q(2, 3), SC_DELAY); }

// coroutines of one task submit at the same time, one of them may be cancelled
static void c_submit(void* arg)
{
	int id = (int)(intptr_t)arg;
	JobState* j = &js[id];
	if (error_catch( s_submit(id) )) { j->resumed = j->finished; rethrow(); }
}
static void t_coros(void* arg)
{
	unused(arg);
	uint64_t id[3];
	for (int i = 0; i < njobs; i++) id[i] = coroutine_create(c_submit, (void*)(intptr_t)i);
	coroutine_yield();
	for (int i = 0; i < njobs; i++) {
		if (cancel_ == i) {
			// the job uses memory of the cancelled coroutine: it must be waited for
			coroutine_kill(id[i]);
			mc_check(js[i].finished, "abandoned", "coroutine %d was cancelled and ended before its job finished", i);
		} else
			coroutine_wait(id[i]);
	}
}
static void s_coros(void)
{
	int n = 1 + mc_choose(mc_q(2, 3)), fails = mc_choose(1 << n);
	cancel_ = mc_choose(n + 1);
	int w = 1 + mc_choose(2);
	mc_log("%d coroutines, %d workers, failing set %d, cancelled %d", n, w, fails, cancel_ < n ? cancel_ : -1);
	if (!mc_split()) return;
	sc_begin(mc_q(2, 3), n > 1 || w > 1 ? SC_DELAY : 0);
	sc_hook(describe_);
	s_jobs(n, fails, true);
	job_mgr_init(jm());
	job_mgr_start(jm(), w);
	task_init(&tasks[0]);
	task_create(&tasks[0], "t", t_coros, NULL);
	s_end(1);
	sc_end();
}

// jobs which are queued when the workers are told to stop
static Job jobs_[NJOB];
static Error errors_[NJOB];
static intptr_t args_[NJOB][3];
static int stop_first SC_MON;
static void t_stop(void* arg)
{
	unused(arg);
	for (int i = 0; i < njobs; i++) {
		args_[i][0] = i; args_[i][1] = i * 7 + 1; args_[i][2] = 99 + i;
		error_init(&errors_[i]);
		job_init(&jobs_[i], &errors_[i], j_main, args_[i]);
		event_attach(&jobs_[i].on_complete);
		job_mgr_add(jm(), &jobs_[i]);
	}
	if (stop_first) job_mgr_stop(jm());
	for (int i = 0; i < njobs; i++) {
		event_wait(&jobs_[i].on_complete, -1);
		js[i].resumed = true;
		mc_check(js[i].finished && result[i] == i + 100, "resumed-early", "job %d is not finished", i);
		mc_check((errors_[i].code != ERROR_NONE) == js[i].fails, "error", "job %d: error code %d", i, errors_[i].code);
		error_free(&errors_[i]);
	}
	if (!stop_first) job_mgr_stop(jm());
}
static void s_stop(void)
{
	int n = 1 + mc_choose(3), fails = mc_choose(2), w = 1 + mc_choose(mc_q(2, 3)), again = mc_choose(2);
	stop_first = mc_choose(2);
	mc_log("%d queued jobs, %d workers, stopped %s, first job %s%s", n, w, stop_first ? "while they run" : "afterwards", fails ? "fails" : "succeeds", again ? ", then started again" : "");
	if (again && (n > 2 || w > 1)) return;
	if (!mc_split()) return;
	sc_begin(mc_q(2, 3), n + w > 2 ? SC_DELAY : 0);
	sc_hook(describe_);
	job_mgr_init(jm());
	for (int k = 0; k <= again; k++) {
		s_jobs(n, fails, false);
		job_mgr_start(jm(), w);
		task_init(&tasks[0]);
		task_create(&tasks[0], "t", t_stop, NULL);
		if (k < again) { task_wait(&tasks[0]); task_free(&tasks[0]); }
	}
	s_end(1);
	sc_end();
}

McScenario mc_scenarios[] = { { "single", s_single }, { "many", s_many }, { "three", s_three }, { "coroutines", s_coros }, { "stop", s_stop }, { 0 } };
