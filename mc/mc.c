#define _GNU_SOURCE
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/syscall.h>

enum { DYN = 4096, MAXD = 20000, MAXW = 64, LOGSZ = 65536, MSGSZ = 8192 };
enum { EXIT_FAIL = 77, EXIT_RECYCLE = 78 };

typedef struct {
	// dfs stack
	uint16_t choice[MAXD], n[MAXD];
	uint8_t  cost[MAXD];
	int      depth;                      // entries valid
	int      scenario;
	int      resume;                     // a new child takes the next sequence after the recorded one
	int      done;
	// progress
	volatile uint64_t execs, nontrivial[256], steps[256], cases[256];
	volatile uint64_t start_ns;          // current execution start, 0: idle
	uint64_t scen_execs[256];
	// failure
	char     sig[256];
	char     msg[MSGSZ];
	// samples
	char     log[LOGSZ];
	int      log_len;
	char     sample[4][4096];
	int      samples;
	int      killed;
	char     capped[256];
	int      scen_now;                   // scenario started, + 1
	uint32_t dyn_gen;                    // learned set of the current execution
	uint32_t done_gen[64];               // learned set with which a scenario was completed
} Worker;

typedef struct {
	uint64_t          set_mask;
	volatile uint64_t visited_n, outcome_n;
	volatile int      stop;
	uint64_t          deadline_ns;
	// facts learned while exploring, per scenario (scheduling points)
	volatile uint32_t dyn_gen[64];       // number of learned keys + 1
	struct { volatile uint64_t key; volatile uint32_t gen; } dyn[64][DYN];
} Global;

int mc_tier;
int mc_hang_limit __attribute__((weak)) = 30;

static Global*   G;
static Worker*   W;                      // current worker (in child)
static uint64_t* visited;
static uint64_t* outcomes;
static int       nshards = 1, shard;
static int       replay_mode;
static int       pos, budget, spent;
static bool      pruned, over_shard;
static char      workdir[512];
static int       single = -1;
static int       shard_depth = 6;
static uint64_t  shard_prod;
static const char* outdir;
static char*     known[256];
static int       nknown;
static int       all_fails;

static uint64_t now_ns(void)
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

uint64_t mc_hash(uint64_t h, const void* data, size_t size)
{
	const uint8_t* p = data;
	h ^= 0x9e3779b97f4a7c15ull + size;
	while (size >= 8) {
		uint64_t v;
		memcpy(&v, p, 8);
		h ^= v; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
		p += 8; size -= 8;
	}
	while (size--) { h ^= *p++; h *= 0x100000001b3ull; }
	h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
	return h;
}

static bool set_add(uint64_t* set, volatile uint64_t* count, uint64_t h)
{
	if (h == 0) h = 1;
	uint64_t i = h & G->set_mask;
	for (int probe = 0; probe < 4096; probe++) {
		uint64_t v = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
		if (v == h) return false;
		if (v == 0) {
			uint64_t e = 0;
			if (__atomic_compare_exchange_n(&set[i], &e, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
				__atomic_fetch_add(count, 1, __ATOMIC_RELAXED);
				return true;
			}
			if (e == h) return false;
		}
		i = (i + 1) & G->set_mask;
	}
	return true; // table full: never prune
}

static int fresh;
bool mc_visit(uint64_t h)
{
	if (replay_mode) return true;
	if (pos < fresh) return true; // re-executed prefix of the sequence
	if (pruned || !over_shard) { set_add(visited, &G->visited_n, h); return true; }
	return set_add(visited, &G->visited_n, h);
}

void mc_outcome(uint64_t h) { if (!pruned) set_add(outcomes, &G->outcome_n, h); }
bool mc_pruned(void) { return pruned; }
bool mc_replaying(void) { return replay_mode; }
void mc_nontrivial(void) { if (!pruned) W->start_ns |= 1; }
void mc_step(uint64_t n) { if (!pruned) W->steps[W->scenario] += n; }
void mc_cases(uint64_t n) { if (!pruned) W->cases[W->scenario] += n; }
void mc_budget(int b) { budget = b; }
int  mc_budget_left(void) { return budget - spent; }
int mc_shard(void) { return shard; }
const char* mc_workdir(void) { return workdir; }
const char* mc_scenario_name(void) { return mc_scenarios[W->scenario].name; }
void mc_capped(const char* why) { if (!pruned) snprintf(W->capped, sizeof(W->capped), "%s", why); }

void mc_log(const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (replay_mode) {
		vprintf(fmt, ap); printf("\n"); fflush(stdout);
	} else if (W->log_len < LOGSZ - 512) {
		int rc = vsnprintf(W->log + W->log_len, 500, fmt, ap);
		if (rc > 499) rc = 499;
		W->log_len += rc;
		W->log[W->log_len++] = ';';
		W->log[W->log_len++] = ' ';
		W->log[W->log_len] = 0;
	}
	va_end(ap);
}

static void fail_record(const char* sig, const char* fmt, va_list ap)
{
	snprintf(W->sig, sizeof(W->sig), "%s:%s", mc_scenarios[W->scenario].name, sig);
	vsnprintf(W->msg, MSGSZ, fmt, ap);
}

void mc_fail(const char* sig, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (pruned && !replay_mode) {
		// the worker owning this sequence reports it; die so that the state is clean
		W->sig[0] = 0;
		snprintf(W->msg, MSGSZ, "pruned");
		_exit(EXIT_FAIL);
	}
	fail_record(sig, fmt, ap);
	W->depth = pos;
	if (replay_mode) { printf("FAIL %s: %s\n", W->sig, W->msg); fflush(stdout); }
	_exit(EXIT_FAIL);
}

static void fails_append(Worker* w, const char* sig, const char* msg);
static bool sig_known(const char* sig)
{
	for (int i = 0; i < nknown; i++)
		if (!strcmp(known[i], sig)) return true;
	return false;
}

void mc_fail_soft(const char* sig, const char* fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	if (pruned && !replay_mode) return;
	fail_record(sig, fmt, ap);
	va_end(ap);
	if (replay_mode) { printf("FAIL %s: %s\n", W->sig, W->msg); fflush(stdout); _exit(EXIT_FAIL); }
	int depth = W->depth; // (choices of this execution which are still to come)
	W->depth = pos;
	static int known_written;
	if (!sig_known(W->sig)) fails_append(W, W->sig, W->msg);
	else if (known_written++ < 20) fails_append(W, W->sig, W->msg);
	if (!sig_known(W->sig) && !all_fails) G->stop = 1;
	W->sig[0] = 0;
	W->depth = depth;
}

// Learned facts: an execution sees the facts known when it started; a new fact
// restarts the scenario, so that every explored tree is consistent.
static uint32_t dyn_now;
bool mc_dyn_has(uint64_t key)
{
	int s = W->scenario & 63;
	uint64_t i = mc_hash(1, &key, 8) % DYN;
	for (int probe = 0; probe < DYN; probe++) {
		uint64_t v = G->dyn[s][i].key;
		if (v == 0) return false;
		if (v == key) return G->dyn[s][i].gen && G->dyn[s][i].gen <= dyn_now;
		i = (i + 1) % DYN;
	}
	return false;
}

void mc_dyn_add(uint64_t key)
{
	int s = W->scenario & 63;
	uint64_t i = mc_hash(1, &key, 8) % DYN;
	for (int probe = 0; probe < DYN; probe++) {
		uint64_t v = __atomic_load_n(&G->dyn[s][i].key, __ATOMIC_SEQ_CST);
		if (v == key) return;
		if (v == 0) {
			uint64_t e = 0;
			if (__atomic_compare_exchange_n(&G->dyn[s][i].key, &e, key, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {
				G->dyn[s][i].gen = __atomic_add_fetch(&G->dyn_gen[s], 1, __ATOMIC_SEQ_CST);
				return;
			}
			if (e == key) return;
		}
		i = (i + 1) % DYN;
	}
	mc_fail("harness", "too many learned facts");
}

static int choose(int n, int cost)
{
	if (n <= 0) mc_fail("harness", "choose(%d)", n);
	if (pruned) return 0;
	if (cost && budget - spent < cost) n = 1;
	if (n == 1) return 0;
	if (pos >= MAXD) mc_fail("horizon", "choice sequence longer than %d", MAXD);
	int c;
	if (pos < W->depth) {
		if (W->n[pos] != n)
			mc_fail("divergence", "replay of a prefix diverged at choice %d: %d alternatives, %d before", pos, n, W->n[pos]);
		c = W->choice[pos];
	} else {
		W->n[pos] = n; W->choice[pos] = 0; W->cost[pos] = cost;
		W->depth = pos + 1;
		c = 0;
	}
	if (c && cost) spent += cost;
	pos++;
	if (!over_shard && !replay_mode) {
		shard_prod *= n;
		if (pos >= shard_depth || shard_prod >= 4096) {
			over_shard = true;
			uint64_t h = mc_hash(7, W->choice, pos * 2);
			if (nshards > 1 && (int)(h % nshards) != shard) pruned = true;
		}
	}
	return c;
}

int mc_choose(int n) { return choose(n, 0); }
bool mc_split(void)
{
	if (!pruned && !over_shard && !replay_mode) {
		over_shard = true;
		uint64_t h = mc_hash(7, W->choice, pos * 2);
		if (nshards > 1 && (int)(h % nshards) != shard) pruned = true;
	}
	return !pruned;
}
int mc_cost(int n, int cost) { return choose(n, cost); }

// advance to the next sequence; false when exhausted
static bool advance(Worker* w)
{
	while (w->depth > 0) {
		int i = w->depth - 1;
		if (w->choice[i] + 1 < w->n[i]) { w->choice[i]++; return true; }
		w->depth--;
	}
	return false;
}

static void sample_take(void)
{
	// keep the first sample of each of a few scenarios and one late one
	uint64_t e = W->execs;
	int slot = -1;
	if (W->samples < 3 && (e == 3 || e == 1000 || e == 20000)) slot = W->samples++;
	if (slot < 0) return;
	snprintf(W->sample[slot], sizeof(W->sample[slot]), "[%s] %s", mc_scenarios[W->scenario].name, W->log);
}

static uint64_t since_spawn;

static long rss_mb(void)
{
	long total = 0, rss = 0;
	FILE* f = fopen("/proc/self/statm", "r");
	if (!f) return 0;
	if (fscanf(f, "%ld %ld", &total, &rss) != 2) rss = 0;
	fclose(f);
	return rss >> 8;
}

static void scen_start(void)
{
	W->dyn_gen = dyn_now = G->dyn_gen[W->scenario & 63];
	W->execs -= W->scen_execs[W->scenario];
	W->scen_execs[W->scenario] = 0;
	W->nontrivial[W->scenario] = W->steps[W->scenario] = W->cases[W->scenario] = 0;
}

// the next scenario to explore: the following one, or one which another worker
// learned more about since this one completed it
static void scen_next(void)
{
	W->done_gen[W->scenario & 63] = dyn_now;
	W->depth = 0;
	W->scenario++;
	if (mc_scenarios[W->scenario].name) return;
	for (int i = 0; mc_scenarios[i].name && i < 64; i++)
		if (W->done_gen[i] != G->dyn_gen[i]) { W->scenario = i; return; }
}

void mc_loop(void (*exec)(void (*fn)(void)))
{
	if (replay_mode) {
		pos = 0; spent = 0; budget = 0; pruned = false; over_shard = true;
		W->start_ns = now_ns() & ~1ull;
		exec(mc_scenarios[W->scenario].fn);
		return;
	}
	for (;;) {
		if (W->resume) {
			W->resume = 0;
			if (!advance(W)) { scen_next(); }
		}
		McScenario* s = &mc_scenarios[W->scenario];
		if (!s->name) break;
		if ((s->thorough_only && !mc_tier) || (single >= 0 && single != W->scenario)) {
			dyn_now = G->dyn_gen[W->scenario & 63];
			scen_next();
			continue;
		}
		if (G->stop) break;
		uint64_t now = now_ns();
		if (now > G->deadline_ns) {
			snprintf(W->capped, sizeof(W->capped), "time limit in scenario %s", s->name);
			break;
		}
		dyn_now = W->dyn_gen;
		if (W->scen_now != W->scenario + 1) { W->scen_now = W->scenario + 1; scen_start(); }
		else if (dyn_now != G->dyn_gen[W->scenario & 63]) {
			// start over with the new facts
			W->depth = 0;
			scen_start();
		}
		pos = 0; spent = 0; budget = 0; pruned = false; over_shard = false; shard_prod = 1;
		W->log_len = 0; W->log[0] = 0; W->sig[0] = 0;
		W->start_ns = now & ~1ull;
		fresh = W->depth;
		exec(s->fn);
		if (!pruned && !over_shard) {
			uint64_t h = mc_hash(7, W->choice, pos * 2);
			if (nshards > 1 && (int)(h % nshards) != shard) pruned = true;
		}
		if (!pruned) {
			W->execs++;
			W->scen_execs[W->scenario]++;
			if (W->start_ns & 1) W->nontrivial[W->scenario]++;
			sample_take();
		}
		W->start_ns = 0;
		W->depth = pos; // drop stale tail, if any
		W->resume = 1;
		// crashed executions leave memory behind: continue in a new process
		if ((++since_spawn & 127) == 0 && rss_mb() > 700) {
			fflush(NULL);
			_exit(EXIT_RECYCLE);
		}
	}
	W->done = 1;
}

// ------------------------------------------------------------------ supervisor

static void json_str(FILE* f, const char* s)
{
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
		else if (c < 32 || c >= 127) fprintf(f, "\\u%04x", c);
		else fputc(c, f);
	}
	fputc('"', f);
}

static void fails_append(Worker* w, const char* sig, const char* msg)
{
	char path[600];
	snprintf(path, sizeof(path), "%s/fails.jsonl", outdir);
	char* mem; size_t size;
	FILE* m = open_memstream(&mem, &size);
	fprintf(m, "{\"scenario\":");
	json_str(m, mc_scenarios[w->scenario].name);
	fprintf(m, ",\"sig\":");
	json_str(m, sig);
	fprintf(m, ",\"msg\":");
	json_str(m, msg);
	fprintf(m, ",\"log\":");
	json_str(m, w->log);
	fprintf(m, ",\"choices\":[");
	for (int i = 0; i < w->depth; i++)
		fprintf(m, "%s%d", i ? "," : "", w->choice[i]);
	fprintf(m, "],\"ns\":[");
	for (int i = 0; i < w->depth; i++)
		fprintf(m, "%s%d", i ? "," : "", w->n[i]);
	fprintf(m, "],\"dyn\":[");
	bool first = true;
	int sc = w->scenario & 63;
	for (int i = 0; i < DYN; i++)
		if (G->dyn[sc][i].gen && G->dyn[sc][i].gen <= w->dyn_gen) {
			fprintf(m, "%s%lu", first ? "" : ",", G->dyn[sc][i].key);
			first = false;
		}
	fprintf(m, "]}\n");
	fclose(m);
	int fd = open(path, O_WRONLY|O_CREAT|O_APPEND, 0644);
	if (fd >= 0) {
		if (write(fd, mem, size) < 0) {}
		close(fd);
	}
	free(mem);
}

static char* read_tail(const char* path)
{
	static char buf[4096];
	buf[0] = 0;
	int fd = open(path, O_RDONLY);
	if (fd < 0) return buf;
	off_t size = lseek(fd, 0, SEEK_END);
	static char all[1 << 20];
	off_t from = size > (off_t)sizeof(all) - 1 ? size - (sizeof(all) - 1) : 0;
	lseek(fd, from, SEEK_SET);
	ssize_t n = read(fd, all, sizeof(all) - 1);
	close(fd);
	if (n < 0) n = 0;
	all[n] = 0;
	// sanitizer summary or assertion line
	char* p = strstr(all, "SUMMARY: ");
	if (!p) p = strstr(all, "Assertion");
	if (!p) p = n > 400 ? all + n - 400 : all;
	snprintf(buf, 600, "%s", p);
	char* nl = strchr(buf, '\n');
	if (nl) *nl = 0;
	return buf;
}

static void crash_sig(char* out, size_t size, int status, const char* err)
{
	char* tail = read_tail(err);
	if (!strncmp(tail, "SUMMARY: ", 9)) {
		// SUMMARY: AddressSanitizer: kind file:line:col in func
		char kind[128] = "", func[128] = "";
		char* c = strstr(tail, "Sanitizer: ");
		if (c) sscanf(c + 11, "%127s", kind);
		char* in = strstr(tail, " in ");
		if (in) sscanf(in + 4, "%127s", func);
		snprintf(out, size, "sanitizer:%s:%s", kind, func);
	} else if (!strncmp(tail, "Assertion", 9)) {
		char a[160];
		snprintf(a, sizeof(a), "%s", tail);
		snprintf(out, size, "assert:%s", a);
	} else if (WIFSIGNALED(status))
		snprintf(out, size, "signal:%d", WTERMSIG(status));
	else
		snprintf(out, size, "exit:%d", WEXITSTATUS(status));
}

static void child_run(void)
{
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	mc_main();
	_exit(0);
}

static pid_t spawn(Worker* w, int i)
{
	fflush(NULL);
	pid_t pid = fork();
	if (pid == 0) {
		W = w; shard = i;
		snprintf(workdir, sizeof(workdir), "%s/w%d", outdir, i);
		mkdir(workdir, 0755);
		char err[600];
		snprintf(err, sizeof(err), "%s/w%d.err", outdir, i);
		int fd = open(err, O_WRONLY|O_CREAT|O_TRUNC, 0644);
		if (!replay_mode) { dup2(fd, 1); }
		dup2(fd, 2); close(fd);
		child_run();
	}
	return pid;
}

// workers which completed a scenario before another one learned more about it
static int redo(Worker* ws, pid_t* pids)
{
	int live = 0;
	if (now_ns() > G->deadline_ns) return 0;
	for (int i = 0; i < nshards; i++) {
		Worker* w = &ws[i];
		if (w->capped[0]) continue;
		for (int s = 0; mc_scenarios[s].name && s < 64; s++) {
			if (w->done_gen[s] == G->dyn_gen[s] || (mc_scenarios[s].thorough_only && !mc_tier) || (single >= 0 && single != s)) continue;
			w->scenario = s; w->depth = 0; w->resume = 0; w->done = 0;
			pids[i] = spawn(w, i);
			live++;
			break;
		}
	}
	return live;
}

int main(int argc, char** argv)
{
	if (!getenv("MC_NOASLR")) {
		setenv("MC_NOASLR", "1", 1);
		int p = personality(0xffffffff);
		if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1)
			execv("/proc/self/exe", argv);
	}
	double limit = 600;
	const char* replay = NULL;
	const char* tier = getenv("VERIF_TIER");
	if (tier && !strcmp(tier, "thorough")) mc_tier = 1;
	outdir = "/tmp/mc";
	nshards = 8;
	const char* scen = NULL;
	uint64_t setsize = 1ull << 24;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--shards")) nshards = atoi(argv[++i]);
		else if (!strcmp(argv[i], "--limit")) limit = atof(argv[++i]);
		else if (!strcmp(argv[i], "--out")) outdir = argv[++i];
		else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
		else if (!strcmp(argv[i], "--scenario")) scen = argv[++i];
		else if (!strcmp(argv[i], "--tier")) mc_tier = !strcmp(argv[++i], "thorough");
		else if (!strcmp(argv[i], "--known")) known[nknown++] = argv[++i];
		else if (!strcmp(argv[i], "--all")) all_fails = 1;
		else if (!strcmp(argv[i], "--depth")) shard_depth = atoi(argv[++i]);
		else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
	}
	mkdir(outdir, 0755);
	if (scen) {
		for (int i = 0; mc_scenarios[i].name; i++)
			if (!strcmp(mc_scenarios[i].name, scen)) single = i;
		if (single < 0) { fprintf(stderr, "no scenario %s\n", scen); return 3; }
	}
	G = mmap(NULL, sizeof(Global), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
	G->set_mask = setsize - 1;
	visited  = mmap(NULL, setsize * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	outcomes = mmap(NULL, setsize * 8, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	Worker* ws = mmap(NULL, sizeof(Worker) * MAXW, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
	uint64_t t0 = now_ns();
	G->deadline_ns = t0 + (uint64_t)(limit * 1e9);

	if (replay) {
		// file: scenario\n choices...\n
		FILE* f = fopen(replay, "r");
		char name[128];
		if (!f || fscanf(f, "%127s", name) != 1) { fprintf(stderr, "bad replay file\n"); return 3; }
		replay_mode = 1; nshards = 1;
		Worker* w = &ws[0];
		w->scenario = -1;
		for (int i = 0; mc_scenarios[i].name; i++)
			if (!strcmp(mc_scenarios[i].name, name)) w->scenario = i;
		if (w->scenario < 0) { fprintf(stderr, "no scenario %s\n", name); return 3; }
		int c, n;
		while (w->depth < MAXD && fscanf(f, "%d/%d", &c, &n) == 2) {
			w->choice[w->depth] = c; w->n[w->depth] = n; w->depth++;
		}
		char word[16];
		if (fscanf(f, "%15s", word) == 1 && !strcmp(word, "dyn:")) {
			unsigned long key;
			W = w;
			while (fscanf(f, "%lu", &key) == 1) mc_dyn_add(key);
			dyn_now = UINT32_MAX;
		}
		fclose(f);
		pid_t pid = spawn(w, 0);
		int status;
		uint64_t start = now_ns();
		for (;;) {
			pid_t r = waitpid(pid, &status, WNOHANG);
			if (r == pid) break;
			if (now_ns() - start > (uint64_t)mc_hang_limit * 3 * 1000000000ull) {
				kill(pid, SIGKILL); waitpid(pid, &status, 0);
				printf("FAIL %s:hang: no progress\n", name);
				return 1;
			}
			usleep(2000);
		}
		if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { printf("PASS\n"); return 0; }
		if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) return 1;
		char err[600], sig[300];
		snprintf(err, sizeof(err), "%s/w0.err", outdir);
		crash_sig(sig, sizeof(sig), status, err);
		printf("FAIL %s:%s: %s\n", name, sig, read_tail(err));
		return 1;
	}

	pid_t pids[MAXW];
	int live = nshards, fails = 0, error = 0;
	for (int i = 0; i < nshards; i++) pids[i] = spawn(&ws[i], i);
	while (live > 0) {
		bool progress = false;
		for (int i = 0; i < nshards; i++) {
			if (!pids[i]) continue;
			Worker* w = &ws[i];
			int status;
			pid_t r = waitpid(pids[i], &status, WNOHANG);
			char sig[400]; sig[0] = 0;
			char msg[MSGSZ]; msg[0] = 0;
			if (r == pids[i]) {
				progress = true;
				if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && w->done) { pids[i] = 0; live--; if (!live && !G->stop) live = redo(ws, pids); continue; }
				if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_RECYCLE) {
					pids[i] = spawn(w, i);
					continue;
				}
				if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL && w->killed++ < 5) {
					// ended from outside (memory): repeat the execution
					w->start_ns = 0;
					pids[i] = spawn(w, i);
					continue;
				}
				if (WIFEXITED(status) && WEXITSTATUS(status) == EXIT_FAIL) {
					if (!w->sig[0]) { // pruned execution failed
						w->resume = 1;
						pids[i] = spawn(w, i);
						continue;
					}
					snprintf(sig, sizeof(sig), "%s", w->sig);
					snprintf(msg, sizeof(msg), "%s", w->msg);
				} else {
					char err[600], cs[300];
					snprintf(err, sizeof(err), "%s/w%d.err", outdir, i);
					if (!w->start_ns) {
						// died outside of an execution: harness problem
						fprintf(stderr, "worker %d died outside of an execution: %s\n", i, read_tail(err));
						error = 1; G->stop = 1; pids[i] = 0; live--;
						continue;
					}
					crash_sig(cs, sizeof(cs), status, err);
					snprintf(sig, sizeof(sig), "%s:%s", mc_scenarios[w->scenario].name, cs);
					snprintf(msg, sizeof(msg), "process died: %s", read_tail(err));
				}
			} else {
				uint64_t st = w->start_ns;
				uint64_t now = now_ns();
				if (st && now > st && now - st > (uint64_t)mc_hang_limit * 1000000000ull) {
					kill(pids[i], SIGKILL);
					waitpid(pids[i], &status, 0);
					snprintf(sig, sizeof(sig), "%s:hang", mc_scenarios[w->scenario].name);
					snprintf(msg, sizeof(msg), "execution did not finish in %d s", mc_hang_limit);
				}
			}
			if (sig[0]) {
				fails_append(w, sig, msg);
				fails++;
				w->execs++; w->scen_execs[w->scenario]++;
				w->start_ns = 0;
				w->resume = 1;
				if (!sig_known(sig) && !all_fails) G->stop = 1;
				if (fails > (sig_known(sig) ? 100000 : 2000)) { G->stop = 1; snprintf(w->capped, sizeof(w->capped), "too many failures"); }
				if (G->stop) { pids[i] = 0; live--; }
				else pids[i] = spawn(w, i);
				progress = true;
			}
			// past the deadline executions get a grace period of the hang limit
		}
		if (!progress) usleep(3000);
	}
	char path[600];
	snprintf(path, sizeof(path), "%s/stats.json", outdir);
	FILE* f = fopen(path, "w");
	uint64_t execs = 0, nontriv = 0, steps = 0, cases = 0;
	const char* capped = "";
	for (int i = 0; i < nshards; i++) {
		execs += ws[i].execs;
		for (int k = 0; k < 256; k++) { nontriv += ws[i].nontrivial[k]; steps += ws[i].steps[k]; cases += ws[i].cases[k]; }
		if (ws[i].capped[0]) capped = ws[i].capped;
	}
	fprintf(f, "{\"executions\":%lu,\"nontrivial\":%lu,\"steps\":%lu,\"cases\":%lu,\"states\":%lu,\"outcomes\":%lu,\"wall_s\":%.2f,\"error\":%d,\"capped\":",
	        execs, nontriv, steps, cases, G->visited_n, G->outcome_n, (now_ns() - t0) / 1e9, error);
	json_str(f, capped);
	fprintf(f, ",\"scenarios\":{");
	bool first = true;
	for (int s = 0; mc_scenarios[s].name; s++) {
		uint64_t e = 0;
		for (int i = 0; i < nshards; i++) e += ws[i].scen_execs[s];
		if (!e) continue;
		fprintf(f, "%s", first ? "" : ",");
		json_str(f, mc_scenarios[s].name);
		fprintf(f, ":%lu", e);
		first = false;
	}
	fprintf(f, "},\"samples\":[");
	int ns = 0;
	for (int k = 2; k >= 0 && ns < 4; k--)
		for (int i = 0; i < nshards && ns < 4; i++)
			if (ws[i].samples > k) { if (ns++) fprintf(f, ","); json_str(f, ws[i].sample[k]); }
	fprintf(f, "]}\n");
	fclose(f);
	return error ? 3 : 0;
}
