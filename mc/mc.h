#pragma once
// Exhaustive choice-sequence explorer (stateless model checking core).
//
// A scenario is a deterministic function which asks mc_choose()/mc_cost() for
// every nondeterministic decision: which operation comes next, which argument,
// where the crash is, what a system call answers, which thread runs. The
// explorer enumerates all decision sequences depth first, re-running the
// scenario from scratch for each, sharded over worker processes.
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

typedef struct {
	const char* name;
	void      (*fn)(void);
	int         thorough_only;
} McScenario;

// provided by the harness
extern McScenario  mc_scenarios[];       // ends with name == NULL
extern void        mc_main(void);        // set the environment up, call mc_loop()
extern int         mc_hang_limit;        // seconds for one execution (default 30)

// exploration loop: calls exec for every execution of every scenario
void mc_loop(void (*exec)(void (*fn)(void)));

extern int mc_tier;                      // 0: quick, 1: thorough
static inline int mc_q(int quick, int thorough) { return mc_tier ? thorough : quick; }

int  mc_choose(int n);                   // free choice out of 0..n-1
int  mc_cost(int n, int cost);           // choice 0 is free, others spend from the budget
void mc_budget(int);                     // set budget (call before any mc_cost)
int  mc_budget_left(void);
bool mc_split(void);                     // the choices made so far select the worker: false when it is another one (return then)
bool mc_pruned(void);                    // execution belongs to another worker: result ignored
bool mc_replaying(void);
const char* mc_scenario_name(void);

// report a violation with a stable signature; does not return
void mc_fail(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
// report a violation and go on with the next execution (caller must return)
void mc_fail_soft(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define mc_check(cond, sig, ...) do { if (__builtin_expect(!(cond), 0)) mc_fail(sig, __VA_ARGS__); } while (0)

void mc_log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_nontrivial(void);                // mark the current execution as non-trivial
void mc_step(uint64_t n);                // transitions executed
void mc_cases(uint64_t n);               // count n further cases decided inside this execution
bool mc_visit(uint64_t h);               // state set (shared by all workers): true when new
void mc_outcome(uint64_t h);             // distinct outcome set (shared by all workers)
bool mc_dyn_has(uint64_t key);            // facts learned in earlier executions (a new one restarts the scenario)
void mc_dyn_add(uint64_t key);
void mc_capped(const char* why);         // exploration is not exhaustive
int mc_shard(void);
const char* mc_workdir(void);            // private scratch directory of this worker

uint64_t mc_hash(uint64_t seed, const void* data, size_t size);
