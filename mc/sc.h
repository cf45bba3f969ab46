#pragma once
// Controlled scheduler: threads of the code under test are real threads of
// which exactly one runs at a time. The code is compiled with the thread
// sanitizer's instrumentation and this runtime in its place, so that every
// atomic operation, lock, condition variable, event descriptor, file operation
// and every plain access which is not ordered with a conflicting one of
// another thread is a point where the explorer decides who runs next.
#include "mc.h"

enum {
	SC_TSO   = 1,   // non-seq_cst atomic stores may be delayed past later loads (x86), cost 1
	SC_TIME  = 2,   // timeouts may expire while others could still run, cost 1
	SC_DELAY = 4,   // choosing another than the next runnable thread at a blocking point costs 1
	SC_NOIO  = 8,   // file operations are no scheduling points
};

void sc_begin(int preemptions, int flags);  // the calling thread becomes thread 0
void sc_end(void);                          // all threads must have ended
int  sc_self(void);
uint64_t sc_now_ms(void);
void sc_point(void);                        // explicit scheduling point
void sc_yield(void);                        // let the others run first
int  sc_threads(void);                      // threads which have not ended, without the caller
void sc_hook(const char* (*describe)(void)); // text added to a deadlock report
bool sc_quiet(void);                        // no other thread can run without the caller
void sc_idle(void);                         // wait until no other thread can run

// monitors of the harness: not seen by the scheduler
#define SC_MON __attribute__((section("mcmon")))
