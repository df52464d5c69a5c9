/* Systematic exploration of thread schedules in one OS thread.
 *
 * Threads are coroutines. Every access of the instrumented code to memory that
 * is not its own stack, every atomic and every pthread call is a point where
 * another thread may go on. A run is determined by the choices taken at these
 * points; runs are enumerated (bounded number of preemptions) or drawn at
 * random. The heap is watched for use after free, double free and leaks, and a
 * release must be ordered (by the memory orders the code asks for) after every
 * use of the block by other threads. The library's variables are put back to
 * their initial values before each run. */
#ifndef EXPLORE_H
#define EXPLORE_H

#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef struct {
	int preempt;		/* bound on preemptions while enumerating */
	int extra;		/* bound on spurious wake-ups and early time-outs */
	int signal_choice;	/* which sleeper a signal wakes is a choice */
	uint64_t max_runs;	/* per program and phase */
	uint64_t random_runs;
	uint64_t seed;
	int passes;		/* each run is repeated, to see more of the same schedule */
	int spin;		/* threads may wait by reading a variable over and over */
	int create_fail;	/* bit set: k-th pthread_create of the run fails */
} sched_opts;

extern sched_opts so;

/* Explores body(arg), run as thread 0, and writes every distinct history.
 * head is written before each history. */
void sched_explore(const char* head, void (*body)(void*), void* arg);
void sched_open(const char* file);
void sched_close(void);
extern uint64_t sched_runs, sched_histories;

/* for use inside a run */
int sched_self(void);			/* current thread */
int sched_spawn(void (*fn)(void*), void* arg);	/* new thread of the program */
void sched_join(int t);			/* until thread t has ended */
int sched_pass(void);			/* which repetition this is */
void sched_join_all(void);		/* until every other thread ended or is blocked for good */
void sched_ev(const char* fmt, ...);	/* one event of the history */
void sched_evp(const char* fmt, ...);	/* part of an event */
int64_t sched_now(void);		/* virtual time in ns (wall clock) */
void sched_set_now(int64_t ns);
bool sched_blocked(int t);		/* thread has not ended */
int sched_threads(void);
uint64_t sched_rand(void);		/* same in every run of an exploration */
void sched_leaks(void);			/* everything allocated in the run must be free by now */
int sched_block_id(const void* p);	/* small number for a heap block of this run */
bool sched_live(const void* p);
size_t sched_block_size(const void* p);
void sched_guard(const void* p, size_t n);	/* for this run: all plain accesses must be ordered */
void sched_no_points(int on);		/* switch points off in driver code */
void sched_fault(const char* fmt, ...) __attribute__((noreturn));
extern void (*sched_on_free)(void* p);	/* told about every release */
extern int (*sched_fail_alloc)(size_t n);	/* nonzero makes the allocation fail */

#endif
