/* Controlled scheduler: one thread of the system under test runs at a time; every
 * lock, wait, sleep and (instrumented) shared memory access of the library is a
 * point where another thread may be chosen.  See DESIGN.md. */
#ifndef CSCHED_H
#define CSCHED_H
#include "drv.h"
/* the harness supplies: */
void scenario(J *cfg);            /* runs as thread 0; returning ends the run */
/* services for the harness */
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* emit one trace event (JSON object) */
void sc_yield(void);              /* an explicit scheduling point */
int  sc_spawn(void (*fn)(void *), void *arg); /* harness thread under control; returns its index */
void sc_join(int t);
int  sc_self(void);               /* index of the calling thread (creation order, 0 = scenario) */
int  sc_lib_thread(void);         /* true if the calling thread was created by the library */
void sc_block_until(bool (*f)(void *), void *arg); /* wait for a harness condition */
void sc_quiesce(void);            /* wait until every other thread waits for an event */
void sc_sleep_ms(int ms);
long long sc_now_ns(void);
void sc_end(void) __attribute__((noreturn));
int  sc_live_blocks(void);        /* live heap blocks allocated through the wrapped allocator */
int  sc_threads_alive(void);
unsigned sc_rand(void);
extern long long sc_time_step;    /* virtual ns per look at the clock */
extern int sc_fail_init;          /* >0: the n-th mutex/rwlock/semaphore initialisation from now on fails */
extern int sc_fail_alloc;         /* >0: the n-th allocation from now on fails (fault injection) */
extern int sc_fail_thread;        /* >0: the n-th pthread_create from now on fails */
extern __thread long long sc_force_sec, sc_force_usec; /* if sec >= 0, what gettimeofday returns to this thread */
extern int sc_mem_points;         /* memory accesses are scheduling points (default 1) */
#define SC_WRAPS "see sched_wraps in lib/conc.py"
#endif
