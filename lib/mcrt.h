/* mcrt: stateless model checking of real multi-threaded C code.
 *
 * The code under test is compiled with -fsanitize=thread instrumentation and linked with this
 * runtime instead of the sanitizer's. Exactly one thread runs at a time; every synchronisation
 * operation, atomic, volatile access and racy plain access is a scheduling point, and the explorer
 * enumerates every schedule with at most B deviations (preemptions, early timeouts, spurious
 * wake-ups, non-default environment answers). Each execution runs in a forked child. */
#ifndef MCRT_H
#define MCRT_H
#include <stddef.h>
#include <stdint.h>

typedef struct {
    const char *name;
    void (*setup)(void);     /* once, before the first fork, not scheduled; may be NULL */
    void (*run)(void);       /* body of one execution, runs as thread 0 */
    int bound_quick;         /* deviations explored exhaustively, quick tier */
    int bound_thorough;
    int flags;
    const char *what;        /* one line for the evidence */
} mc_scenario;

#define MC_SPURIOUS   1      /* condition waits may wake up spuriously (one deviation each) */
#define MC_NOLEAKTHREADS 2   /* all threads must have ended when run() returns */
#define MC_DEADLOCK_OK 4     /* do not report "no thread can run" */
#define MC_DELAY      8      /* delay bounding: also the choice after a block costs a deviation */

int mc_main(int argc, char **argv, const mc_scenario *scn, int n);

/* inside an execution */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void mc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int  mc_choose(int n);             /* environment answer: 0 is the default, others cost one deviation */
int  mc_choose_free(int n);        /* as above, but alternatives cost nothing */
void mc_point(void);               /* explicit scheduling point */
void mc_yield(void);
void mc_atomic_begin(void);        /* up to the end the thread is not preempted (one scheduling point before) */
void mc_atomic_end(void);
int  mc_spawn(void (*fn)(void *), void *arg);   /* returns thread number */
void mc_join(int t);
int  mc_self(void);
int  mc_active(void);
uint64_t mc_now_ms(void);          /* virtual monotonic clock */
void mc_advance_ms(uint64_t ms);   /* move the clock, waking expired sleepers */
void mc_block_until(int (*pred)(void *), void *arg);   /* thread is enabled when pred holds */
int  mc_block_until_timed(int (*pred)(void *), void *arg, uint64_t ms); /* 0: pred, 1: timeout */
size_t mc_live_blocks(void);       /* heap blocks currently allocated */
void mc_trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int  mc_ptr_live(const void *p, size_t n); /* is [p,p+n) inside a live heap block (or not heap)? */
#endif
