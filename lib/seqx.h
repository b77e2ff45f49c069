/* seqx: exhaustive enumeration of operation sequences, inputs, environment answers and faults.
 *
 * A scenario's run() is one execution on the real code. Every sx_choose(n) is a branch; the engine
 * runs the scenario for every possible vector of answers (depth first, spread over worker
 * processes). Crashes, sanitizer reports and hangs are attributed to the vector that was running. */
#ifndef SEQX_H
#define SEQX_H
#include <stddef.h>
#include <stdint.h>

typedef struct {
    const char *name;
    void (*setup)(void);      /* once per worker process */
    void (*run)(void);
    int flags;
    const char *what;
} sx_scenario;
#define SX_FORK 1             /* run each execution in a process of its own */

int sx_main(int argc, char **argv, const sx_scenario *s, int n);
int sx_thorough(void);
int sx_worker(void);          /* number of the worker process, for scratch directories */
const char *sx_scratch(void); /* scratch directory of this worker (created on demand, removed at the end) */

int  sx_choose(int n);
int  sx_flip(void);
void sx_fail(const char *key, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
#define SX_CHECK(c, key, ...) do { if (!(c)) sx_fail(key, __VA_ARGS__); } while (0)
void sx_op(void);                                  /* one operation of the real code was executed */
void sx_ops(long n);
void sx_state(const void *p, size_t n);            /* a (model) state that was reached */
void sx_class(const char *fmt, ...) __attribute__((format(printf, 1, 2))); /* coverage class */
void sx_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));  /* describes this execution (kept for samples and violations) */
int  sx_noting(void);                              /* non-zero when notes of this execution will be kept */

/* virtual time: time(), clock_gettime(), gettimeofday(), sleeps */
extern uint64_t sx_ms;                             /* both clocks; realtime = sx_ms + SX_EPOCH_MS */
#define SX_EPOCH_MS 1700000000000ULL
/* allocation faults: the k-th allocation from now on (0 = next) fails; -1 none */
void sx_alloc_fail(long k);
long sx_alloc_count(void);                         /* allocations since the last sx_alloc_fail() */
long sx_live(void);                                /* blocks allocated minus freed by the code under test */
#endif
