/* T02: waiting on the pool returns success only when the work submitted before is done. */
#include "mcrt.h"
#include "mcp_thread_pool.h"
#include <stddef.h>

#define NT 12
static mcp_thread_pool_t *P;
static int done[NT], returned[NT], accepted[NT], nreject;
static int gate;
static int open_(void *a) { (void)a; return gate; }
static void task(void *a) { mc_point(); done[(int)(long)a] = 1; }
static void slow(void *a) { mc_block_until(open_, 0); done[(int)(long)a] = 1; }
static void offer(int i, void (*f)(void *)) { accepted[i] = mcp_thread_pool_add_task(P, f, (void *)(long)i) == 0; nreject += !accepted[i]; returned[i] = 1; }
static void waits(unsigned ms) {
    int before[NT];
    for (int i = 0; i < NT; i++) before[i] = returned[i] && accepted[i];
    uint64_t t0 = mc_now_ms();
    int r = mcp_thread_pool_wait(P, ms);
    if (r == 0) { for (int i = 0; i < NT; i++) if (before[i] && !done[i]) mc_fail("early", "waiting reported success while task %d was not done", i); }
    else if (!ms) mc_fail("failed", "waiting without a time limit failed");
    else if (mc_now_ms() - t0 < ms) mc_fail("early-timeout", "waiting gave up after %d of %u ms", (int)(mc_now_ms() - t0), ms);
    mc_outcome("wait %d", r);
}
static void idle_counts(void) {
    size_t s, c, f, a; int na = 0;
    for (int i = 0; i < NT; i++) na += accepted[i];
    if (mcp_thread_pool_get_stats(P, &s, &c, &f, &a) != 0) mc_fail("counters", "none");
    if ((int)s != na || (int)c != na || (int)f != nreject || a) mc_fail("counters", "submitted %zu completed %zu failed %zu active %zu; accepted %d rejected %d", s, c, f, a, na, nreject);
}
/* the counters of a finished task may be updated a moment after its function returned */
static int never(void *x) { (void)x; return 0; }
static void finish(void) {
    size_t a = 1;
    mcp_thread_pool_wait(P, 0);
    for (int i = 0; i < 4 && a; i++) { mc_block_until_timed(never, 0, 1); mcp_thread_pool_get_stats(P, NULL, NULL, NULL, &a); }
    idle_counts();
    if (mcp_thread_pool_destroy(P) != 0) mc_fail("destroy", "failed");
}
static void sub2(void *a) { int b = (int)(long)a; offer(b, task); offer(b + 1, task); }

static void s_wait(void) { P = mcp_thread_pool_create(2, 4); offer(0, task); offer(1, task); waits(0); finish(); }
static void s_one(void) { P = mcp_thread_pool_create(1, 4); int t = mc_spawn(sub2, (void *)4); offer(0, task); waits(0); mc_join(t); finish(); }
/* tasks submitted later finish first */
static void late(void *a) { (void)a; offer(4, task); offer(5, task); mc_block_until_timed(open_, 0, 40); gate = 1; }
static void s_overtaken(void) { P = mcp_thread_pool_create(2, 4); offer(0, slow); int t = mc_spawn(late, 0); waits(0); mc_join(t); finish(); }
/* the same, cut down: the older task is running when the other is submitted, and outlasts the wait */
static int started, gone;
static int begun(void *a) { (void)a; return started; }
static int over(void *a) { (void)a; return gone; }
static void stays(void *a) { started = 1; mc_block_until(open_, 0); done[(int)(long)a] = 1; }
static void one(void *a) { offer((int)(long)a, task); gone = 1; }
static void s_passed(void) {
    P = mcp_thread_pool_create(2, 4); offer(0, stays); mc_block_until(begun, 0); int t = mc_spawn(one, (void *)4); waits(5);
    mc_block_until(over, 0); gate = 1; mc_join(t); waits(0); if (mcp_thread_pool_destroy(P) != 0) mc_fail("destroy", "failed");
}
static void opener(void *a) { (void)a; mc_block_until_timed(open_, 0, 25); gate = 1; }
static void s_rejected(void) { P = mcp_thread_pool_create(1, 1); offer(0, slow); offer(1, task); offer(2, task); offer(3, task); int t = mc_spawn(opener, 0); waits(0); mc_join(t); finish(); }
static void s_timeout(void) { P = mcp_thread_pool_create(2, 4); offer(0, slow); offer(1, task); waits(30); int t = mc_spawn(sub2, (void *)4); waits(30); gate = 1; mc_join(t); waits(0); finish(); }
static void waiter(void *a) { (void)a; waits(0); }
static void s_two(void) { P = mcp_thread_pool_create(2, 4); offer(0, task); int t = mc_spawn(waiter, 0); offer(1, task); waits(0); mc_join(t); finish(); }
static void s_empty(void) { P = mcp_thread_pool_create(2, 2); waits(0); waits(20); int t = mc_spawn(waiter, 0); offer(0, task); mc_join(t); finish(); }
static const mc_scenario S[] = {
    {"wait", 0, s_wait, 2, 3, MC_DELAY, "2 workers, 2 tasks, one waiter"},
    {"submitting", 0, s_one, 2, 3, MC_DELAY, "1 worker, submissions continue during the wait"},
    {"overtaken", 0, s_overtaken, 1, 2, MC_DELAY, "tasks submitted during the wait finish before an older one"},
    {"passed", 0, s_passed, 2, 2, MC_DELAY, "a task submitted during the wait finishes before one that is running"},
    {"rejected", 0, s_rejected, 2, 3, MC_DELAY, "some submissions were rejected"},
    {"timeout", 0, s_timeout, 1, 2, MC_DELAY, "waits with a time limit while a task does not finish"},
    {"two-waiters", 0, s_two, 1, 2, MC_DELAY, "two waiters"},
    {"empty", 0, s_empty, 2, 3, MC_DELAY, "waiting on a pool without work"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
