/* T01: every accepted task runs exactly once and is finished when the pool is destroyed. */
#include "mcrt.h"
#include "mcp_thread_pool.h"
#include <stddef.h>

#define NT 12
static mcp_thread_pool_t *P;
static int runs[NT], done[NT], accepted[NT], offered[NT];
static void note(int i) { if (++runs[i] > 1) mc_fail("ran-twice", "task %d ran %d times", i, runs[i]); }
static void task(void *a) { int i = (int)(long)a; note(i); done[i]++; }
static void offer(int i, void (*f)(void *)) { offered[i] = 1; accepted[i] = mcp_thread_pool_add_task(P, f, (void *)(long)i) == 0; }
static void judge(void) {
    int a = 0, o = 0;
    for (int i = 0; i < NT; i++) {
        o += offered[i]; a += accepted[i];
        if (accepted[i] && !runs[i]) mc_fail("lost", "accepted task %d never ran", i);
        if (accepted[i] && !done[i]) mc_fail("unfinished", "task %d had not finished when the pool was gone", i);
        if (!accepted[i] && runs[i]) mc_fail("rejected-ran", "task %d was rejected and ran", i);
    }
    mc_outcome("%d of %d accepted", a, o);
}
static void destroy(void) { if (mcp_thread_pool_destroy(P) != 0) mc_fail("destroy", "destroying the pool failed"); judge(); }
static void sub2(void *a) { int b = (int)(long)a; offer(b, task); offer(b + 1, task); }
static void sub3(void *a) { sub2(a); offer((int)(long)a + 2, task); }

static void s_submit(void) {
    P = mcp_thread_pool_create(2, 4);
    if (!P) mc_fail("create", "no pool");
    int t = mc_spawn(sub2, (void *)0);
    offer(4, task);
    mc_join(t);
    for (int i = 0; i < 2; i++) if (!accepted[i]) mc_fail("rejected", "task %d rejected with room in the queues", i);
    if (!accepted[4]) mc_fail("rejected", "task 4 rejected with room in the queues");
    destroy();
}
static void s_single(void) { P = mcp_thread_pool_create(1, 4); int t = mc_spawn(sub2, (void *)0); sub2((void *)4); mc_join(t); destroy(); }
static void s_full(void) { P = mcp_thread_pool_create(1, 2); int t = mc_spawn(sub3, (void *)0); sub3((void *)4); mc_join(t); destroy(); }
static void s_many(void) { P = mcp_thread_pool_create(2, 1); int t = mc_spawn(sub3, (void *)0); sub2((void *)4); mc_join(t); destroy(); }
/* a running task submits another one while the pool is being destroyed */
static void parent(void *a) { int i = (int)(long)a; note(i); offer(i + 1, task); done[i]++; }
static void s_nested(void) { P = mcp_thread_pool_create(2, 2); offer(0, parent); destroy(); }
static void s_nested1(void) { P = mcp_thread_pool_create(1, 2); offer(0, parent); offer(4, task); destroy(); }
/* resizing */
static void s_shrink(void) {
    P = mcp_thread_pool_create(3, 4);
    int t = mc_spawn(sub2, (void *)0);
    if (mcp_thread_pool_resize(P, 2) != 0) mc_fail("resize", "failed");
    if (mcp_thread_pool_get_thread_count(P) != 2) mc_fail("resize", "%zu threads", mcp_thread_pool_get_thread_count(P));
    offer(4, task);
    mc_join(t);
    destroy();
}
static void s_regrow(void) {
    P = mcp_thread_pool_create(3, 4);
    offer(0, task);
    if (mcp_thread_pool_resize(P, 2) != 0 || mcp_thread_pool_resize(P, 3) != 0) mc_fail("resize", "failed");
    if (mcp_thread_pool_get_thread_count(P) != 3) mc_fail("resize", "%zu threads", mcp_thread_pool_get_thread_count(P));
    offer(1, task); offer(2, task);
    destroy();
}
static void s_shrunk(void) {
    P = mcp_thread_pool_create(3, 4);
    mcp_thread_pool_resize(P, 2);
    for (int i = 0; i < 4; i++) { offer(i, task); if (!accepted[i]) mc_fail("rejected", "task %d rejected with room in the queues", i); }
    mcp_thread_pool_wait(P, 0);
    for (int i = 0; i < 4; i++) if (!done[i]) mc_fail("stuck", "task %d has not run after waiting", i);
    destroy();
}
static void t_resize(void *a) { (void)a; mcp_thread_pool_resize(P, 2); mcp_thread_pool_resize(P, 3); }
static void s_resize_race(void) {
    P = mcp_thread_pool_create(3, 4);
    int t = mc_spawn(t_resize, 0);
    offer(0, task); offer(1, task);
    mc_join(t);
    offer(2, task);
    destroy();
}
/* three workers kept busy, queues that have room unevenly */
static int held[NT], release[NT];
static int let_go(void *a) { return release[(int)(long)a]; }
static void hold(void *a) { int i = (int)(long)a; note(i); held[i] = 1; mc_block_until(let_go, a); done[i]++; }
static int running(void *a) { int n = 0; for (int i = 0; i < NT; i++) n += held[i] && !release[i]; return n >= (int)(long)a; }
static void s_uneven(void) {
    P = mcp_thread_pool_create(3, 2);
    for (int i = 0; i < 3; i++) offer(i, hold);
    mc_block_until(running, (void *)3);
    int kept = mc_choose_free(4);
    for (int i = 3; i < 9; i++) { offer(i, hold); if (!accepted[i]) mc_fail("rejected", "task %d rejected with room in the queues", i); }
    for (int i = 0; i < 3; i++) if (i != kept) release[i] = 1;
    mc_block_until(running, (void *)3);
    offer(9, task); if (!accepted[9]) mc_fail("rejected", "task 9 rejected with room in the queues");
    for (int i = 0; i < NT; i++) release[i] = 1;
    destroy();
}
static const mc_scenario S[] = {
    {"submit", 0, s_submit, 2, 3, MC_DELAY, "2 workers, 2 submitters, 3 tasks"},
    {"single-worker", 0, s_single, 2, 3, MC_DELAY, "1 worker, 2 submitters, 4 tasks"},
    {"full", 0, s_full, 2, 3, MC_DELAY, "1 worker with a queue of 2, 6 tasks offered"},
    {"full-two", 0, s_many, 2, 3, MC_DELAY, "2 workers with queues of 1, 5 tasks offered"},
    {"uneven", 0, s_uneven, 0, 1, MC_DELAY, "3 busy workers with queues of 2, 10 tasks, room left in some queues"},
    {"nested", 0, s_nested, 2, 3, MC_DELAY, "a task submits a task during destruction, 2 workers"},
    {"nested-single", 0, s_nested1, 3, 4, MC_DELAY, "the same, 1 worker with another task waiting"},
    {"shrink", 0, s_shrink, 2, 2, MC_DELAY, "3 workers become 2 during submissions"},
    {"regrow", 0, s_regrow, 2, 2, MC_DELAY, "3 workers become 2 and 3 again"},
    {"shrunk", 0, s_shrunk, 1, 2, MC_DELAY, "tasks submitted after shrinking are run"},
    {"resize-race", 0, s_resize_race, 1, 2, MC_DELAY, "resizing concurrent with submissions"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
