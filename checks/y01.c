/* Y01: locks exclude, condition waits wake and time out on time. */
#include "mcrt.h"
#include "mcp_sync.h"
#include "mcp_rwlock.h"

static int inside, readers, entered;
static void enter(void) { if (inside++) mc_fail("two-in-section", "two threads hold the lock at once"); if (readers) mc_fail("writer-with-reader", "a writer holds the lock together with a reader"); mc_point(); mc_point(); }
static void leave(void) { inside--; entered++; }

static mcp_mutex_t *mx;
static void t_mutex(void *a) { (void)a; for (int i = 0; i < 2; i++) { if (mcp_mutex_lock(mx)) mc_fail("lock-failed", "mutex lock failed"); enter(); leave(); if (mcp_mutex_unlock(mx)) mc_fail("unlock-failed", "mutex unlock failed"); } }
static void s_mutex(void) {
    mx = mcp_mutex_create();
    int a = mc_spawn(t_mutex, 0), b = mc_spawn(t_mutex, 0), c = mc_spawn(t_mutex, 0);
    mc_join(a); mc_join(b); mc_join(c);
    if (entered != 6) mc_fail("lost-entry", "entered %d", entered);
    mcp_mutex_destroy(mx);
}
static void t_rec(void *a) {
    (void)a;
    if (mcp_mutex_lock(mx)) mc_fail("lock-failed", "lock failed");
    enter();
    if (mcp_mutex_lock(mx)) mc_fail("rec-failed", "nested lock of recursive mutex failed");
    mc_point();
    mcp_mutex_unlock(mx);
    mc_point();
    leave();
    mcp_mutex_unlock(mx);
}
static void s_rec(void) {
    mx = mcp_recursive_mutex_create();
    int a = mc_spawn(t_rec, 0), b = mc_spawn(t_rec, 0), c = mc_spawn(t_rec, 0);
    mc_join(a); mc_join(b); mc_join(c);
    mcp_mutex_destroy(mx);
}
static mcp_spinlock_t *sl;
static void t_spin(void *a) {
    (void)a;
    if (mcp_spinlock_lock(sl)) mc_fail("lock-failed", "spinlock lock failed");
    enter(); leave();
    mcp_spinlock_unlock(sl);
}
static void t_try(void *a) {
    (void)a;
    for (int i = 0; i < 2; i++) {
        int r = mcp_spinlock_trylock(sl);
        if (r == 0) { enter(); leave(); mcp_spinlock_unlock(sl); }
        else if (r != 1) mc_fail("trylock-result", "trylock returned %d", r);
    }
}
static void s_spin(void) {
    sl = mcp_spinlock_create();
    int a = mc_spawn(t_spin, 0), b = mc_spawn(t_spin, 0), c = mc_spawn(t_try, 0);
    mc_join(a); mc_join(b); mc_join(c);
    if (mcp_spinlock_trylock(sl) != 0) mc_fail("spin-stuck", "free spinlock cannot be taken");
    if (mcp_spinlock_trylock(sl) != 1) mc_fail("spin-twice", "held spinlock taken again");
    mcp_spinlock_unlock(sl);
    mcp_spinlock_destroy(sl);
    mc_outcome("entered=%d", entered);
}
static mcp_rwlock_t *rw;
static int maxreaders;
static void rd(void) { if (inside) mc_fail("reader-with-writer", "a reader holds the lock together with a writer"); readers++; if (readers > maxreaders) maxreaders = readers; mc_point(); mc_point(); readers--; }
static void t_r(void *a) { (void)a; for (int i = 0; i < 2; i++) { if (!mcp_rwlock_read_lock(rw)) mc_fail("rd-failed", "read lock failed"); rd(); if (!mcp_rwlock_read_unlock(rw)) mc_fail("rdun-failed", "read unlock failed"); } }
static void t_w(void *a) { (void)a; if (!mcp_rwlock_write_lock(rw)) mc_fail("wr-failed", "write lock failed"); enter(); leave(); if (!mcp_rwlock_write_unlock(rw)) mc_fail("wrun-failed", "write unlock failed"); }
static void t_rwt(void *a) {
    (void)a;
    if (mcp_rwlock_try_write_lock(rw)) { enter(); leave(); mcp_rwlock_write_unlock(rw); mc_outcome("W"); }
    if (mcp_rwlock_try_read_lock(rw)) { rd(); mcp_rwlock_read_unlock(rw); mc_outcome("R"); }
}
static void s_rw(void) {
    rw = mcp_rwlock_create();
    int a = mc_spawn(t_r, 0), b = mc_spawn(t_w, 0), c = mc_spawn(t_rwt, 0), d = mc_spawn(t_r, 0);
    mc_join(a); mc_join(b); mc_join(c); mc_join(d);
    if (!mcp_rwlock_try_write_lock(rw)) mc_fail("rw-stuck", "free lock cannot be taken");
    mcp_rwlock_write_unlock(rw);
    mcp_rwlock_free(rw);
    mc_outcome(" maxreaders=%d", maxreaders);
}
static mcp_cond_t *cv;
static int flag, woke;
static void t_wait(void *a) {
    (void)a;
    mcp_mutex_lock(mx);
    while (!flag) if (mcp_cond_wait(cv, mx)) mc_fail("wait-failed", "condition wait failed");
    inside++;
    if (inside != 1) mc_fail("two-in-section", "waiter woke without the lock");
    mc_point();
    inside--;
    woke++;
    mcp_mutex_unlock(mx);
}
static void s_bcast(void) {
    mx = mcp_mutex_create(); cv = mcp_cond_create();
    int a = mc_spawn(t_wait, 0), b = mc_spawn(t_wait, 0), c = mc_spawn(t_wait, 0);
    mcp_mutex_lock(mx);
    flag = 1;
    mcp_cond_broadcast(cv);
    mcp_mutex_unlock(mx);
    mc_join(a); mc_join(b); mc_join(c);
    if (woke != 3) mc_fail("not-all-woke", "%d of 3 waiters woke", woke);
    mcp_cond_destroy(cv); mcp_mutex_destroy(mx);
}
static int items;
static void t_cons(void *a) { (void)a; mcp_mutex_lock(mx); while (!items) mcp_cond_wait(cv, mx); items--; woke++; mcp_mutex_unlock(mx); }
static void s_signal(void) {
    mx = mcp_mutex_create(); cv = mcp_cond_create();
    int a = mc_spawn(t_cons, 0), b = mc_spawn(t_cons, 0);
    for (int i = 0; i < 2; i++) { mcp_mutex_lock(mx); items++; mcp_cond_signal(cv); mcp_mutex_unlock(mx); }
    mc_join(a); mc_join(b);
    if (woke != 2 || items) mc_fail("lost-signal", "consumed %d left %d", woke, items);
    mcp_cond_destroy(cv); mcp_mutex_destroy(mx);
}
static const unsigned TO[] = {1, 10, 999, 1000, 1001, 2500, 60000, 4000000};
static int result = 99;
static uint64_t spent;
static unsigned to;
static void t_timed(void *a) {
    (void)a;
    mcp_mutex_lock(mx);
    uint64_t t0 = mc_now_ms();
    result = 0;
    while (!flag && result == 0) result = mcp_cond_timedwait(cv, mx, to);
    spent = mc_now_ms() - t0;
    if (inside++) mc_fail("two-in-section", "timed waiter returned without the lock");
    mc_point();
    inside--;
    mcp_mutex_unlock(mx);
}
static void s_timed(void) {
    static const unsigned off[] = {0, 1, 499, 500, 999};
    mx = mcp_mutex_create(); cv = mcp_cond_create();
    to = TO[mc_choose_free(8)];
    mc_advance_ms(off[mc_choose_free(5)]);
    int sig = mc_choose_free(2);
    int a = mc_spawn(t_timed, 0);
    int f = 0;
    if (sig) { mcp_mutex_lock(mx); inside++; f = flag = 1; inside--; mcp_cond_signal(cv); mcp_mutex_unlock(mx); }
    mc_join(a);
    if (result != 0 && result != -2) mc_fail("timed-result", "timed wait returned %d", result);
    if (result == -2 && !flag && f) mc_fail("timed-lost", "flag set but wait timed out");
    if (result == -2 && spent < to) mc_fail("timed-early", "timed wait of %u ms reported a timeout after %llu ms", to, (unsigned long long)spent);
    if (result == -2 && spent > to + 50) mc_fail("timed-late", "timed wait of %u ms ended after %llu ms", to, (unsigned long long)spent);
    if (!sig && result != -2) mc_fail("timed-nosignal", "wait nobody signalled returned %d", result);
    mc_outcome("%d", result);
    mcp_cond_destroy(cv); mcp_mutex_destroy(mx);
}
static void s_zero(void) {
    mx = mcp_mutex_create(); cv = mcp_cond_create();
    mcp_mutex_lock(mx);
    if (mcp_cond_timedwait(cv, mx, 0) != -2) mc_fail("zero-timeout", "zero timeout did not report a timeout");
    mcp_mutex_unlock(mx);
    if (mcp_cond_timedwait(NULL, mx, 5) != -1 || mcp_cond_timedwait(cv, NULL, 5) != -1 || mcp_cond_wait(NULL, mx) != -1 || mcp_cond_signal(NULL) != -1 || mcp_cond_broadcast(NULL) != -1) mc_fail("null-args", "null argument accepted");
    mcp_cond_destroy(cv); mcp_mutex_destroy(mx);
}
/* readers hold the lock together: the first keeps it until the second has it too */
static int have;
static int both(void *a) { (void)a; return have >= 2; }
static void t_share(void *a) {
    if (!a) { if (!mcp_rwlock_read_lock(rw)) mc_fail("rd-failed", "read lock failed"); }
    else { while (!have) mc_yield(); if (a == (void *)1) { if (!mcp_rwlock_read_lock(rw)) mc_fail("rd-failed", "read lock failed"); } else if (!mcp_rwlock_try_read_lock(rw)) mc_fail("try-read", "try-lock for reading fails while only a reader holds the lock"); }
    have++;
    mc_block_until(both, NULL);
    if (mcp_rwlock_try_write_lock(rw)) mc_fail("writer-among-readers", "the lock is taken for writing while readers hold it");
    mc_point();
    have = 9;
    mcp_rwlock_read_unlock(rw);
}
static void s_share(void) {
    have = 0;
    rw = mcp_rwlock_create();
    void *k = (void *)(long)(1 + mc_choose_free(2));
    int t = mc_spawn(t_share, NULL), u = mc_spawn(t_share, k);
    mc_join(t); mc_join(u);
    mcp_rwlock_free(rw);
}
static mcp_tls_key_t *key;
static int destroyed[3];
static void dtor(void *v) { int i = (int)(intptr_t)v - 1; if (i < 0 || i > 2) mc_fail("tls-dtor", "destructor got %p", v); destroyed[i]++; }
static void *t_tls(void *a) {
    if (mcp_tls_get(key)) mc_fail("tls-initial", "fresh thread sees a value");
    mcp_tls_set(key, a);
    mc_point();
    if (mcp_tls_get(key) != a) mc_fail("tls-mixed", "thread sees another thread's value");
    return (void *)((intptr_t)a + 100);
}
static void s_tls(void) {
    key = mcp_tls_key_create(dtor);
    mcp_thread_t t[3];
    for (int i = 0; i < 3; i++) if (mcp_thread_create(&t[i], t_tls, (void *)(intptr_t)(i + 1))) mc_fail("create", "thread creation failed");
    for (int i = 0; i < 3; i++) { void *r = 0; if (mcp_thread_join(t[i], &r) || r != (void *)(intptr_t)(i + 101)) mc_fail("join", "join of thread %d gave %p", i, r); }
    for (int i = 0; i < 3; i++) if (destroyed[i] != 1) mc_fail("tls-dtor-count", "destructor of thread %d ran %d times", i, destroyed[i]);
    mcp_tls_key_destroy(key);
}
static const mc_scenario S[] = {
    {"mutex", 0, s_mutex, 2, 4, MC_NOLEAKTHREADS, "3 threads x 2 sections under one mutex"},
    {"recursive", 0, s_rec, 2, 5, MC_NOLEAKTHREADS, "3 threads with nested locking of a recursive mutex"},
    {"spinlock", 0, s_spin, 2, 3, MC_NOLEAKTHREADS, "2 lockers and a try-locker on a spinlock"},
    {"rwlock", 0, s_rw, 2, 3, MC_NOLEAKTHREADS, "2 readers, a writer and a try-locker"},
    {"share", 0, s_share, 2, 3, MC_NOLEAKTHREADS, "2 readers that hold the lock together, by lock or try-lock"},
    {"broadcast", 0, s_bcast, 2, 4, MC_NOLEAKTHREADS | MC_SPURIOUS, "3 waiters, one broadcast, spurious wake-ups"},
    {"signal", 0, s_signal, 3, 5, MC_NOLEAKTHREADS | MC_SPURIOUS, "2 consumers, 2 signals, spurious wake-ups"},
    {"timed", 0, s_timed, 2, 4, MC_NOLEAKTHREADS | MC_SPURIOUS, "timed wait x 8 limits x 5 clock phases, signalled or not"},
    {"zero", 0, s_zero, 1, 1, 0, "zero time limit and null arguments"},
    {"tls", 0, s_tls, 2, 3, MC_NOLEAKTHREADS, "3 threads with thread-local values, creation and joining"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
