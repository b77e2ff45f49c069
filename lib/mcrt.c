#define _GNU_SOURCE
#include "mcrt.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

/* ------------------------------------------------------------------ real functions */
extern void *__real_malloc(size_t);
extern void __real_free(void *);
extern void *__real_realloc(void *, size_t);
extern int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern int __real_clock_gettime(clockid_t, struct timespec *);
extern int __real_pthread_key_create(pthread_key_t *, void (*)(void *));
extern int __real_pthread_key_delete(pthread_key_t);
extern int __real_pthread_setspecific(pthread_key_t, const void *);
extern void *__real_pthread_getspecific(pthread_key_t);

extern int __real_usleep(unsigned);
static void os_yield(void) { syscall(SYS_sched_yield); }

/* uninstrumented copies of the string functions (the wrapped names come back here) */
extern void *__real_memcpy(void *, const void *, size_t);
extern void *__real_memmove(void *, const void *, size_t);
extern void *__real_memset(void *, int, size_t);
extern int __real_memcmp(const void *, const void *, size_t);
extern size_t __real_strlen(const char *);
extern int __real_strcmp(const char *, const char *);
extern int __real_strncmp(const char *, const char *, size_t);
extern char *__real_strcpy(char *, const char *);
extern char *__real_strncpy(char *, const char *, size_t);
extern char *__real_strchr(const char *, int);
extern char *__real_strcat(char *, const char *);

/* ------------------------------------------------------------------ limits */
#define MAXT 12
#define MAXDEC 6000
#define MAXDEV 96
#define STEP_LIMIT 60000
#define FAIR_LIMIT 400
#define MAXWORK (1 << 21)
#define MAXV 24
#define MAXPC 512
#define MAXOUT 4096

#define HEAP_BASE 0x500000000000ULL
#define HEAP_SIZE (192ULL << 20)
#define STK_BASE 0x510000000000ULL
#define STK_EACH (1ULL << 20)
#define STK_SIZE (STK_EACH * MAXT)
#define REALTIME_OFFSET 1700000000ULL

typedef struct { uint16_t pos; uint8_t alt, n; } dev_t_;
typedef struct { uint16_t ndev, cost; dev_t_ d[MAXDEV]; } item_t;

enum { ST_OK = 0, ST_FAIL = 1, ST_DIVERGED = 2, ST_CRASHED = 3, ST_TOOLONG = 4 };

typedef struct {
    int status;
    char key[96], msg[600];
    int ndec;
    uint8_t nalt[MAXDEC], chosen[MAXDEC];
    uint16_t costs[MAXDEC];
    uint64_t points;
    char outcome[400];
} slot_t;

typedef struct { char key[96], msg[600]; item_t it; int count; int confirmed; } viol_t;

typedef struct {
    volatile int lock;
    /* work stack */
    volatile long top;
    volatile int busy;
    volatile int stop;            /* stop everything */
    volatile int gen_new;         /* new racy sites were found */
    volatile long execs, points, nodes, maxdec, dropped;
    volatile int nviol;
    viol_t viol[MAXV];
    volatile int npc;             /* racy sites in force */
    uint32_t pc[MAXPC];
    volatile int nnewpc;
    uint32_t newpc[MAXPC];
    volatile int nout;
    uint64_t outh[MAXOUT];
    char outs[48][400];
    volatile int error;
    char errmsg[300];
    item_t work[];
} shared_t;

static shared_t *sh;
static slot_t *slot;              /* this worker's slot */
static item_t cur_item;           /* prefix of this execution */
static int replay_verbose;
static int scn_flags;
static double deadline_s;         /* wall limit for the exploration */

/* ------------------------------------------------------------------ per execution state */
enum { P_NONE, P_RUN, P_LOCK, P_RD, P_WR, P_JOIN, P_WAIT, P_SLEEP, P_PRED, P_DONE };

typedef struct syncobj {
    uintptr_t addr;
    uint8_t kind;                 /* 1 mutex 2 cond 3 rwlock 4 atomic 5 once */
    uint8_t recursive, destroyed, errorcheck;
    int owner;                    /* tid+1 */
    int depth;
    int readers;
    uint8_t rcount[MAXT];
    uint32_t rvc[MAXT];           /* what readers did: ordered before later writers only */
    int clock;
    uint32_t vc[MAXT];
} syncobj;

typedef struct {
    int pend;
    syncobj *obj, *cond;
    int jointid;
    int woken;                    /* 1 signalled 2 timeout 3 spurious */
    uint64_t deadline;            /* ns, 0 none */
    uint64_t waitseq;
    int (*pred)(void *);
    void *predarg;
    volatile int go;
    void *(*fn)(void *);
    void *arg, *ret;
    pthread_t pt;
    int detached, joined;
    uint32_t vc[MAXT];
} thr_t;

static thr_t T[MAXT];
static int nthr;
static int active;                /* scheduling on */
static int curtid;
static uint64_t now_ns = 1000ULL * 1000000000ULL;
static uint64_t waitseq;
static int consec;
static uint64_t npoints;
static item_t *prefix;
static int pre_i;
static __thread int my_tid = -1;

#define NSYNC 8192
static syncobj *synctab;

static int run_ok(void) { return active && my_tid >= 0; }

/* ------------------------------------------------------------------ failure */
static void slot_finish(int status) {
    slot->status = status;
    slot->points = npoints;
    _exit(0);
}
static void vtrace(const char *fmt, va_list ap) {
    char b[700];
    int n = snprintf(b, sizeof b, "  [T%d] ", my_tid);
    n += vsnprintf(b + n, sizeof b - n, fmt, ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    (void)!write(1, b, n);
}
void mc_trace(const char *fmt, ...) {
    if (!replay_verbose) return;
    va_list ap; va_start(ap, fmt); vtrace(fmt, ap); va_end(ap);
}
void mc_fail(const char *key, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (!slot) { vfprintf(stderr, fmt, ap); fprintf(stderr, " (%s)\n", key); _exit(3); }
    snprintf(slot->key, sizeof slot->key, "%s", key);
    vsnprintf(slot->msg, sizeof slot->msg, fmt, ap);
    va_end(ap);
    slot_finish(ST_FAIL);
    abort();
}
void mc_outcome(const char *fmt, ...) {
    if (!slot) return;
    size_t l = __real_strlen(slot->outcome);
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot->outcome + l, sizeof slot->outcome - l, fmt, ap);
    va_end(ap);
}
static void onsig(int s, siginfo_t *si, void *uc_) {
    ucontext_t *uc = uc_;
    if (slot) {
        unsigned long pc = uc->uc_mcontext.gregs[REG_RIP];
        snprintf(slot->key, sizeof slot->key, "crash-sig%d@%#lx", s, pc);
        snprintf(slot->msg, sizeof slot->msg, "signal %d (%s) at pc=%#lx addr=%p", s,
                 s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic fault" : s == SIGABRT ? "abort" : "fault", pc, si->si_addr);
        slot->status = ST_CRASHED;
        slot->points = npoints;
    }
    _exit(0);
}

/* ------------------------------------------------------------------ futex hand-off */
static void fwait(volatile int *p) {
    while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) {
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
    }
    __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void fwake(volatile int *p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}

/* ------------------------------------------------------------------ choices */
static int choose_rec(int n, uint16_t costmask) {
    if (n <= 1) return 0;
    int pos = slot->ndec;
    if (pos >= MAXDEC) {
        snprintf(slot->key, sizeof slot->key, "no-progress");
        snprintf(slot->msg, sizeof slot->msg, "execution does not end: more than %d scheduling decisions", MAXDEC);
        slot_finish(ST_FAIL);
    }
    int c = 0;
    if (pre_i < prefix->ndev && prefix->d[pre_i].pos == pos) {
        c = prefix->d[pre_i].alt;
        if (prefix->d[pre_i].n != n) {
            snprintf(slot->msg, sizeof slot->msg, "diverged at decision %d: %d alternatives, expected %d", pos, n, prefix->d[pre_i].n);
            slot_finish(ST_DIVERGED);
        }
        pre_i++;
    }
    slot->nalt[pos] = n;
    slot->chosen[pos] = c;
    slot->costs[pos] = costmask;
    slot->ndec = pos + 1;
    return c;
}
int mc_choose(int n) {
    if (!slot || n <= 1) return 0;
    int c = choose_rec(n, (uint16_t)(((1u << n) - 1) & ~1u));
    mc_trace("environment answer %d of %d", c, n);
    return c;
}
int mc_choose_free(int n) {
    if (!slot || n <= 1) return 0;
    int c = choose_rec(n, 0);
    mc_trace("environment answer %d of %d (free)", c, n);
    return c;
}

/* ------------------------------------------------------------------ scheduler */
static int t_enabled(int t) {
    thr_t *x = &T[t];
    switch (x->pend) {
    case P_RUN: return 1;
    case P_LOCK: return x->obj->owner == 0 || (x->obj->owner == t + 1 && x->obj->recursive);
    case P_RD: return x->obj->owner == 0;
    case P_WR: return x->obj->owner == 0 && x->obj->readers == 0;
    case P_JOIN: return T[x->jointid].pend == P_DONE;
    case P_SLEEP: return now_ns >= x->deadline;
    case P_PRED: return x->woken == 2 || x->pred(x->predarg);
    default: return 0;
    }
}
static uint64_t earliest(void) {
    uint64_t d = 0;
    for (int i = 0; i < nthr; i++) {
        if ((T[i].pend == P_WAIT || T[i].pend == P_SLEEP || (T[i].pend == P_PRED && T[i].woken != 2)) && T[i].deadline && T[i].deadline > now_ns)
            if (!d || T[i].deadline < d) d = T[i].deadline;
    }
    return d;
}
static void expire(void) {
    for (int i = 0; i < nthr; i++) {
        if (T[i].pend == P_WAIT && T[i].deadline && T[i].deadline <= now_ns) {
            T[i].pend = P_LOCK;
            T[i].woken = 2;
            T[i].cond = NULL;
        } else if (T[i].pend == P_PRED && T[i].deadline && T[i].deadline <= now_ns) {
            T[i].woken = 2;
        }
    }
}
static const char *pname(int p) {
    static const char *n[] = {"none", "run", "lock", "rdlock", "wrlock", "join", "wait", "sleep", "pred", "done"};
    return n[p];
}
static void deadlock(void) {
    char b[400];
    int n = 0;
    b[0] = 0;
    for (int i = 0; i < nthr; i++)
        if (T[i].pend != P_DONE)
            n += snprintf(b + n, sizeof b - n, " T%d:%s", i, pname(T[i].pend));
    mc_fail("deadlock", "no thread can run:%s", b);
}
/* mode: 0 normal, 1 yielding, 2 current thread ended */
static int atomic_depth[MAXT];
static void schedule(int mode) {
    int me = my_tid;
    /* inside an atomic section no other thread runs unless this one cannot continue */
    if (mode == 0 && atomic_depth[me] && t_enabled(me)) return;
    npoints++;
    if (npoints > STEP_LIMIT) mc_fail("no-progress", "execution does not end: more than %d steps", STEP_LIMIT);
    int fresh = 0;  /* after the clock moved nobody is preferred */
    if (mode == 1) now_ns += 20000, expire();
    for (;;) {
        int alt[MAXT * 2 + 2], na = 0;
        uint16_t cm = 0;
        int me_en = mode != 2 && t_enabled(me);
        int prefer = me_en && mode == 0 && !fresh;
        if (prefer && consec > FAIR_LIMIT) {
            for (int i = 0; i < nthr; i++)
                if (i != me && t_enabled(i)) { prefer = 0; mode = 1; break; }
        }
        if (prefer) alt[na++] = me;
        for (int k = 1; k < nthr; k++) {
            int i = (me + k) % nthr;
            if (i != me && t_enabled(i)) {
                if (prefer || ((mode == 1 || (scn_flags & MC_DELAY)) && na > 0)) cm |= 1u << na;
                alt[na++] = i;
            }
        }
        if (!prefer && me_en && (fresh || na == 0)) alt[na++] = me;
        int nreal = na;
        uint64_t e = earliest();
        if (e) {
            if (nreal) cm |= 1u << na;
            alt[na++] = 100;
        }
        if (scn_flags & MC_SPURIOUS)
            for (int i = 0; i < nthr && na < 15; i++)
                if (T[i].pend == P_WAIT) { cm |= 1u << na; alt[na++] = 200 + i; }
        if (nreal == 0 && !e) {
            if (scn_flags & MC_DEADLOCK_OK) slot_finish(ST_OK);
            deadlock();
        }
        if (na > 15) na = 15;
        int c = choose_rec(na, cm);
        int a = alt[c];
        if (a == 100) {
            now_ns = e;
            expire();
            mc_trace("clock advances to %llu ms", (unsigned long long)(now_ns / 1000000));
            fresh = 1;
            continue;
        }
        if (a >= 200) {
            T[a - 200].pend = P_LOCK;
            T[a - 200].woken = 3;
            T[a - 200].cond = NULL;
            mc_trace("spurious wake-up of T%d", a - 200);
            fresh = 1;
            continue;
        }
        if (a == me && mode != 2) { if (mode == 1) consec = 0; else consec++; return; }
        consec = 0;
        curtid = a;
        fwake(&T[a].go);
        if (mode == 2) return;
        fwait(&T[me].go);
        curtid = me;
        return;
    }
}
static void point(const char *what, const void *obj, const void *pc) {
    if (!run_ok()) return;
    mc_trace("%s %p pc=%p", what, obj, pc);
    T[my_tid].pend = P_RUN;
    schedule(0);
}
void mc_point(void) { point("point", 0, 0); }
void mc_atomic_begin(void) { if (run_ok()) { if (!atomic_depth[my_tid]) point("atomic section", 0, 0); atomic_depth[my_tid]++; } }
void mc_atomic_end(void) { if (run_ok() && atomic_depth[my_tid]) atomic_depth[my_tid]--; }
void mc_yield(void) {
    if (!run_ok()) return;
    T[my_tid].pend = P_RUN;
    mc_trace("yield");
    schedule(1);
}
int mc_self(void) { return my_tid; }
int mc_active(void) { return run_ok(); }
uint64_t mc_now_ms(void) { return now_ns / 1000000; }
void mc_advance_ms(uint64_t ms) { now_ns += ms * 1000000ULL; expire(); }
void mc_block_until(int (*pred)(void *), void *arg) {
    if (!run_ok()) return;
    T[my_tid].pred = pred;
    T[my_tid].predarg = arg;
    T[my_tid].deadline = 0;
    T[my_tid].woken = 0;
    T[my_tid].pend = P_PRED;
    schedule(0);
    T[my_tid].pend = P_RUN;
}
int mc_block_until_timed(int (*pred)(void *), void *arg, uint64_t ms) {
    if (!run_ok()) return 0;
    T[my_tid].pred = pred;
    T[my_tid].predarg = arg;
    T[my_tid].deadline = now_ns + ms * 1000000ULL;
    T[my_tid].woken = 0;
    T[my_tid].pend = P_PRED;
    schedule(0);
    T[my_tid].pend = P_RUN;
    T[my_tid].deadline = 0;
    return pred(arg) ? 0 : 1;
}

/* ------------------------------------------------------------------ vector clocks */
static void vc_join(uint32_t *a, const uint32_t *b) { for (int i = 0; i < MAXT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static void rel(syncobj *o) { if (my_tid < 0) return; vc_join(o->vc, T[my_tid].vc); T[my_tid].vc[my_tid]++; }
static void acq(syncobj *o) { if (my_tid < 0) return; vc_join(T[my_tid].vc, o->vc); }

static syncobj *so(const void *p, int kind, int create) {
    uintptr_t a = (uintptr_t)p;
    unsigned h = (unsigned)((a >> 3) * 2654435761u) % NSYNC;
    for (int i = 0; i < NSYNC; i++) {
        syncobj *o = &synctab[(h + i) % NSYNC];
        if (o->addr == a && o->kind == kind) return o;
        if (!o->addr) {
            if (!create) return NULL;
            o->addr = a;
            o->kind = kind;
            return o;
        }
    }
    mc_fail("mcrt-internal", "sync table full");
}

/* ------------------------------------------------------------------ memory */
static uint8_t *valid;             /* heap validity, one byte per 8 */
static uint64_t heap_top;
static size_t live_blocks;
typedef struct { uint32_t wclk, wpc; uint32_t wtid; uint32_t rclk[MAXT], rpc[MAXT]; } cell_t;
static cell_t *cells[3];
static uintptr_t rbase[3], rend[3];
extern char __data_start, _end;

typedef struct { uint64_t size; uint32_t state, magic; } bhdr;
#define BMAGIC 0x5ca1ab1e

static int in_heap(uintptr_t a) { return a >= HEAP_BASE && a < HEAP_BASE + HEAP_SIZE; }
static int region(uintptr_t a) {
    for (int i = 0; i < 3; i++) if (a >= rbase[i] && a < rend[i]) return i;
    return -1;
}
static void memfail(const char *kind, uintptr_t a, size_t n, int w, const void *pc) {
    char k[96];
    snprintf(k, sizeof k, "%s@%p", kind, pc);
    mc_fail(k, "%s: %s of %zu bytes at %p, pc=%p", kind, w ? "write" : "read", n, (void *)a, pc);
}
static void heap_check(uintptr_t a, size_t n, int w, const void *pc) {
    if (!in_heap(a) || !n) return;
    uint64_t off = a - HEAP_BASE;
    uint64_t g = off >> 3, ge = (off + n - 1) >> 3;
    for (; g <= ge; g++) {
        uint8_t v = valid[g];
        if (v == 8) continue;
        if (v == 0xFA && !w) continue;
        if (v == 0xFD) memfail("use-after-free", a, n, w, pc);
        if (v >= 1 && v < 8) {
            uint64_t endin = (off + n) - (g << 3);
            if (endin <= v) continue;
        }
        memfail("heap-overflow", a, n, w, pc);
    }
}
int mc_ptr_live(const void *p, size_t n) {
    uintptr_t a = (uintptr_t)p;
    if (!in_heap(a)) return 1;
    for (size_t i = 0; i < n; i++) {
        uint64_t off = a + i - HEAP_BASE;
        uint8_t v = valid[off >> 3];
        if (v == 0 || v > 8 || (off & 7) >= v) return 0;
    }
    return 1;
}
static int pc_racy(uint32_t pc) {
    int n = sh->npc;
    for (int i = 0; i < n; i++) if (sh->pc[i] == pc) return 1;
    return 0;
}
static void add_newpc(uint32_t pc) {
    if (pc == 1 || pc_racy(pc)) return;
    while (__sync_lock_test_and_set(&sh->lock, 1)) os_yield();
    int i;
    for (i = 0; i < sh->nnewpc; i++) if (sh->newpc[i] == pc) break;
    if (i == sh->nnewpc && sh->nnewpc < MAXPC) { sh->newpc[sh->nnewpc] = pc; sh->nnewpc++; sh->gen_new = 1; }
    __sync_lock_release(&sh->lock);
}
static void race(uint32_t pc1, uint32_t pc2) { add_newpc(pc1); add_newpc(pc2); }

static void access_(uintptr_t a, size_t n, int w, uint32_t pc) {
    int t = my_tid;
    if (t < 0 || !active || nthr < 2) return;
    int r = region(a);
    if (r < 0) return;
    uint64_t g = (a - rbase[r]) >> 3, ge = (a + n - 1 - rbase[r]) >> 3;
    uint32_t *vc = T[t].vc;
    for (; g <= ge; g++) {
        cell_t *c = &cells[r][g];
        if (c->wtid && (int)c->wtid - 1 != t && c->wclk > vc[c->wtid - 1]) race(c->wpc, pc);
        if (w) {
            for (int u = 0; u < nthr; u++)
                if (u != t && c->rclk[u] > vc[u]) race(c->rpc[u], pc);
            c->wtid = t + 1;
            c->wclk = vc[t];
            c->wpc = pc;
        } else {
            c->rclk[t] = vc[t];
            c->rpc[t] = pc;
        }
    }
}
static void plain(const void *p, size_t n, int w, const void *pc) {
    heap_check((uintptr_t)p, n, w, pc);
    if (!run_ok() || nthr < 2) return;
    if (sh->npc && pc_racy((uint32_t)(uintptr_t)pc)) {
        point(w ? "racy write" : "racy read", p, pc);
        heap_check((uintptr_t)p, n, w, pc);
    }
    access_((uintptr_t)p, n, w, (uint32_t)(uintptr_t)pc);
}
#define RA __builtin_return_address(0)

#define RW(N) \
    void __tsan_read##N(void *p) { plain(p, N, 0, RA); } \
    void __tsan_write##N(void *p) { plain(p, N, 1, RA); } \
    void __tsan_unaligned_read##N(void *p) { plain(p, N, 0, RA); } \
    void __tsan_unaligned_write##N(void *p) { plain(p, N, 1, RA); } \
    void __tsan_read_write##N(void *p) { plain(p, N, 0, RA); plain(p, N, 1, RA); } \
    void __tsan_volatile_read##N(void *p) { vol(p, N, 0, RA); } \
    void __tsan_volatile_write##N(void *p) { vol(p, N, 1, RA); } \
    void __tsan_unaligned_volatile_read##N(void *p) { vol(p, N, 0, RA); } \
    void __tsan_unaligned_volatile_write##N(void *p) { vol(p, N, 1, RA); }
static void vol(void *p, size_t n, int w, const void *pc) {
    heap_check((uintptr_t)p, n, w, pc);
    if (!run_ok()) return;
    point(w ? "volatile write" : "volatile read", p, pc);
    heap_check((uintptr_t)p, n, w, pc);
    if (nthr < 2) return;          /* nothing to order yet */
    syncobj *o = so(p, 4, 1);
    if (w) rel(o); else acq(o);
    access_((uintptr_t)p, n, w, 1);
}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, unsigned long n) { if (n) plain(p, n, 0, RA); }
void __tsan_write_range(void *p, unsigned long n) { if (n) plain(p, n, 1, RA); }
void __tsan_vptr_update(void *p, void *q) { (void)p; (void)q; }
void __tsan_vptr_read(void *p) { (void)p; }

static void atom(const volatile void *p, size_t n, int w, int rd, const void *pc) {
    heap_check((uintptr_t)p, n, w, pc);
    if (!run_ok()) return;
    point("atomic", (const void *)p, pc);
    heap_check((uintptr_t)p, n, w, pc);
    syncobj *o = so((const void *)p, 4, 1);
    if (rd) acq(o);
    if (w) rel(o);
    access_((uintptr_t)p, n, w, 1);
}
#define ATOM(B, TY) \
    TY __tsan_atomic##B##_load(const volatile TY *p, int mo) { (void)mo; atom(p, sizeof *p, 0, 1, RA); return *p; } \
    void __tsan_atomic##B##_store(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 0, RA); *p = v; } \
    TY __tsan_atomic##B##_exchange(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = v; return o; } \
    TY __tsan_atomic##B##_fetch_add(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = o + v; return o; } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = o - v; return o; } \
    TY __tsan_atomic##B##_fetch_and(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = o & v; return o; } \
    TY __tsan_atomic##B##_fetch_or(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = o | v; return o; } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = o ^ v; return o; } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY *p, TY v, int mo) { (void)mo; atom(p, sizeof *p, 1, 1, RA); TY o = *p; *p = ~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int mo, int f) { (void)mo; (void)f; atom(p, sizeof *p, 1, 1, RA); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int mo, int f) { (void)mo; (void)f; atom(p, sizeof *p, 1, 1, RA); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY *p, TY e, TY v, int mo, int f) { (void)mo; (void)f; atom(p, sizeof *p, 1, 1, RA); TY o = *p; if (o == e) *p = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ------------------------------------------------------------------ heap */
static void *heap_alloc(size_t n, size_t align) {
    if (align < 16) align = 16;
    if (n > HEAP_SIZE / 2) return NULL;
    uint64_t p = heap_top + 32;
    p = (p + align - 1) & ~(uint64_t)(align - 1);
    uint64_t e = p + (n ? n : 1);
    if (e + 64 > HEAP_BASE + HEAP_SIZE) mc_fail("mcrt-internal", "heap exhausted");
    heap_top = (e + 15) & ~15ULL;
    heap_top += 16;
    uint64_t off = p - HEAP_BASE;
    valid[(off >> 3) - 3] = 0xFA; valid[(off >> 3) - 2] = 0xFA; valid[(off >> 3) - 1] = 0xFA;
    uint64_t full = n >> 3;
    if (full) __real_memset(valid + (off >> 3), 8, full);
    if (n & 7) valid[(off >> 3) + full] = n & 7;
    bhdr *h = (bhdr *)(p - 16);
    h->size = n;
    h->state = 1;
    h->magic = BMAGIC;
    live_blocks++;
    return (void *)p;
}
static void heap_free(void *p, const void *pc) {
    if (!p) return;
    uintptr_t a = (uintptr_t)p;
    if (!in_heap(a)) { __real_free(p); return; }
    bhdr *h = (bhdr *)(a - 16);
    if ((a & 15) || a - 32 < HEAP_BASE || h->magic != BMAGIC) memfail("invalid-free", a, 0, 1, pc);
    if (h->state == 2) memfail("double-free", a, h->size, 1, pc);
    if (run_ok() && nthr > 1) {
        if (sh->npc && pc_racy((uint32_t)(uintptr_t)pc)) {
            point("racy free", p, pc);
            if (h->state == 2) memfail("double-free", a, h->size, 1, pc);
        }
        size_t lim = h->size > 4096 ? 4096 : h->size;
        if (lim) access_(a, lim, 1, (uint32_t)(uintptr_t)pc);
    }
    h->state = 2;
    live_blocks--;
    uint64_t off = a - HEAP_BASE;
    __real_memset(valid + (off >> 3), 0xFD, (h->size + 7) >> 3);
}
size_t mc_live_blocks(void) { return live_blocks; }
void *__wrap_malloc(size_t n) { void *p = heap_alloc(n, 16); if (p && n) __real_memset(p, 0xA5, n > 65536 ? 65536 : n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) return NULL; return heap_alloc(a * b, 16); }
void __wrap_free(void *p) { heap_free(p, RA); }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!in_heap((uintptr_t)p)) return __real_realloc(p, n);
    if (n == 0) { heap_free(p, RA); return NULL; }
    bhdr *h = (bhdr *)((uintptr_t)p - 16);
    if (h->magic != BMAGIC) memfail("invalid-realloc", (uintptr_t)p, n, 1, RA);
    if (h->state == 2) memfail("use-after-free", (uintptr_t)p, n, 1, RA);
    void *q = __wrap_malloc(n);
    if (!q) return NULL;
    __real_memcpy(q, p, h->size < n ? h->size : n);
    heap_free(p, RA);
    return q;
}
int __wrap_posix_memalign(void **out, size_t al, size_t n) { void *p = heap_alloc(n, al); if (!p) return ENOMEM; *out = p; return 0; }
void *__wrap_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al); }
void *__wrap_memalign(size_t al, size_t n) { return heap_alloc(n, al); }
char *__wrap_strdup(const char *s) {
    size_t n = __real_strlen(s) + 1;
    plain(s, n, 0, RA);
    char *p = heap_alloc(n, 16);
    if (p) __real_memcpy(p, s, n);
    return p;
}
char *__wrap_strndup(const char *s, size_t m) {
    size_t n = strnlen(s, m);
    if (n) plain(s, n, 0, RA);
    char *p = heap_alloc(n + 1, 16);
    if (p) { __real_memcpy(p, s, n); p[n] = 0; }
    return p;
}
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { plain(s, n, 0, RA); plain(d, n, 1, RA); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { plain(s, n, 0, RA); plain(d, n, 1, RA); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) plain(d, n, 1, RA); return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { plain(a, n, 0, RA); plain(b, n, 0, RA); } return __real_memcmp(a, b, n); }
static void strchk(const char *s, const void *pc) {
    uintptr_t a = (uintptr_t)s;
    if (in_heap(a)) heap_check(a, 1, 0, pc);
    plain(s, __real_strlen(s) + 1, 0, pc);
}
size_t __wrap_strlen(const char *s) { strchk(s, RA); return __real_strlen(s); }
int __wrap_strcmp(const char *a, const char *b) { strchk(a, RA); strchk(b, RA); return __real_strcmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { if (n) { plain(a, strnlen(a, n) ? strnlen(a, n) : 1, 0, RA); plain(b, strnlen(b, n) ? strnlen(b, n) : 1, 0, RA); } return __real_strncmp(a, b, n); }
char *__wrap_strcpy(char *d, const char *s) { strchk(s, RA); plain(d, __real_strlen(s) + 1, 1, RA); return __real_strcpy(d, s); }
char *__wrap_strncpy(char *d, const char *s, size_t n) { if (n) plain(d, n, 1, RA); return __real_strncpy(d, s, n); }
char *__wrap_strcat(char *d, const char *s) { strchk(d, RA); strchk(s, RA); plain(d + __real_strlen(d), __real_strlen(s) + 1, 1, RA); return __real_strcat(d, s); }
char *__wrap_strchr(const char *s, int c) { strchk(s, RA); return __real_strchr(s, c); }

/* ------------------------------------------------------------------ mutex */
static void objcheck(const void *p, size_t n, const char *what, const void *pc) {
    (void)what;
    heap_check((uintptr_t)p, n, 0, pc);
}
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    objcheck(m, sizeof *m, "mutex_init", RA);
    syncobj *o = so(m, 1, 1);
    o->owner = 0; o->depth = 0; o->destroyed = 0; o->recursive = 0;
    if (a) { int k = 0; pthread_mutexattr_gettype(a, &k); o->recursive = k == PTHREAD_MUTEX_RECURSIVE; }
    return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) {
    objcheck(m, sizeof *m, "mutex_destroy", RA);
    syncobj *o = so(m, 1, 1);
    point("mutex_destroy", m, RA);
    if (o->owner) { char k[64]; snprintf(k, sizeof k, "destroy-locked-mutex@%p", RA); mc_fail(k, "mutex destroyed while locked by T%d, pc=%p", o->owner - 1, RA); }
    o->destroyed = 1;
    return 0;
}
static void mutex_acquire(syncobj *o) { o->owner = my_tid + 1; o->depth++; acq(o); }
static void lock_check(syncobj *o, const void *m, const void *pc) {
    objcheck(m, sizeof(pthread_mutex_t), "lock", pc);
    if (o->destroyed) { char k[64]; snprintf(k, sizeof k, "use-destroyed-lock@%p", pc); mc_fail(k, "lock used after it was destroyed, pc=%p", pc); }
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    syncobj *o = so(m, 1, 1);
    lock_check(o, m, RA);
    if (!run_ok()) { o->owner = my_tid + 1; o->depth++; if (!o->owner) o->owner = 99; return 0; }
    mc_trace("lock %p pc=%p", (void *)m, RA);
    if (o->owner == my_tid + 1 && !o->recursive) mc_fail("self-deadlock", "thread T%d locks a mutex it holds, pc=%p", my_tid, RA);
    T[my_tid].pend = P_LOCK;
    T[my_tid].obj = o;
    schedule(0);
    T[my_tid].pend = P_RUN;
    lock_check(o, m, RA);
    mutex_acquire(o);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    syncobj *o = so(m, 1, 1);
    lock_check(o, m, RA);
    if (!run_ok()) { o->owner = 99; o->depth++; return 0; }
    point("trylock", m, RA);
    if (o->owner && !(o->recursive && o->owner == my_tid + 1)) return EBUSY;
    mutex_acquire(o);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    syncobj *o = so(m, 1, 1);
    objcheck(m, sizeof *m, "unlock", RA);
    if (run_ok() && o->owner != my_tid + 1) {
        char k[64];
        snprintf(k, sizeof k, "unlock-not-owner@%p", RA);
        mc_fail(k, "T%d unlocks a mutex it does not hold, pc=%p", my_tid, RA);
    }
    mc_trace("unlock %p pc=%p", (void *)m, RA);
    rel(o);
    if (--o->depth == 0) o->owner = 0;
    return 0;
}

/* ------------------------------------------------------------------ condition variables */
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
    objcheck(c, sizeof *c, "cond_init", RA);
    syncobj *o = so(c, 2, 1);
    o->destroyed = 0;
    o->clock = CLOCK_REALTIME;
    if (a) { clockid_t k; if (pthread_condattr_getclock(a, &k) == 0) o->clock = k; }
    return 0;
}
int __wrap_pthread_cond_destroy(pthread_cond_t *c) {
    objcheck(c, sizeof *c, "cond_destroy", RA);
    syncobj *o = so(c, 2, 1);
    point("cond_destroy", c, RA);
    for (int i = 0; i < nthr; i++)
        if (T[i].pend == P_WAIT && T[i].cond == o) { char k[64]; snprintf(k, sizeof k, "destroy-cond-waiters@%p", RA); mc_fail(k, "condition variable destroyed while T%d waits on it, pc=%p", i, RA); }
    o->destroyed = 1;
    return 0;
}
static int cond_wait_(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl, const void *pc) {
    syncobj *co = so(c, 2, 1), *mo = so(m, 1, 1);
    objcheck(c, sizeof *c, "cond_wait", pc);
    if (co->destroyed) mc_fail("use-destroyed-cond", "wait on destroyed condition variable, pc=%p", pc);
    if (!run_ok()) { return dl ? ETIMEDOUT : 0; }
    point(dl ? "cond_timedwait" : "cond_wait", c, pc);
    if (mo->owner != my_tid + 1) mc_fail("cond-wait-unlocked", "condition wait without holding the mutex, pc=%p", pc);
    thr_t *t = &T[my_tid];
    int depth = mo->depth;
    rel(mo);
    mo->depth = 0;
    mo->owner = 0;
    if (dl && dl <= now_ns) {
        t->pend = P_LOCK;
        t->woken = 2;
    } else {
        t->pend = P_WAIT;
        t->woken = 0;
    }
    t->cond = co;
    t->obj = mo;
    t->deadline = dl;
    t->waitseq = ++waitseq;
    schedule(0);
    t->pend = P_RUN;
    t->deadline = 0;
    objcheck(c, sizeof *c, "cond_wait", pc);
    objcheck(m, sizeof *m, "cond_wait", pc);
    if (mo->destroyed) mc_fail("use-destroyed-lock", "mutex destroyed under a condition wait, pc=%p", pc);
    mo->owner = my_tid + 1;
    mo->depth = depth;
    acq(mo);
    if (t->woken == 1) acq(co);
    mc_trace("wait on %p ends: %s", (void *)c, t->woken == 1 ? "signalled" : t->woken == 2 ? "timeout" : "spurious");
    return t->woken == 2 ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait_(c, m, 0, RA); }
static uint64_t abs_to_ns(const struct timespec *ts, int clock) {
    int64_t s = ts->tv_sec;
    if (clock == CLOCK_REALTIME) s -= REALTIME_OFFSET;
    if (s < 0) return 1;
    return (uint64_t)s * 1000000000ULL + ts->tv_nsec;
}
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    syncobj *co = so(c, 2, 1);
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    return cond_wait_(c, m, abs_to_ns(ts, co->clock), RA);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
    if (ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000) return EINVAL;
    return cond_wait_(c, m, abs_to_ns(ts, k), RA);
}
static int waiters(syncobj *co, int *w) {
    int n = 0;
    for (int i = 0; i < nthr; i++) if (T[i].pend == P_WAIT && T[i].cond == co) w[n++] = i;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (T[w[j]].waitseq < T[w[i]].waitseq) { int x = w[i]; w[i] = w[j]; w[j] = x; }
    return n;
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
    syncobj *co = so(c, 2, 1);
    objcheck(c, sizeof *c, "signal", RA);
    if (!run_ok()) return 0;
    point("signal", c, RA);
    objcheck(c, sizeof *c, "signal", RA);
    if (co->destroyed) mc_fail("use-destroyed-cond", "signal of destroyed condition variable, pc=%p", RA);
    rel(co);
    int w[MAXT], n = waiters(co, w);
    if (n) {
        int k = w[choose_rec(n, 0)];
        T[k].pend = P_LOCK;
        T[k].woken = 1;
        T[k].cond = NULL;
        mc_trace("signal wakes T%d", k);
    }
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
    syncobj *co = so(c, 2, 1);
    objcheck(c, sizeof *c, "broadcast", RA);
    if (!run_ok()) return 0;
    point("broadcast", c, RA);
    objcheck(c, sizeof *c, "broadcast", RA);
    if (co->destroyed) mc_fail("use-destroyed-cond", "broadcast on destroyed condition variable, pc=%p", RA);
    rel(co);
    int w[MAXT], n = waiters(co, w);
    for (int i = 0; i < n; i++) { T[w[i]].pend = P_LOCK; T[w[i]].woken = 1; T[w[i]].cond = NULL; }
    return 0;
}

/* ------------------------------------------------------------------ rwlock */
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) {
    (void)a;
    objcheck(l, sizeof *l, "rwlock_init", RA);
    syncobj *o = so(l, 3, 1);
    o->owner = o->readers = o->destroyed = 0;
    __real_memset(o->rcount, 0, sizeof o->rcount);
    return 0;
}
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) {
    objcheck(l, sizeof *l, "rwlock_destroy", RA);
    syncobj *o = so(l, 3, 1);
    point("rwlock_destroy", l, RA);
    if (o->owner || o->readers) { char k[64]; snprintf(k, sizeof k, "destroy-locked-rwlock@%p", RA); mc_fail(k, "reader-writer lock destroyed while held, pc=%p", RA); }
    o->destroyed = 1;
    return 0;
}
static int rw_take(pthread_rwlock_t *l, int w, int try_, const void *pc) {
    syncobj *o = so(l, 3, 1);
    objcheck(l, sizeof *l, "rwlock", pc);
    if (o->destroyed) { char k[64]; snprintf(k, sizeof k, "use-destroyed-lock@%p", pc); mc_fail(k, "lock used after it was destroyed, pc=%p", pc); }
    if (!run_ok()) { if (w) o->owner = 99; else o->readers++; return 0; }
    mc_trace("%s%s %p pc=%p", try_ ? "try" : "", w ? "wrlock" : "rdlock", (void *)l, pc);
    thr_t *t = &T[my_tid];
    t->obj = o;
    if (!try_) {
        if (o->owner == my_tid + 1 || (w && o->rcount[my_tid])) mc_fail("self-deadlock", "T%d takes a reader-writer lock it holds, pc=%p", my_tid, pc);
        t->pend = w ? P_WR : P_RD;
        schedule(0);
        t->pend = P_RUN;
    } else {
        t->pend = P_RUN;
        schedule(0);
        if (o->owner || (w && o->readers)) return EBUSY;
    }
    objcheck(l, sizeof *l, "rwlock", pc);
    if (o->destroyed) { char k[64]; snprintf(k, sizeof k, "use-destroyed-lock@%p", pc); mc_fail(k, "lock used after it was destroyed, pc=%p", pc); }
    if (w) o->owner = my_tid + 1; else { o->readers++; o->rcount[my_tid]++; }
    acq(o);
    if (w) vc_join(T[my_tid].vc, o->rvc);
    return 0;
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw_take(l, 0, 0, RA); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw_take(l, 1, 0, RA); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw_take(l, 0, 1, RA); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw_take(l, 1, 1, RA); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) {
    syncobj *o = so(l, 3, 1);
    objcheck(l, sizeof *l, "rwunlock", RA);
    if (!run_ok()) { if (o->owner) o->owner = 0; else o->readers--; return 0; }
    mc_trace("rwunlock %p pc=%p", (void *)l, RA);
    if (o->owner == my_tid + 1) { rel(o); o->owner = 0; }
    else if (o->rcount[my_tid]) {
        /* a later writer is ordered after the readers, other readers are not */
        vc_join(o->rvc, T[my_tid].vc);
        T[my_tid].vc[my_tid]++;
        o->rcount[my_tid]--;
        o->readers--;
    } else { char k[64]; snprintf(k, sizeof k, "unlock-not-owner@%p", RA); mc_fail(k, "T%d unlocks a reader-writer lock it does not hold, pc=%p", my_tid, RA); }
    return 0;
}

/* ------------------------------------------------------------------ once, keys */
static int once_done(void *p) { return ((syncobj *)p)->owner == 2; }
int __wrap_pthread_once(pthread_once_t *o_, void (*f)(void)) {
    syncobj *o = so(o_, 5, 1);
    if (run_ok()) point("once", o_, RA);
    if (o->owner == 2) { acq(o); return 0; }
    if (o->owner == 1) { mc_block_until(once_done, o); acq(o); return 0; }
    o->owner = 1;
    f();
    rel(o);
    o->owner = 2;
    return 0;
}
static struct { pthread_key_t k; void (*d)(void *); } keys[32];
static int nkeys;
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
    int r = __real_pthread_key_create(k, NULL);
    if (r == 0 && nkeys < 32) { keys[nkeys].k = *k; keys[nkeys].d = d; nkeys++; }
    return r;
}
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { return __real_pthread_setspecific(k, v); }
void *__wrap_pthread_getspecific(pthread_key_t k) { return __real_pthread_getspecific(k); }
int __wrap_pthread_key_delete(pthread_key_t k) {
    for (int i = 0; i < nkeys; i++) if (keys[i].k == k) { keys[i] = keys[--nkeys]; break; }
    return __real_pthread_key_delete(k);
}
static void run_key_destructors(void) {
    for (int round = 0; round < 4; round++)
        for (int i = 0; i < nkeys; i++) {
            void *v = __real_pthread_getspecific(keys[i].k);
            if (v && keys[i].d) { __real_pthread_setspecific(keys[i].k, NULL); keys[i].d(v); }
        }
}

/* ------------------------------------------------------------------ threads */
static void *tmain(void *a) {
    int t = (int)(intptr_t)a;
    my_tid = t;
    fwait(&T[t].go);
    curtid = t;
    T[t].ret = T[t].fn(T[t].arg);
    run_key_destructors();
    T[t].vc[t]++;
    T[t].pend = P_DONE;
    mc_trace("thread ends");
    schedule(2);
    return NULL;
}
static int new_thread(void *(*fn)(void *), void *arg, pthread_t *pt) {
    if (nthr >= MAXT) mc_fail("mcrt-internal", "too many threads");
    int t = nthr;
    thr_t *x = &T[t];
    __real_memset(x, 0, sizeof *x);
    x->fn = fn;
    x->arg = arg;
    x->pend = P_RUN;
    x->vc[t] = 1;
    if (my_tid >= 0) { vc_join(x->vc, T[my_tid].vc); T[my_tid].vc[my_tid]++; }
    nthr++;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)(STK_BASE + STK_EACH * t), STK_EACH);
    if (__real_pthread_create(&x->pt, &at, tmain, (void *)(intptr_t)t)) { perror("pthread_create"); _exit(3); }
    if (pt) *pt = x->pt;
    return t;
}
int __wrap_pthread_create(pthread_t *pt, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    (void)a;
    if (!run_ok()) { if (slot) mc_fail("mcrt-internal", "thread created outside the scheduler"); return __real_pthread_create(pt, a, fn, arg); }
    int t = new_thread(fn, arg, pt);
    mc_trace("creates T%d", t);
    point("created", 0, RA);
    return 0;
}
static int find_t(pthread_t p) { for (int i = nthr - 1; i >= 0; i--) if (T[i].pt == p) return i; return -1; }
static int join_(int u) {
    thr_t *t = &T[my_tid];
    t->jointid = u;
    t->pend = P_JOIN;
    mc_trace("joins T%d", u);
    schedule(0);
    t->pend = P_RUN;
    vc_join(t->vc, T[u].vc);
    T[u].joined = 1;
    return 0;
}
int __wrap_pthread_join(pthread_t p, void **ret) {
    if (!run_ok()) return EINVAL;
    int u = find_t(p);
    if (u < 0) { mc_trace("join of unknown thread"); return ESRCH; }
    if (u == my_tid) return EDEADLK;
    if (T[u].joined) { char k[64]; snprintf(k, sizeof k, "double-join@%p", RA); mc_fail(k, "thread joined twice, pc=%p", RA); }
    join_(u);
    if (ret) *ret = T[u].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t p) { int u = find_t(p); if (u >= 0) T[u].detached = 1; return 0; }
typedef struct { void (*f)(void *); void *a; } sp_t;
static sp_t sp[64];
static int nsp;
static void *sp_main(void *a) { sp_t *s = a; s->f(s->a); return NULL; }
int mc_spawn(void (*f)(void *), void *a) {
    sp_t *s = &sp[nsp++];
    s->f = f; s->a = a;
    int t = new_thread(sp_main, s, NULL);
    mc_trace("spawns T%d", t);
    point("spawned", 0, 0);
    return t;
}
void mc_join(int t) { join_(t); }

/* ------------------------------------------------------------------ time */
int __wrap_sched_yield(void) { mc_yield(); return 0; }
static void sleep_ns(uint64_t ns) {
    if (!run_ok()) { now_ns += ns; return; }
    T[my_tid].deadline = now_ns + ns;
    T[my_tid].pend = ns ? P_SLEEP : P_RUN;
    mc_trace("sleeps %llu us", (unsigned long long)(ns / 1000));
    schedule(ns ? 0 : 1);
    T[my_tid].pend = P_RUN;
    T[my_tid].deadline = 0;
}
int __wrap_usleep(unsigned us) { sleep_ns((uint64_t)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { sleep_ns((uint64_t)s * 1000000000ULL); return 0; }
int __wrap_nanosleep(const struct timespec *r, struct timespec *rem) { (void)rem; sleep_ns((uint64_t)r->tv_sec * 1000000000ULL + r->tv_nsec); return 0; }
int __wrap_clock_gettime(clockid_t k, struct timespec *ts) {
    uint64_t n = now_ns;
    ts->tv_sec = n / 1000000000ULL + ((k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? REALTIME_OFFSET : 0);
    ts->tv_nsec = n % 1000000000ULL;
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; tv->tv_sec = now_ns / 1000000000ULL + REALTIME_OFFSET; tv->tv_usec = now_ns / 1000 % 1000000; return 0; }
time_t __wrap_time(time_t *o) { time_t t = now_ns / 1000000000ULL + REALTIME_OFFSET; if (o) *o = t; return t; }
static unsigned rnd;
int __wrap_rand(void) { return (int)(rnd++ & 0x7fff); }
void __wrap_srand(unsigned s) { (void)s; }
long __wrap_random(void) { return (long)(rnd++ & 0x7fff); }

/* ------------------------------------------------------------------ one execution */
static void map_fixed(uintptr_t a, size_t n) {
    void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap fixed"); _exit(3); }
}
static void *map_any(size_t n, int shared) {
    void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE) | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return p;
}
static void init_mem(void) {
    map_fixed(HEAP_BASE, HEAP_SIZE);
    map_fixed(STK_BASE, STK_SIZE);
    valid = map_any(HEAP_SIZE / 8, 0);
    heap_top = HEAP_BASE + 4096;
    synctab = map_any(sizeof(syncobj) * NSYNC, 0);
    rbase[0] = HEAP_BASE; rend[0] = HEAP_BASE + HEAP_SIZE;
    rbase[1] = STK_BASE; rend[1] = STK_BASE + STK_SIZE;
    rbase[2] = (uintptr_t)&__data_start & ~7UL; rend[2] = (uintptr_t)&_end;
    for (int i = 0; i < 3; i++) cells[i] = map_any(((rend[i] - rbase[i]) / 8 + 2) * sizeof(cell_t), 0);
}
static void *run0(void *a) { ((void (*)(void))a)(); return NULL; }
static void *t0main(void *a) {
    my_tid = 0;
    fwait(&T[0].go);
    active = 1;
    run0(a);
    if (scn_flags & MC_NOLEAKTHREADS)
        for (int i = 1; i < nthr; i++)
            if (T[i].pend != P_DONE) mc_fail("thread-left", "T%d is still %s when everything was shut down", i, pname(T[i].pend));
    slot_finish(ST_OK);
    return NULL;
}
static void child_run(void (*run)(void)) {
    struct sigaction sa;
    __real_memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onsig;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    nthr = 1;
    T[0].pend = P_RUN;
    T[0].vc[0] = 1;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)STK_BASE, STK_EACH);
    if (__real_pthread_create(&T[0].pt, &at, t0main, (void *)run)) _exit(3);
    fwake(&T[0].go);
    for (;;) pause();
}
static int hang_secs = 10;
/* returns 0 if the child answered in time */
static int run_one(const mc_scenario *s, item_t *it, int secs) {
    slot->status = -1;
    slot->ndec = 0;
    slot->outcome[0] = 0;
    slot->key[0] = slot->msg[0] = 0;
    cur_item = *it;
    prefix = &cur_item;
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct itimerval tv = {{0, 0}, {secs, 0}};
        setitimer(ITIMER_REAL, &tv, NULL);
        child_run(s->run);
        _exit(3);
    }
    int st;
    while (waitpid(p, &st, 0) < 0) if (errno != EINTR) break;
    if (slot->status == -1) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return 1;
        snprintf(slot->key, sizeof slot->key, "crash-status%d", st);
        snprintf(slot->msg, sizeof slot->msg, "execution ended without a result, wait status %#x", st);
        slot->status = ST_CRASHED;
    }
    return 0;
}
static void lk(void) { while (__sync_lock_test_and_set(&sh->lock, 1)) os_yield(); }
static void ulk(void) { __sync_lock_release(&sh->lock); }

static uint64_t fnv(const char *s) { uint64_t h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }
static void note_outcome(void) {
    uint64_t h = fnv(slot->outcome);
    int n = sh->nout;
    for (int i = 0; i < n; i++) if (sh->outh[i] == h) return;
    lk();
    for (int i = n; i < sh->nout; i++) if (sh->outh[i] == h) { ulk(); return; }
    if (sh->nout < MAXOUT) {
        if (sh->nout < 48) snprintf(sh->outs[sh->nout], 400, "%s", slot->outcome);
        sh->outh[sh->nout] = h;
        sh->nout++;
    }
    ulk();
}
static char known_keys[64][120];
static int nknown;
static int is_known(const char *k) { for (int i = 0; i < nknown; i++) if (!strcmp(known_keys[i], k)) return 1; return 0; }

static double wall(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void record_violation(item_t *it) {
    lk();
    int i;
    for (i = 0; i < sh->nviol; i++) if (!strcmp(sh->viol[i].key, slot->key)) { sh->viol[i].count++; break; }
    if (i == sh->nviol && i < MAXV) {
        snprintf(sh->viol[i].key, sizeof sh->viol[i].key, "%s", slot->key);
        snprintf(sh->viol[i].msg, sizeof sh->viol[i].msg, "%s", slot->msg);
        sh->viol[i].it = *it;
        sh->viol[i].count = 1;
        sh->nviol++;
    }
    ulk();
    if (!is_known(slot->key)) sh->stop = 1;
}
static void worker(const mc_scenario *s, int bound) {
    item_t *it = __real_malloc(sizeof *it);
    int iter = 0;
    for (;;) {
        if (sh->stop || sh->gen_new || sh->error) break;
        if ((++iter & 63) == 0 && deadline_s > 0 && wall() > deadline_s) { sh->stop = 2; break; }
        lk();
        if (sh->top == 0) {
            if (sh->busy == 0) { ulk(); break; }
            ulk();
            __real_usleep(200);
            continue;
        }
        sh->top--;
        __real_memcpy(it, &sh->work[sh->top], sizeof(uint16_t) * 2 + sizeof(dev_t_) * sh->work[sh->top].ndev);
        sh->busy++;
        ulk();
        if (run_one(s, it, hang_secs)) {
            if (run_one(s, it, hang_secs * 4)) {
                snprintf(slot->key, sizeof slot->key, "hang");
                snprintf(slot->msg, sizeof slot->msg, "execution does not end in %d s of real time", hang_secs * 4);
                slot->status = ST_FAIL;
            }
        }
        if (slot->status == ST_DIVERGED) {
            lk();
            sh->error = 1;
            snprintf(sh->errmsg, sizeof sh->errmsg, "%s", slot->msg);
            ulk();
        }
        __sync_fetch_and_add(&sh->execs, 1);
        __sync_fetch_and_add(&sh->points, slot->points);
        if (slot->ndec > sh->maxdec) sh->maxdec = slot->ndec;
        if (slot->status == ST_FAIL || slot->status == ST_CRASHED) {
            if (!strncmp(slot->key, "mcrt-internal", 13)) {
                sh->error = 1;
                snprintf(sh->errmsg, sizeof sh->errmsg, "%s", slot->msg);
            } else record_violation(it);
        } else if (slot->status == ST_OK) note_outcome();
        /* alternatives */
        int from = it->ndev ? it->d[it->ndev - 1].pos + 1 : 0;
        __sync_fetch_and_add(&sh->nodes, slot->ndec - from + 1);
        lk();
        for (int pos = slot->ndec - 1; pos >= from; pos--) {
            for (int a = slot->nalt[pos] - 1; a >= 1; a--) {
                int c = it->cost + ((slot->costs[pos] >> a) & 1);
                if (c > bound) continue;
                if (it->ndev >= MAXDEV || sh->top >= MAXWORK) { sh->dropped++; continue; }
                item_t *w = &sh->work[sh->top++];
                __real_memcpy(w->d, it->d, sizeof(dev_t_) * it->ndev);
                w->ndev = it->ndev + 1;
                w->cost = c;
                w->d[it->ndev].pos = pos;
                w->d[it->ndev].alt = a;
                w->d[it->ndev].n = slot->nalt[pos];
            }
        }
        sh->busy--;
        ulk();
    }
    _exit(0);
}

static void print_json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void print_item(FILE *f, item_t *it) {
    fprintf(f, "[");
    for (int i = 0; i < it->ndev; i++) fprintf(f, "%s[%d,%d,%d]", i ? "," : "", it->d[i].pos, it->d[i].alt, it->d[i].n);
    fprintf(f, "]");
}
/* explore one bound; returns 0 complete, 1 stopped (violation or cap) */
static int explore(const mc_scenario *s, int bound, int nw, slot_t *slots) {
    for (;;) {
        sh->top = 1;
        sh->work[0].ndev = 0;
        sh->work[0].cost = 0;
        sh->busy = 0;
        sh->execs = sh->points = sh->nodes = sh->maxdec = sh->dropped = 0;
        sh->nout = 0;
        sh->gen_new = 0;
        sh->nnewpc = 0;
        fflush(stdout);
        pid_t pids[64];
        for (int i = 0; i < nw; i++) {
            pids[i] = fork();
            if (pids[i] == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); slot = &slots[i]; worker(s, bound); _exit(0); }
        }
        for (int i = 0; i < nw; i++) { int st; waitpid(pids[i], &st, 0); if (st) { sh->error = 1; if (!sh->errmsg[0]) snprintf(sh->errmsg, sizeof sh->errmsg, "worker ended with status %#x", st); } }
        if (sh->error || sh->stop) return 1;
        if (sh->gen_new) {
            for (int i = 0; i < sh->nnewpc && sh->npc < MAXPC; i++) sh->pc[sh->npc++] = sh->newpc[i];
            continue;
        }
        return sh->dropped ? 1 : 0;
    }
}

int mc_main(int argc, char **argv, const mc_scenario *scn, int n) {
    int thorough = 0, nw = 8, maxbound = -1;
    const char *only = NULL, *replay = NULL;
    double budget = 0;
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) thorough = 1;
        else if (!strcmp(argv[i], "--only") && i + 1 < argc) only = argv[++i];
        else if (!strcmp(argv[i], "--bound") && i + 1 < argc) maxbound = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--workers") && i + 1 < argc) nw = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--budget") && i + 1 < argc) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--known") && i + 1 < argc) { if (nknown < 64) snprintf(known_keys[nknown++], 120, "%s", argv[++i]); }
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
        else if (!strcmp(argv[i], "--list")) { for (int j = 0; j < n; j++) printf("%s\n", scn[j].name); return 0; }
    }
    init_mem();
    sh = map_any(sizeof *sh + sizeof(item_t) * (size_t)MAXWORK, 1);
    slot_t *slots = map_any(sizeof(slot_t) * 65, 1);
    if (replay) {
        /* file: scenario \n npc pc... \n ndev (pos alt n)... */
        FILE *f = fopen(replay, "r");
        if (!f) { perror(replay); return 3; }
        char name[200];
        int k;
        item_t it = {0};
        if (fscanf(f, "%199s %d", name, &k) != 2) return 3;
        for (int i = 0; i < k; i++) { unsigned x; if (fscanf(f, "%x", &x) != 1) return 3; sh->pc[sh->npc++] = x; }
        if (fscanf(f, "%d", &k) != 1) return 3;
        for (int i = 0; i < k; i++) { int a, b, c; if (fscanf(f, "%d %d %d", &a, &b, &c) != 3) return 3; it.d[it.ndev].pos = a; it.d[it.ndev].alt = b; it.d[it.ndev].n = c; it.ndev++; }
        fclose(f);
        for (int j = 0; j < n; j++) if (!strcmp(scn[j].name, name)) {
            if (scn[j].setup) scn[j].setup();
            scn_flags = scn[j].flags;
            slot = &slots[0];
            replay_verbose = 1;
            if (run_one(&scn[j], &it, 60)) printf("RESULT hang\n");
            else printf("RESULT status=%d key=%s msg=%s outcome=%s decisions=%d\n", slot->status, slot->key, slot->msg, slot->outcome, slot->ndec);
            return slot->status ? 1 : 0;
        }
        return 3;
    }
    int rc = 0;
    for (int j = 0; j < n; j++) {
        if (only && strcmp(only, scn[j].name)) continue;
        /* each scenario in its own process so that setups do not interfere */
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            double t0 = wall();
            if (budget > 0) deadline_s = t0 + budget;
            scn_flags = scn[j].flags;
            if (scn[j].setup) scn[j].setup();
            int want = thorough ? scn[j].bound_thorough : scn[j].bound_quick;
            if (maxbound >= 0) want = maxbound;
            int done = -1, b;
            long execs = 0, points = 0, nodes = 0;
            int capped = 0;
            for (b = 0; b <= want; b++) {
                int r = explore(&scn[j], b, nw, slots);
                execs = sh->execs; points = sh->points; nodes = sh->nodes;
                if (sh->error) break;
                if (r) { capped = sh->stop == 2 || sh->dropped; break; }
                done = b;
                /* nothing left to deviate on */
            }
            if (sh->error) { printf("{\"type\":\"error\",\"scenario\":\"%s\",\"msg\":", scn[j].name); print_json_str(stdout, sh->errmsg); printf("}\n"); _exit(3); }
            /* confirm violations: the same schedule must fail the same way twice */
            for (int v = 0; v < sh->nviol; v++) {
                slot = &slots[64];
                int same = 0;
                for (int k = 0; k < 2; k++) {
                    int h = run_one(&scn[j], &sh->viol[v].it, hang_secs * 4);
                    if (h ? !strcmp(sh->viol[v].key, "hang") : !strcmp(slot->key, sh->viol[v].key)) same++;
                }
                printf("{\"type\":\"violation\",\"scenario\":\"%s\",\"confirmed\":%s,\"key\":", scn[j].name, same == 2 ? "true" : "false");
                print_json_str(stdout, sh->viol[v].key);
                printf(",\"msg\":");
                print_json_str(stdout, sh->viol[v].msg);
                printf(",\"count\":%d,\"devs\":", sh->viol[v].count);
                print_item(stdout, &sh->viol[v].it);
                printf(",\"pcs\":[");
                for (int i = 0; i < sh->npc; i++) printf("%s%u", i ? "," : "", sh->pc[i]);
                printf("]}\n");
            }
            printf("{\"type\":\"summary\",\"scenario\":\"%s\",\"what\":", scn[j].name);
            print_json_str(stdout, scn[j].what ? scn[j].what : "");
            printf(",\"bound_wanted\":%d,\"bound_done\":%d,\"capped\":%s,\"executions\":%ld,\"points\":%ld,\"nodes\":%ld,\"max_decisions\":%ld,\"racy_sites\":%d,\"distinct_outcomes\":%d,\"wall\":%.2f,\"outcomes\":[",
                   want, done, capped ? "true" : "false", execs, points, nodes, (long)sh->maxdec, sh->npc, sh->nout, wall() - t0);
            for (int i = 0; i < sh->nout && i < 12; i++) { if (i) printf(","); print_json_str(stdout, sh->outs[i]); }
            printf("],\"racy_pcs\":[");
            for (int i = 0; i < sh->npc; i++) printf("%s%u", i ? "," : "", sh->pc[i]);
            printf("]}\n");
            fflush(stdout);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("{\"type\":\"error\",\"scenario\":\"%s\",\"msg\":\"explorer ended with status %#x\"}\n", scn[j].name, st); rc = 3; }
        /* reset the shared state for the next scenario */
        __real_memset(sh, 0, sizeof *sh);
    }
    return rc;
}
