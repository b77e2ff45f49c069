#define _GNU_SOURCE
#include "seqx.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern int __real_clock_gettime(clockid_t, struct timespec *);
extern int __real_nanosleep(const struct timespec *, struct timespec *);
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);
extern char *__real_strdup(const char *);
extern char *__real_strndup(const char *, size_t);
extern int __real_posix_memalign(void **, size_t, size_t);
extern void *__real_aligned_alloc(size_t, size_t);

#define MAXV 400
#define NSTATE (1u << 24)
#define MAXQ 4096
#define MAXVIOL 24
#define MAXCLS 96
#define NSAMPLE 6

typedef struct { int lo, len; uint16_t v[MAXV], n[MAXV]; } vec_t;
typedef struct {
    vec_t cur;
    volatile int running, done;
    volatile uint64_t seq;
    volatile int failed;
    char key[160], msg[1200], note[3000];
} slot_t;
typedef struct {
    volatile int lock;
    volatile int nq, busy, stop, error;
    char errmsg[200];
    volatile long execs, nodes, ops, states, overflow;
    volatile int nviol;
    struct { char key[160], msg[1200], note[3000]; vec_t v; long count; } viol[MAXVIOL];
    volatile int ncls;
    struct { char s[96]; volatile long count; } cls[MAXCLS];
    volatile int nsample;
    char sample[NSAMPLE][600];
    vec_t q[MAXQ];
    uint64_t st[NSTATE];
} shared_t;

static shared_t *sh;
static slot_t *slot, *slots;
static int worker_no, is_thorough, noting;
static int fork_mode;
static int prefix_len;
static char scratch[200];
static char known_keys[64][200];
static int nknown;
static long loc_ops, loc_nodes;
uint64_t sx_ms = 1000000;

static double wall(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void nap(long us) { struct timespec t = {us / 1000000, us % 1000000 * 1000}; syscall(SYS_nanosleep, &t, NULL); }
static void lk(void) { while (__sync_lock_test_and_set(&sh->lock, 1)) syscall(SYS_sched_yield); }
static void ulk(void) { __sync_lock_release(&sh->lock); }

int sx_thorough(void) { return is_thorough; }
int sx_worker(void) { return worker_no; }
int sx_noting(void) { return noting; }

/* ------------------------------------------------------------------ virtual time */
int __wrap_clock_gettime(clockid_t k, struct timespec *ts) {
    uint64_t m = sx_ms + ((k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? SX_EPOCH_MS : 0);
    ts->tv_sec = m / 1000;
    ts->tv_nsec = m % 1000 * 1000000;
    return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *z) { (void)z; uint64_t m = sx_ms + SX_EPOCH_MS; tv->tv_sec = m / 1000; tv->tv_usec = m % 1000 * 1000; return 0; }
time_t __wrap_time(time_t *o) { time_t t = (sx_ms + SX_EPOCH_MS) / 1000; if (o) *o = t; return t; }
int __wrap_nanosleep(const struct timespec *r, struct timespec *rem) { (void)rem; sx_ms += r->tv_sec * 1000 + r->tv_nsec / 1000000; return 0; }
int __wrap_usleep(unsigned us) { sx_ms += us / 1000; return 0; }
unsigned __wrap_sleep(unsigned s) { sx_ms += (uint64_t)s * 1000; return 0; }
static unsigned rnd;
int __wrap_rand(void) { return (int)(rnd++ * 7919u & 0x7fffffff); }
void __wrap_srand(unsigned s) { (void)s; }
long __wrap_random(void) { return (long)(rnd++ * 7919u & 0x7fffffff); }

/* ------------------------------------------------------------------ allocation faults */
static long fail_at = -1, acount, alive;
void sx_alloc_fail(long k) { fail_at = k; acount = 0; }
long sx_alloc_count(void) { return acount; }
long sx_live(void) { return alive; }
static int afault(void) { long k = acount++; if (fail_at >= 0 && k == fail_at) return 1; return 0; }
void *__wrap_malloc(size_t n) { if (afault()) return NULL; void *p = __real_malloc(n); if (p) alive++; return p; }
void *__wrap_calloc(size_t a, size_t b) { if (afault()) return NULL; void *p = __real_calloc(a, b); if (p) alive++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (afault()) return NULL; void *p = __real_realloc(q, n); if (p && !q) alive++; return p; }
void __wrap_free(void *p) { if (p) alive--; __real_free(p); }
char *__wrap_strdup(const char *s) { if (afault()) return NULL; char *p = __real_strdup(s); if (p) alive++; return p; }
char *__wrap_strndup(const char *s, size_t n) { if (afault()) return NULL; char *p = __real_strndup(s, n); if (p) alive++; return p; }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { if (afault()) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (!r) alive++; return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (afault()) return NULL; void *p = __real_aligned_alloc(a, n); if (p) alive++; return p; }

/* ------------------------------------------------------------------ inside an execution */
int sx_choose(int n) {
    if (n <= 1) return 0;
    vec_t *c = &slot->cur;
    int pos = prefix_len++;
    if (pos >= MAXV) { sh->error = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "more than %d choices", MAXV); _exit(3); }
    if (pos < c->len) {
        if (c->n[pos] != n) {
            if (c->n[pos] == 0) c->n[pos] = n;
            else { sh->error = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "diverged at choice %d: %d alternatives, expected %d", pos, n, c->n[pos]); _exit(3); }
        }
        return c->v[pos];
    }
    c->v[pos] = 0;
    c->n[pos] = n;
    c->len = pos + 1;
    loc_nodes++;
    return 0;
}
int sx_flip(void) { return sx_choose(2); }
void sx_op(void) { loc_ops++; }
void sx_ops(long n) { loc_ops += n; }
void sx_state(const void *p, size_t n) {
    const unsigned char *s = p;
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 1099511628211ULL;
    h ^= h >> 29; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 32;
    if (!h) h = 1;
    uint64_t i = h & (NSTATE - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (NSTATE - 1)) {
        uint64_t x = sh->st[i];
        if (x == h) return;
        if (!x) {
            if (__sync_bool_compare_and_swap(&sh->st[i], 0, h)) { __sync_fetch_and_add(&sh->states, 1); return; }
            if (sh->st[i] == h) return;
        }
    }
    sh->overflow++;
}
void sx_class(const char *fmt, ...) {
    char b[96];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    int n = sh->ncls;
    for (int i = 0; i < n; i++) if (!strcmp(sh->cls[i].s, b)) { __sync_fetch_and_add(&sh->cls[i].count, 1); return; }
    lk();
    for (int i = 0; i < sh->ncls; i++) if (!strcmp(sh->cls[i].s, b)) { sh->cls[i].count++; ulk(); return; }
    if (sh->ncls < MAXCLS) { strcpy(sh->cls[sh->ncls].s, b); sh->cls[sh->ncls].count = 1; __sync_synchronize(); sh->ncls++; }
    ulk();
}
void sx_note(const char *fmt, ...) {
    size_t l = strlen(slot->note);
    if (l + 2 >= sizeof slot->note) return;
    va_list ap; va_start(ap, fmt); vsnprintf(slot->note + l, sizeof slot->note - l, fmt, ap); va_end(ap);
}
static void leave(int code) {
    __sync_fetch_and_add(&sh->ops, loc_ops);
    __sync_fetch_and_add(&sh->nodes, loc_nodes);
    loc_ops = loc_nodes = 0;
    _exit(code);
}
void sx_fail(const char *key, const char *fmt, ...) {
    if (!slot) { fprintf(stderr, "%s: ", key); va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); _exit(3); }
    snprintf(slot->key, sizeof slot->key, "%s", key);
    va_list ap; va_start(ap, fmt); vsnprintf(slot->msg, sizeof slot->msg, fmt, ap); va_end(ap);
    slot->failed = 1;
    leave(2);
    abort();
}
/* sanitizer */
const char *__asan_get_report_description(void) __attribute__((weak));
void *__asan_get_report_pc(void) __attribute__((weak));
void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void asan_cb(const char *rep) {
    if (!slot) return;
    /* the first frame inside the main program is the stable name */
    unsigned long pc = 0;
    const char *p = rep;
    extern char __executable_start, etext;
    while (p && (p = strstr(p, "    #"))) {
        const char *x = strstr(p, "0x");
        if (!x) break;
        unsigned long a = strtoul(x, NULL, 16);
        if (a >= (unsigned long)&__executable_start && a < (unsigned long)&etext) { pc = a - 1; break; }
        p = x;
    }
    snprintf(slot->key, sizeof slot->key, "%s@%#lx", __asan_get_report_description ? __asan_get_report_description() : "memory-error", pc);
    snprintf(slot->msg, sizeof slot->msg, "%.1100s", rep);
    slot->failed = 1;
}
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=0:exitcode=7:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=0:handle_sigfpe=0:handle_abort=0:symbolize=0:quarantine_size_mb=16:malloc_context_size=2:log_path=/dev/null:max_allocation_size_mb=2048:strict_string_checks=0:detect_odr_violation=0"; }
static void onsig(int s, siginfo_t *si, void *u) {
    ucontext_t *uc = u;
    if (slot && !slot->failed) {
        unsigned long pc = uc->uc_mcontext.gregs[REG_RIP];
        snprintf(slot->key, sizeof slot->key, "crash-sig%d@%#lx", s, pc);
        snprintf(slot->msg, sizeof slot->msg, "signal %d at pc=%#lx addr=%p", s, pc, si->si_addr);
        slot->failed = 1;
    }
    _exit(2);
}
static char altstk[65536];
/* mcp_pool_free() and its kin look at the bytes before any block they are given; the sanitizer's allocator
   puts the first small block of a size class at the start of a region, where there may be no page before it */
static void pages_before_regions(void) {
    for (size_t n = 1; n <= 64; n += 8) {
        void *p = malloc(n);
        uintptr_t base = (uintptr_t)p & ~(((uintptr_t)1 << 36) - 1);
        free(p);
        if (base) mprotect((void *)(base - 4096), 4096, PROT_READ | PROT_WRITE);
    }
}
static void guards(void) {
    if (__asan_set_error_report_callback) pages_before_regions();
    if (__asan_set_error_report_callback) __asan_set_error_report_callback(asan_cb);
    stack_t ss = {.ss_sp = altstk, .ss_size = sizeof altstk};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onsig;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
    sigaction(SIGSEGV, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGBUS, &sa, NULL);
    sigaction(SIGABRT, &sa, NULL); sigaction(SIGILL, &sa, NULL);
    signal(SIGPIPE, SIG_IGN);
}
static int rmf(const char *p, const struct stat *s, int f, struct FTW *w) { (void)s; (void)f; (void)w; return remove(p); }
const char *sx_scratch(void) {
    if (!scratch[0]) {
        const char *base = getenv("SX_SCRATCH");
        snprintf(scratch, sizeof scratch, "%s/w%d", base ? base : "/tmp/sx-scratch", worker_no);
        if (base) mkdir(base, 0700); else mkdir("/tmp/sx-scratch", 0700);
        nftw(scratch, rmf, 16, FTW_DEPTH | FTW_PHYS);
        mkdir(scratch, 0700);
    }
    return scratch;
}

/* ------------------------------------------------------------------ engine */
static int next_vec(vec_t *c) {
    for (int i = c->len - 1; i >= c->lo; i--)
        if (c->v[i] + 1 < c->n[i]) { c->v[i]++; c->len = i + 1; return 1; }
    return 0;
}
static void donate(vec_t *c) {
    if (sh->nq >= 12) return;
    for (int i = c->lo; i < c->len; i++)
        if (c->v[i] + 1 < c->n[i]) {
            lk();
            if (sh->nq < MAXQ) {
                vec_t *q = &sh->q[sh->nq];
                *q = *c;
                q->v[i]++;
                q->len = i + 1;
                q->lo = i;
                sh->nq++;
                c->lo = i + 1;
            }
            ulk();
            return;
        }
}
static void exec_once(const sx_scenario *s) {
    prefix_len = 0;
    slot->note[0] = 0;
    slot->failed = 0;
    rnd = 1;
    sx_ms = 1000000;
    fail_at = -1; acount = 0;
    noting = 1;
    s->run();
    if (prefix_len < slot->cur.len) { sh->error = 1; snprintf(sh->errmsg, sizeof sh->errmsg, "diverged: execution made %d choices, expected %d", prefix_len, slot->cur.len); _exit(3); }
}
static int hang_s = 30;
static void run_loop(const sx_scenario *s) {
    for (;;) {
        slot->seq++;
        if (fork_mode) {
            pid_t p = fork();
            if (p == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                struct itimerval tv = {{0, 0}, {hang_s, 0}};
                setitimer(ITIMER_REAL, &tv, NULL);
                exec_once(s);
                leave(0);
            }
            int st;
            while (waitpid(p, &st, 0) < 0 && errno == EINTR);
            if (st) {
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { snprintf(slot->key, 160, "hang"); snprintf(slot->msg, 1200, "execution does not end in %d s", hang_s); slot->failed = 1; }
                else if (!slot->failed) { snprintf(slot->key, 160, "crash-status%d", st); snprintf(slot->msg, 1200, "process ended with status %#x", st); slot->failed = 1; }
                if (sh->error) _exit(3);
                _exit(2);
            }
            __sync_fetch_and_add(&sh->nodes, loc_nodes); loc_nodes = 0;
        } else exec_once(s);
        long e = __sync_add_and_fetch(&sh->execs, 1);
        if (sh->nsample < NSAMPLE && (e < 3 || (e & (e - 1)) == 0) && slot->note[0]) {
            lk();
            if (sh->nsample < NSAMPLE) { snprintf(sh->sample[sh->nsample], 600, "%s", slot->note); sh->nsample++; }
            ulk();
        }
        if ((loc_ops | loc_nodes) > 4096 || !(e & 255)) { __sync_fetch_and_add(&sh->ops, loc_ops); __sync_fetch_and_add(&sh->nodes, loc_nodes); loc_ops = loc_nodes = 0; }
        if (sh->stop) break;
        donate(&slot->cur);
        if (!next_vec(&slot->cur)) break;
    }
}
static void worker(const sx_scenario *s, int resume) {
    guards();
    if (s->setup) s->setup();
    if (resume) {
        if (next_vec(&slot->cur)) run_loop(s);
        lk(); sh->busy--; slot->running = 0; ulk();
    }
    for (;;) {
        if (sh->stop) break;
        lk();
        if (sh->nq == 0) {
            int b = sh->busy;
            ulk();
            if (!b) break;
            nap(200);
            continue;
        }
        sh->nq--;
        slot->cur = sh->q[sh->nq];
        sh->busy++;
        slot->running = 1;
        ulk();
        run_loop(s);
        lk(); sh->busy--; slot->running = 0; ulk();
    }
    leave(0);
}
static int is_known(const char *k) { for (int i = 0; i < nknown; i++) if (!strcmp(known_keys[i], k)) return 1; return 0; }
static void jstr(const char *s) {
    putchar('"');
    for (; *s; s++) {
        unsigned char c = *s;
        if (c == '"' || c == '\\') printf("\\%c", c);
        else if (c < 32 || c > 126) printf("\\u%04x", c);
        else putchar(c);
    }
    putchar('"');
}
static void jvec(vec_t *v) { printf("["); for (int i = 0; i < v->len; i++) printf("%s%d", i ? "," : "", v->v[i]); printf("]"); }

static void run_scenario(const sx_scenario *s, int nw, double budget) {
    double t0 = wall();
    fork_mode = s->flags & SX_FORK;
    sh->nq = 1;
    memset(&sh->q[0], 0, sizeof(vec_t));
    int capped = 0;
    pid_t pid[64];
    uint64_t lastseq[64];
    double lastt[64];
    for (int i = 0; i < nw; i++) {
        slots[i].running = 0;
        worker_no = i;
        pid[i] = fork();
        if (!pid[i]) { prctl(PR_SET_PDEATHSIG, SIGKILL); slot = &slots[i]; worker(s, 0); _exit(0); }
        lastseq[i] = 0; lastt[i] = wall();
    }
    int left = nw;
    while (left) {
        int st;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int i;
            for (i = 0; i < nw && pid[i] != p; i++);
            if (i == nw) continue;
            int failed = st != 0;
            if (sh->error) { failed = 0; }
            if (failed) {
                slot_t *sl = &slots[i];
                if (!sl->failed) { snprintf(sl->key, 160, "crash-status%d", st); snprintf(sl->msg, 1200, "process ended with status %#x", st); }
                int k;
                for (k = 0; k < sh->nviol; k++) if (!strcmp(sh->viol[k].key, sl->key)) { sh->viol[k].count++; break; }
                if (k == sh->nviol && k < MAXVIOL) {
                    strcpy(sh->viol[k].key, sl->key); strcpy(sh->viol[k].msg, sl->msg); strcpy(sh->viol[k].note, sl->note);
                    sh->viol[k].v = sl->cur; sh->viol[k].count = 1; sh->nviol++;
                }
                sh->execs++;
                if (!is_known(sl->key)) sh->stop = 1;
                sl->failed = 0;
                if (sh->stop) {
                    if (sl->running) { sl->running = 0; __sync_fetch_and_sub(&sh->busy, 1); }
                    pid[i] = -1;
                    left--;
                    continue;
                }
                /* carry on after the failing vector; a lock holder cannot die here (no code under test runs under it) */
                worker_no = i;
                pid[i] = fork();
                if (!pid[i]) { prctl(PR_SET_PDEATHSIG, SIGKILL); slot = &slots[i]; worker(s, sl->running); _exit(0); }
                lastt[i] = wall();
                continue;
            }
            pid[i] = -1;
            left--;
            if (sh->error) { sh->stop = 1; sh->busy = 0; }
            continue;
        }
        nap(2000);
        double n = wall();
        if (budget > 0 && n - t0 > budget && !sh->stop) { sh->stop = 2; capped = 1; }
        if (!fork_mode)
            for (int i = 0; i < nw; i++) if (pid[i] > 0) {
                if (slots[i].seq != lastseq[i] || !slots[i].running) { lastseq[i] = slots[i].seq; lastt[i] = n; }
                else if (n - lastt[i] > hang_s) {
                    snprintf(slots[i].key, 160, "hang");
                    snprintf(slots[i].msg, 1200, "execution does not end in %d s", hang_s);
                    slots[i].failed = 1;
                    kill(pid[i], SIGKILL);
                    lastt[i] = n;
                }
            }
    }
    if (sh->error) { printf("{\"type\":\"error\",\"scenario\":\"%s\",\"msg\":", s->name); jstr(sh->errmsg); printf("}\n"); fflush(stdout); _exit(3); }
    for (int k = 0; k < sh->nviol; k++) {
        int same = 0;
        for (int r = 0; r < 2; r++) {
            slot_t *sl = &slots[nw];
            memset(sl, 0, sizeof *sl);
            sl->cur = sh->viol[k].v;
            memset(sl->cur.n, 0, sizeof sl->cur.n);
            worker_no = nw;
            int st;
            pid_t p = fork();
            if (!p) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                slot = sl; guards(); if (s->setup) s->setup();
                struct itimerval tv = {{0, 0}, {hang_s * 2, 0}}; setitimer(ITIMER_REAL, &tv, NULL);
                exec_once(s); _exit(0);
            }
            waitpid(p, &st, 0);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { if (!strcmp(sh->viol[k].key, "hang")) same++; continue; }
            if (st && !sl->failed) snprintf(sl->key, 160, "crash-status%d", st);
            if (st && !strcmp(sl->key, sh->viol[k].key)) same++;
            sh->error = 0;
        }
        printf("{\"type\":\"violation\",\"scenario\":\"%s\",\"confirmed\":%s,\"key\":", s->name, same == 2 ? "true" : "false");
        jstr(sh->viol[k].key); printf(",\"msg\":"); jstr(sh->viol[k].msg);
        printf(",\"note\":"); jstr(sh->viol[k].note);
        printf(",\"count\":%ld,\"vec\":", sh->viol[k].count); jvec(&sh->viol[k].v); printf("}\n");
    }
    printf("{\"type\":\"summary\",\"scenario\":\"%s\",\"what\":", s->name); jstr(s->what ? s->what : "");
    printf(",\"capped\":%s,\"stopped\":%s,\"executions\":%ld,\"nodes\":%ld,\"ops\":%ld,\"states\":%ld,\"state_overflow\":%ld,\"wall\":%.2f,\"classes\":{",
           capped ? "true" : "false", sh->stop ? "true" : "false", sh->execs, sh->nodes, sh->ops, sh->states, sh->overflow, wall() - t0);
    for (int i = 0; i < sh->ncls; i++) { if (i) printf(","); jstr(sh->cls[i].s); printf(":%ld", sh->cls[i].count); }
    printf("},\"samples\":[");
    for (int i = 0; i < sh->nsample; i++) { if (i) printf(","); jstr(sh->sample[i]); }
    printf("]}\n");
    fflush(stdout);
}
int sx_main(int argc, char **argv, const sx_scenario *s, int n) {
    int nw = 8;
    const char *only = NULL, *replay = NULL;
    double budget = 0;
    setvbuf(stdout, NULL, _IOLBF, 0);
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--thorough")) is_thorough = 1;
        else if (!strcmp(argv[i], "--only") && i + 1 < argc) only = argv[++i];
        else if (!strcmp(argv[i], "--workers") && i + 1 < argc) nw = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--budget") && i + 1 < argc) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--known") && i + 1 < argc) { if (nknown < 64) snprintf(known_keys[nknown++], 200, "%s", argv[++i]); }
        else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
        else if (!strcmp(argv[i], "--list")) { for (int j = 0; j < n; j++) printf("%s\n", s[j].name); return 0; }
    }
    int rc = 0;
    if (replay) {
        FILE *f = fopen(replay, "r");
        char name[200];
        int k;
        if (!f || fscanf(f, "%199s %d %d", name, &is_thorough, &k) != 3) return 3;
        sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        slots = mmap(NULL, sizeof(slot_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        slot = slots;
        for (int i = 0; i < k; i++) { int a; if (fscanf(f, "%d", &a) != 1) return 3; slot->cur.v[i] = a; }
        slot->cur.len = k;
        fclose(f);
        for (int j = 0; j < n; j++) if (!strcmp(s[j].name, name)) {
            pid_t p = fork();
            if (!p) { guards(); if (s[j].setup) s[j].setup(); exec_once(&s[j]); leave(0); }
            int st; waitpid(p, &st, 0);
            printf("%s\n", slot->note);
            if (st) printf("RESULT violation key=%s\n%s\n", slot->key, slot->msg); else printf("RESULT ok\n");
            return st ? 1 : 0;
        }
        return 3;
    }
    for (int j = 0; j < n; j++) {
        if (only && strcmp(only, s[j].name)) continue;
        fflush(stdout);
        sh = mmap(NULL, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        slots = mmap(NULL, sizeof(slot_t) * 65, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (sh == MAP_FAILED || slots == MAP_FAILED) { perror("mmap"); return 3; }
        pid_t p = fork();
        if (!p) { run_scenario(&s[j], nw, budget); _exit(0); }
        int st;
        waitpid(p, &st, 0);
        if (st) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) printf("{\"type\":\"error\",\"scenario\":\"%s\",\"msg\":\"explorer ended with status %#x\"}\n", s[j].name, st); rc = 3; }
        munmap(sh, sizeof *sh);
        munmap(slots, sizeof(slot_t) * 65);
    }
    return rc;
}
