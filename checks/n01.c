/* N01: connections of the pool are lent to one borrower at a time, and waiting borrowers get them. */
#include "mcrt.h"
#include "mcp_connection_pool.h"
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>

/* ---- the network: descriptors are the lowest free ones, as a kernel gives them out ---- */
#define FD0 900
#define NFD 12
static struct { int open, connected, lent, dead, peeked; uint64_t idle; } fd[NFD];    /* lent: thread + 1 */
static int n_open, n_max, max_conns, fails, faults, releasing[16], made, failed_by[16];
static int slow;                                /* connecting takes a while */
static int is(int s) { return s >= FD0 && s < FD0 + NFD; }
static void owned(int s, const char *what) {
    if (!fd[s - FD0].open) mc_fail("closed-used", "%s on a connection that is closed", what);
    if (fd[s - FD0].lent && releasing[mc_self()] != s) mc_fail("used-while-lent", "%s on a connection lent to a borrower", what);
}
int __wrap_socket(int a, int b, int c) {
    for (int i = 0; i < NFD; i++) if (!fd[i].open) { memset(&fd[i], 0, sizeof fd[i]); fd[i].open = 1; if (++n_open > max_conns) mc_fail("too-many", "%d connections are open, the maximum is %d", n_open, max_conns); return FD0 + i; }
    mc_fail("too-many", "out of descriptors");
}
int __wrap_connect(int s, const struct sockaddr *a, socklen_t n) {
    owned(s, "connect"); made++; const struct sockaddr_in *in = (void *)a; if (n != sizeof *in || in->sin_port != htons(77)) mc_fail("address", "connecting to a wrong address");
    if (!mc_ptr_live(a, n)) mc_fail("address", "connecting to an address that was released");
    mc_point();
    if (fails && faults > 0 && mc_choose_free(2)) { faults--; failed_by[mc_self()]++; errno = ECONNREFUSED; return -1; }
    if (slow) { errno = EINPROGRESS; return -1; }
    fd[s - FD0].connected = 1; return 0;
}
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
static int never(void *x) { (void)x; return 0; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
    if (n <= FD0) return __real_select(n, r, w, e, tv);
    int s = n - 1; owned(s, "select"); mc_block_until_timed(never, NULL, 5);
    int c = fails && faults > 0 ? mc_choose_free(3) : 0; if (e) FD_ZERO(e); if (r) FD_ZERO(r);
    if (c) { faults--; failed_by[mc_self()]++; }
    if (c == 1) { FD_ZERO(w); return 0; }
    fd[s - FD0].connected = c == 0; return 1;
}
int __wrap_getsockopt(int s, int l, int o, void *v, socklen_t *n) { owned(s, "getsockopt"); *(int *)v = fd[s - FD0].connected ? 0 : ECONNREFUSED; return 0; }
int __wrap_setsockopt(int s, int l, int o, const void *v, socklen_t n) { return 0; }
int __real_fcntl(int, int, ...); int __wrap_fcntl(int s, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); if (!is(s)) return __real_fcntl(s, c, x); owned(s, "fcntl"); return c == F_GETFL ? O_RDWR : 0; }
int __real_fcntl64(int, int, ...); int __wrap_fcntl64(int s, int c, ...) { va_list a; va_start(a, c); long x = va_arg(a, long); va_end(a); return __wrap_fcntl(s, c, x); }
int __real_close(int); int __wrap_close(int s) {
    if (!is(s)) return __real_close(s);
    if (!fd[s - FD0].open) mc_fail("closed-twice", "a connection is closed twice");
    if (fd[s - FD0].lent && releasing[mc_self()] != s) mc_fail("closed-while-lent", "a connection is closed while it is lent");
    mc_point(); fd[s - FD0].open = 0; n_open--; return 0;
}
/* a dead connection is readable with nothing to read */
int __real_poll(struct pollfd *, nfds_t, int); int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
    if (n != 1 || !is(p->fd)) return __real_poll(p, n, t);
    int s = p->fd; owned(s, "poll"); if (!fd[s - FD0].dead && t > 0) mc_block_until_timed(never, NULL, 3); else mc_point();
    owned(s, "poll"); p->revents = fd[s - FD0].dead == 1 ? POLLIN : fd[s - FD0].dead == 2 ? POLLHUP : 0; if (fd[s - FD0].dead) fd[s - FD0].peeked = 1; return p->revents != 0;
}
ssize_t __real_recv(int, void *, size_t, int); ssize_t __wrap_recv(int s, void *b, size_t n, int f) { if (!is(s)) return __real_recv(s, b, n, f); owned(s, "recv"); if (fd[s - FD0].dead) return 0; errno = EAGAIN; return -1; }
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **out) {
    struct addrinfo *a = calloc(1, sizeof *a); struct sockaddr_in *in = calloc(1, sizeof *in); in->sin_family = AF_INET; in->sin_port = htons((unsigned short)atoi(p)); a->ai_family = AF_INET; a->ai_socktype = SOCK_STREAM; a->ai_addr = (void *)in; a->ai_addrlen = sizeof *in; *out = a; mc_point(); return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { free(a->ai_addr); free(a); }

/* single steps here: the resolver's cache is explored by N02, the object pool by O01 */
struct addrinfo *__real_dns_cache_get(const char *, int, const struct addrinfo *); struct addrinfo *__wrap_dns_cache_get(const char *h, int p, const struct addrinfo *x) { mc_atomic_begin(); struct addrinfo *r = __real_dns_cache_get(h, p, x); mc_atomic_end(); return r; }
void __real_dns_cache_release(struct addrinfo *); void __wrap_dns_cache_release(struct addrinfo *a) { mc_atomic_begin(); __real_dns_cache_release(a); mc_atomic_end(); }
void *__real_mcp_object_pool_acquire(void *); void *__wrap_mcp_object_pool_acquire(void *p) { mc_atomic_begin(); void *r = __real_mcp_object_pool_acquire(p); mc_atomic_end(); return r; }
_Bool __real_mcp_object_pool_release(void *, void *); _Bool __wrap_mcp_object_pool_release(void *p, void *o) { mc_atomic_begin(); _Bool r = __real_mcp_object_pool_release(p, o); mc_atomic_end(); return r; }

/* ---- borrowers ---- */
static mcp_connection_pool_t *P; static int maintained, idle_ms, health, lends, destroyed;
static int take(int limit) {
    uint64_t t0 = mc_now_ms(); int f0 = failed_by[mc_self()], me = mc_self();
    int s = mcp_connection_pool_get(P, limit);
    if (s == INVALID_SOCKET) {
        if (!destroyed && failed_by[me] == f0) { if (limit < 0) mc_fail("no-connection", "a borrower without time limit fails"); if (limit > 0 && mc_now_ms() - t0 < (uint64_t)limit) mc_fail("no-connection", "a borrower fails after %d of %d ms", (int)(mc_now_ms() - t0), limit); }
        return -1;
    }
    if (!is(s)) mc_fail("not-a-connection", "descriptor %d", s);
    if (!fd[s - FD0].open) mc_fail("closed-lent", "a closed connection is lent");
    if (!fd[s - FD0].connected) mc_fail("not-connected-lent", "a connection that was not established is lent");
    if (fd[s - FD0].lent) mc_fail("lent-twice", "a connection is lent to two borrowers");
    if (fd[s - FD0].peeked) mc_fail("unhealthy-lent", "a connection found dead is lent");
    if (idle_ms > 0 && fd[s - FD0].idle && mc_now_ms() - fd[s - FD0].idle > (uint64_t)idle_ms + 1000 && t0 - fd[s - FD0].idle > (uint64_t)idle_ms + 1000) mc_fail("timed-out-lent", "a connection that was idle for %d ms is lent", (int)(t0 - fd[s - FD0].idle));
    fd[s - FD0].lent = me + 1; lends++;
    return s;
}
static void give(int s, int valid) {
    if (s < 0) return;
    int me = mc_self(); if (!fd[s - FD0].open || fd[s - FD0].lent != me + 1) mc_fail("lost-while-lent", "a connection changed hands while it was lent");
    /* it may be lent to somebody else before release returns */
    fd[s - FD0].lent = 0; fd[s - FD0].idle = 0; if (fd[s - FD0].dead) fd[s - FD0].peeked = 0; releasing[me] = s;
    int l = lends;
    if (mcp_connection_pool_release(P, s, valid)) mc_fail("release", "a connection cannot be released");
    releasing[me] = -1; if (valid && lends == l && fd[s - FD0].open && !fd[s - FD0].lent) fd[s - FD0].idle = mc_now_ms();
}
static void mk(int min, int max, int idle, int hc) { for (int i = 0; i < 16; i++) releasing[i] = -1; idle_ms = idle; health = hc; maintained = min > 0 || idle > 0; max_conns = max; P = mcp_connection_pool_create("h", 77, min, max, idle, 50, hc, 10); if (!P) mc_fail("create", "the pool cannot be created"); }
static int lent_now(void) { int n = 0; for (int i = 0; i < NFD; i++) n += fd[i].open && fd[i].lent; return n; }
static void counts(void) {      /* nobody else is in the pool */
    size_t t, i, a; if (mcp_connection_pool_get_stats(P, &t, &i, &a, NULL, NULL)) mc_fail("stats", "no statistics");
    int busy = maintained && t == i + a + 1;      /* the maintenance opens or closes one */
    if ((int)a != lent_now() || (t != i + a && !busy) || ((int)t != n_open && !maintained)) mc_fail("stats", "%zu connections, %zu idle, %zu lent reported; %d open, %d lent", t, i, a, n_open, lent_now());
}
static void end(void) { destroyed = 1; mcp_connection_pool_destroy(P); if (n_open != lent_now()) mc_fail("not-closed", "%d connections are open after the pool was destroyed", n_open); }
static void use(int s) { if (s >= 0) mc_point(); }

static int lim = -1;
static void t_once(void *a) { int s = take(lim); use(s); give(s, (int)(long)a); }
static void t_twice(void *a) { for (int i = 0; i < 2; i++) t_once(a); }
static void go(int n, void (**f)(void *), const long *a) { int t[4]; for (int i = 0; i < n; i++) t[i] = mc_spawn(f[i], (void *)a[i]); for (int i = 0; i < n; i++) mc_join(t[i]); }
#define GO(n, ...) do { void (*f_[])(void *) = {__VA_ARGS__}; go(n, f_, args); } while (0)

static void s_one(void) { mk(0, 1, 0, 0); long args[] = {mc_choose_free(2), mc_choose_free(2), 1}; GO(3, t_once, t_once, t_once); counts(); if (lends != 3) mc_fail("lends", "%d of 3 borrowers got a connection", lends); end(); }
static void s_two(void) { mk(0, 2, 0, 0); long args[] = {1, mc_choose_free(2), 1}; GO(3, t_twice, t_once, t_once); counts(); if (lends != 4) mc_fail("lends", "%d of 4 borrowers got a connection", lends); end(); }
static void s_slow(void) { slow = 1; mk(0, 1, 0, 0); long args[] = {1, 0}; GO(2, t_once, t_once); counts(); end(); }
static void s_limit(void) { mk(0, 1, 0, 0); lim = 20; int s = take(-1); long args[] = {1, 1}; int t = mc_spawn(t_once, (void *)1), u = mc_spawn(t_once, (void *)1); mc_block_until_timed(never, NULL, 10); give(s, mc_choose_free(2)); mc_join(t); mc_join(u); counts(); if (take(0) < 0) mc_fail("no-connection", "a borrower fails although there is room"); (void)args; counts(); end(); }
/* connecting fails: those who wait for room get it */
static void s_fail(void) { slow = mc_choose_free(2); fails = 1; faults = 1; mk(0, 1, 0, 0); long args[] = {1, 1}; GO(2, t_once, t_once); counts(); end(); }
static void t_nowait(void *a) { int s = take(0); use(s); give(s, 1); }
static void s_fail_now(void) { fails = 1; faults = 1; mk(0, 1, 0, 0); long args[] = {1, 1}; GO(2, t_nowait, t_once); counts(); end(); }
static void s_fail_lent(void) { fails = 1; faults = 2; mk(0, 2, 0, 0); long args[] = {1, 0, 1}; GO(3, t_once, t_once, t_once); counts(); end(); }
/* maintenance: minimum, idle time, health */
static void s_min(void) { mk(1, 1, 0, 0); long args[] = {0, 1}; GO(2, t_once, t_once); mc_block_until_timed(never, NULL, 1100); mc_block_until_timed(never, NULL, 900); counts(); end(); }
static void t_late(void *a) { mc_block_until_timed(never, NULL, (uint64_t)(long)a); t_once((void *)1); }
static void s_idle(void) { mk(0, 2, 500, 0); int s = take(-1), u = take(-1); give(s, 1); give(u, 1); long args[] = {2000, 2000}; GO(2, t_late, t_late); end(); }
static void s_idle_one(void) { mk(0, 1, 500, 0); int s = take(-1); give(s, 1); long args[] = {2000, 2000}; GO(2, t_late, t_late); end(); }
static void s_min_idle(void) { mk(1, 1, 500, 0); long args[] = {2000, 3000}; GO(2, t_late, t_late); end(); }
static void s_health(void) { mk(0, 2, 0, 1000); int s = take(-1), u = take(-1); give(s, 1); give(u, 1); fd[0].dead = mc_choose_free(3); fd[1].dead = mc_choose_free(2); long args[] = {0, 1500}; GO(2, t_once, t_once); end(); }
static void s_health_min(void) { mk(1, 1, 0, 1000); mc_block_until_timed(never, NULL, 10); if (mc_choose_free(2)) fd[0].dead = 1; long args[] = {990, 990}; GO(2, t_late, t_late); end(); }
static void s_health_two(void) { mk(2, 2, 0, 1000); if (mc_choose_free(2)) fd[0].dead = 1; if (mc_choose_free(2)) fd[1].dead = 2; long args[] = {990, 990}; GO(2, t_late, t_late); end(); }
/* destroying the pool */
static int inside, gone;
int __real_mcp_cond_wait(void *, void *); int __wrap_mcp_cond_wait(void *c, void *m) { inside++; return __real_mcp_cond_wait(c, m); }
int __real_mcp_cond_timedwait(void *, void *, uint32_t); int __wrap_mcp_cond_timedwait(void *c, void *m, uint32_t t) { inside++; return __real_mcp_cond_timedwait(c, m, t); }
static int two_inside(void *x) { (void)x; return inside >= 2; }
static int connecting(void *x) { (void)x; return made > 0; }
static void t_wait(void *a) { int s = mcp_connection_pool_get(P, (int)(long)a); if (s != INVALID_SOCKET) { if (gone) mc_fail("lent-after-destroy", "a connection is lent by a pool that was destroyed"); if (!fd[s - FD0].open) mc_fail("closed-lent", "a closed connection is lent"); fd[s - FD0].lent = mc_self() + 1; } }
static void s_destroy(void) { mk(0, 1, 0, 0); take(-1); int t = mc_spawn(t_wait, (void *)-1L), u = mc_spawn(t_wait, (void *)30L); mc_block_until(two_inside, NULL); destroyed = 1; mcp_connection_pool_destroy(P); gone = 1; mc_join(t); mc_join(u); }
static void s_destroy_connecting(void) { slow = mc_choose_free(2); mk(0, 2, 0, 0); int t = mc_spawn(t_wait, (void *)-1L); mc_block_until(connecting, NULL); destroyed = 1; mcp_connection_pool_destroy(P); gone = 1; mc_join(t); if (n_open != lent_now()) mc_fail("not-closed", "%d connections are open after the pool was destroyed", n_open); }
static void s_destroy_min(void) { slow = mc_choose_free(2); mk(1, 2, 500, 1000); int s = mc_choose_free(2) ? take(-1) : -1; mc_block_until_timed(never, NULL, (uint64_t[]){0, 900, 1500, 2500}[mc_choose_free(4)]); give(s, mc_choose_free(2)); end(); }
/* two connections come back to two who wait; the maintenance and borrowers open connections at the same moment */
static void s_waiters(void) { mk(0, 2, 0, 0); int b = take(-1), c = take(-1), o = mc_choose_free(2), v = mc_choose_free(2), w = mc_choose_free(2); long n = mc_choose_free(2) ? 3 : 2; int t[3]; for (long i = 0; i < n; i++) t[i] = mc_spawn(t_once, (void *)1); mc_block_until(two_inside, NULL); give(o ? b : c, v); give(o ? c : b, w); for (long i = 0; i < n; i++) mc_join(t[i]); counts(); if (lends != 2 + n) mc_fail("lends", "%d of %ld borrowers got a connection", lends - 2, n); end(); }
static void s_min_two(void) { slow = mc_choose_free(2); mk(2, 2, 0, 0); int b = take(-1), c = take(-1); give(b, 0); give(c, mc_choose_free(2)); long args[] = {(long[]){999, 1000, 1003}[mc_choose_free(3)], (long[]){999, 1000, 1003}[mc_choose_free(3)]}; GO(2, t_late, t_late); end(); }
/* everything one borrower can do, one step after the other, with the maintenance running */
static void s_steps(void) {
    static const struct { int min, max, idle, hc; } C[] = {{0, 1, 0, 0}, {0, 2, 500, 0}, {1, 2, 500, 1000}, {2, 2, 0, 1000}};
    int c = mc_choose_free(4); mk(C[c].min, C[c].max, C[c].idle, C[c].hc); int b[4], n = 0;
    for (int k = 0; k < 5; k++) {
        int o = mc_choose_free(7);
        if (o == 0) { int s = take(n < max_conns ? -1 : 0); if (s >= 0) b[n++] = s; else if (n < max_conns) mc_fail("no-connection", "a borrower fails"); }
        else if (o == 1 || o == 2) { if (n) { give(b[0], o == 1); b[0] = b[--n]; } }
        else if (o == 3) mc_block_until_timed(never, NULL, 700);
        else if (o == 4) mc_block_until_timed(never, NULL, 2600);
        else if (o == 5) { for (int i = 0; i < NFD; i++) if (fd[i].open && !fd[i].lent && !fd[i].dead) { fd[i].dead = 1; break; } }
        else { if (n > 1) { give(b[n - 1], 1); n--; } else break; }
        counts();
    }
    while (n) give(b[--n], 1); counts(); end();
}
static const mc_scenario SC[] = {
    {"waiters", NULL, s_waiters, 1, 2, 0, "two connections are released while 2 or 3 borrowers wait"},
    {"min-two", NULL, s_min_two, 1, 2, 0, "2 borrowers while the maintenance restores the minimum of 2"},
    {"one", NULL, s_one, 2, 3, 0, "3 borrowers of one connection, released usable or not"},
    {"one-spurious", NULL, s_one, 1, 2, MC_SPURIOUS, "the same with spurious wake-ups"},
    {"two", NULL, s_two, 1, 2, 0, "4 uses of 2 connections"},
    {"slow", NULL, s_slow, 2, 4, 0, "establishing a connection takes a while"},
    {"limit", NULL, s_limit, 2, 3, 0, "2 borrowers with a time limit"},
    {"fail", NULL, s_fail, 2, 4, 0, "a connection cannot be established while another borrower waits"},
    {"fail-now", NULL, s_fail_now, 2, 4, 0, "the same, the first borrower does not wait"},
    {"fail-lent", NULL, s_fail_lent, 1, 2, 0, "two failures, 3 borrowers, 2 connections"},
    {"min", NULL, s_min, 2, 3, 0, "the maintenance opens connections while borrowers use them"},
    {"idle", NULL, s_idle, 1, 2, 0, "idle connections are closed while borrowers come"},
    {"idle-one", NULL, s_idle_one, 1, 2, 0, "the same with one connection"},
    {"min-idle", NULL, s_min_idle, 1, 2, 0, "the only connection is closed and replaced by the maintenance"},
    {"health", NULL, s_health, 2, 3, 0, "dead connections are found when they are borrowed"},
    {"health-min", NULL, s_health_min, 1, 2, 0, "the maintenance examines a connection while borrowers come"},
    {"health-two", NULL, s_health_two, 1, 2, 0, "the same with two connections"},
    {"destroy", NULL, s_destroy, 2, 3, 0, "the pool is destroyed while borrowers wait"},
    {"destroy-connecting", NULL, s_destroy_connecting, 2, 4, 0, "the pool is destroyed while a borrower connects"},
    {"destroy-min", NULL, s_destroy_min, 1, 2, 0, "the pool is destroyed while it is maintained"},
    {"steps", NULL, s_steps, 0, 1, 0, "5 steps of one borrower with the maintenance running"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
