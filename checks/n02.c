/* N02: addresses from the resolver's cache are the right ones, recent, and valid while they are in use. */
#include "mcrt.h"
#include "internal/connection_pool_internal.h"
#include <netdb.h>
#include <netinet/in.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
extern size_t __real_strlen(const char *); extern void *__real_memset(void *, int, size_t);

typedef struct { struct addrinfo a; struct sockaddr_in in; int host, port; uint64_t at; } entry;      /* what the resolver gives out */
static int lookups, lists, fail_next;
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **out) {
    mc_point(); lookups++; if (__real_strlen(h) > 253) return EAI_NONAME; if (fail_next) { fail_next--; return EAI_AGAIN; }
    entry *e = calloc(1, sizeof *e); e->host = h[0] == 'h' ? atoi(h + 1) : -1; e->port = atoi(p); e->at = mc_now_ms(); e->a.ai_addr = (void *)&e->in; lists++; *out = &e->a; mc_point(); return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { lists--; free(a); }
static struct addrinfo hints;
static uint64_t now0;
static entry *get(int host, int port) {
    char n[16]; snprintf(n, sizeof n, "h%d", host); uint64_t t0 = mc_now_ms(); struct addrinfo *a = dns_cache_get(n, port, &hints); if (!a) return NULL;
    if (!mc_ptr_live(a, sizeof(entry))) mc_fail("released", "the address of host %d is released when it is returned", host);
    entry *e = (entry *)a; if (e->host != host || e->port != port) mc_fail("wrong-host", "host %d:%d resolved as %d:%d", host, port, e->host, e->port);
    if (t0 > e->at && t0 - e->at > 301000) mc_fail("expired", "an address resolved %d s ago is used", (int)((t0 - e->at) / 1000));
    return e;
}
static entry *need(int host, int port) { entry *e = get(host, port); if (!e) mc_fail("no-address", "host %d is not resolved", host); return e; }
static void good(entry *e, int host, int port) { if (!mc_ptr_live(e, sizeof *e)) mc_fail("released", "the address of host %d is released while it is in use", host); if (e->host != host || e->port != port) mc_fail("wrong-host", "the address of host %d changed while in use", host); }
static void use(int host) { entry *e = need(host, 77); mc_point(); good(e, host, 77); dns_cache_release(&e->a); }
static void t_use(void *a) { use((int)(long)a); }
static void t_use2(void *a) { use((int)(long)a); use((int)(long)a); }
static void t_clear(void *a) { dns_cache_clear(); }
static void begin(void) { dns_cache_init(); now0 = mc_now_ms(); }
static void end(void) { dns_cache_clear(); if (lists) mc_fail("kept", "%d address lists stay in the cache when nobody uses them and it is cleared", lists); dns_cache_cleanup(); if (lists) mc_fail("leak", "%d address lists are not released", lists); }
static void go(int n, void (*f)(void *), long a, void (*g)(void *), long b, void (*h)(void *), long c) { int t = mc_spawn(f, (void *)a), u = mc_spawn(g, (void *)b), v = n > 2 ? mc_spawn(h, (void *)c) : 0; mc_join(t); mc_join(u); if (n > 2) mc_join(v); }
static void fill(int n) { for (int i = 0; i < n; i++) use(100 + i); }

static void s_same(void) { begin(); go(3, t_use, 1, t_use, 1, t_use, 1); int l = lookups; use(1); if (lookups != l) mc_fail("not-cached", "a host is resolved again at once"); end(); }
static void s_other(void) { begin(); go(3, t_use2, 1, t_use, 2, t_use, 1); end(); }
static void s_full(void) { begin(); fill(16); go(2, t_use2, 1, t_use, 2, NULL, 0); end(); }
static void s_used(void) { begin(); entry *e[16]; int held = mc_choose_free(2) ? 16 : 15; for (int i = 0; i < 16; i++) { e[i] = need(200 + i, 77); if (i >= held) dns_cache_release(&e[i]->a); } go(2, t_use, 1, t_use, 2, NULL, 0); for (int i = 0; i < held; i++) { good(e[i], 200 + i, 77); dns_cache_release(&e[i]->a); } end(); }
static void s_clear(void) { begin(); if (mc_choose_free(2)) use(1); go(3, t_use2, 1, t_clear, 0, t_use, 2); end(); }
static void t_late(void *a) { mc_advance_ms(200000); use((int)(long)a); mc_advance_ms(200000); use((int)(long)a); }
static void s_expired(void) { begin(); go(2, t_use2, 1, t_late, 1, NULL, 0); end(); }
static void t_first(void *a) { dns_cache_init(); use((int)(long)a); }
static void s_init(void) { go(2, t_first, 1, t_first, 2, NULL, 0); end(); }
static void s_steps(void) {
    begin(); int pre = mc_choose_free(3); entry *held[16]; int n = 0; if (pre == 1) fill(15); if (pre == 2) for (int i = 0; i < 8; i++) use(100 + i);
    for (int k = 0; k < 5; k++) {
        int o = mc_choose_free(8);
        if (o < 3) { int h = o == 2 ? 1 : o + 1, p = o == 2 ? 78 : 77; held[n++] = need(h, p); }
        else if (o == 3) { if (n) { good(held[0], held[0]->host, held[0]->port); dns_cache_release(&held[0]->a); held[0] = held[--n]; } }
        else if (o == 4) { if (n) { good(held[n - 1], held[n - 1]->host, held[n - 1]->port); dns_cache_release(&held[--n]->a); } }
        else if (o == 5) dns_cache_clear();
        else if (o == 6) mc_advance_ms(200000);
        else { fail_next = 1; entry *e = get(3, 77); if (e && fail_next) { held[n++] = e; } else if (e) mc_fail("no-address", "a host that cannot be resolved has an address"); fail_next = 0; }
        for (int i = 0; i < n; i++) if (!mc_ptr_live(held[i], sizeof(entry))) mc_fail("released", "an address is released while it is in use");
    }
    while (n) dns_cache_release(&held[--n]->a);
    end();
}
static void s_long(void) {
    begin(); static const int len[] = {1, 63, 200, 245, 248, 249, 250, 251, 252, 253, 254, 300}; char n[320];
    for (int i = 0; i < 12; i++) for (int k = (dns_cache_clear(), 0); k < 9; k++) {
        static const int P[] = {1, 12, 65535, 65534, 6553, 655, 65, 6, 60000}; __real_memset(n, 'a', 320); n[len[i]] = 0; n[0] = 'h'; if (len[i] > 1) n[1] = '0' + k % 3;
        struct addrinfo *a = dns_cache_get(n, P[k], &hints); if (len[i] > 253) { if (a) mc_fail("no-address", "a name no host can have is resolved"); continue; }
        if (!a) { mc_fail("no-address", "a host with a name of %d bytes is not resolved", len[i]); continue; }
        entry *e = (entry *)a; if (e->port != P[k] || (len[i] > 1 && e->host != k % 3)) mc_fail("wrong-host", "a host with a name of %d bytes and port %d is resolved with port %d", len[i], P[k], e->port); dns_cache_release(a);
    }
    end();
}
static void s_ports(void) {      /* ports that differ in one bit, and hosts whose names and ports run together */
    begin(); int base = mc_choose_free(3), b = mc_choose_free(16), p = base == 0 ? 80 : base == 1 ? 65535 : 4242, q = p ^ (1 << b); if (!q) q = 1;
    for (int k = 0; k < 2; k++) { entry *e = need(1, p), *f = need(1, q), *g = need(1 + k * 10, p); good(e, 1, p); good(f, 1, q); dns_cache_release(&e->a); dns_cache_release(&f->a); dns_cache_release(&g->a); }
    end();
}
static void s_age(void) {        /* an address used again and again is still resolved anew when its time is over */
    begin(); int n = 1 + mc_choose_free(5), gap = mc_choose_free(3), hold = mc_choose_free(2); entry *h = hold ? need(1, 77) : NULL;
    for (int i = 0; i < n; i++) { use(1); mc_advance_ms(gap * 25000); }
    for (int i = 0; i < 30; i++) { mc_advance_ms(i < 6 ? 49000 : 1100); use(1); }
    if (h) { good(h, 1, 77); dns_cache_release(&h->a); } end();
}
static const mc_scenario SC[] = {
    {"ports", NULL, s_ports, 0, 0, 0, "pairs of ports that differ in one bit"},
    {"age", NULL, s_age, 0, 0, 0, "an address asked for 31-35 times over more than its time"},
    {"same", NULL, s_same, 2, 3, 0, "3 threads resolve one host"},
    {"other", NULL, s_other, 1, 2, 0, "3 threads resolve two hosts"},
    {"full", NULL, s_full, 2, 3, 0, "2 threads resolve hosts when the cache is full"},
    {"used", NULL, s_used, 2, 3, 0, "the same while 15 or all 16 entries are in use"},
    {"clear", NULL, s_clear, 1, 2, 0, "the cache is cleared meanwhile"},
    {"expired", NULL, s_expired, 3, 4, 0, "entries expire meanwhile"},
    {"init", NULL, s_init, 3, 4, 0, "two threads use the cache for the first time"},
    {"long", NULL, s_long, 0, 0, 0, "names of 1 to 300 bytes with ports of 1 to 5 digits"},
    {"steps", NULL, s_steps, 0, 0, 0, "5 steps with up to 5 addresses in use"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
