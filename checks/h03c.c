/* H03, threads: events stored and replayed at the same time. */
#include "mcrt.h"
#include "sthttp_transport_internal.h"
#include <stdio.h>
#include <stdlib.h>

#define NE 16
typedef struct { char id[24], data[24]; } ev;
typedef struct { ev e[NE]; int n, have; } conn;
static conn K[4];
static sse_stream_context_t *C;
extern void *__real_memcpy(void *, const void *, size_t);
static int pre(const char *s, const char *p) { while (*p && *s == *p) s++, p++; return !*p; }
/* collects the events written to a connection; one write holds any number of whole lines */
int __wrap_lws_write(struct lws *w, unsigned char *b, size_t n, enum lws_write_protocol pr) {
    (void)pr; conn *k = (conn *)w; mc_atomic_begin(); size_t i = 0;
    while (i < n) {
        char l[80]; int m = 0; while (i < n && b[i] != '\n') { if (m < 79) l[m++] = (char)b[i]; i++; } i++; l[m] = 0;
        if (k->n >= NE) mc_fail("harness", "too many events");
        ev *e = &k->e[k->n];
        if (!m) { if (k->have) k->n++; k->have = 0; }
        else { char *to = pre(l, "id: ") ? e->id : pre(l, "data: ") ? e->data : NULL; if (to) { if (!k->have) e->id[0] = e->data[0] = 0; k->have = 1; int o = to == e->id ? 4 : 6; int j = 0; for (; l[o + j] && j < 23; j++) to[j] = l[o + j]; to[j] = 0; } }
    }
    mc_atomic_end(); return (int)n;
}
int __wrap_lws_callback_on_writable(struct lws *w) { (void)w; return 0; }
static int num(const char *s) { int v = 0; if (!*s) return -1; for (; *s; s++) { if (*s < '0' || *s > '9') return -1; v = v * 10 + *s - '0'; } return v; }
static void tag(char *d, int t, int i) { d[0] = 'd'; d[1] = (char)('0' + t); d[2] = (char)('0' + i); d[3] = 0; }
static void t_store(void *a) { long t = (long)a / 10, n = (long)a % 10; for (int i = 0; i < n; i++) { char d[8]; tag(d, (int)t, i); sse_stream_context_store_event(C, NULL, "message", d); } }
/* what is replayed is a run of consecutive identifiers, each thread's events in its order */
static void consecutive(conn *k, int first, const char *what) {
    int seen[8] = {0}; for (int t = 0; t < 8; t++) seen[t] = -1;
    for (int i = 0; i < k->n; i++) {
        int v = num(k->e[i].id); if (v != first + i) mc_fail("identifier", "%s: event %d has identifier %s instead of %d", what, i, k->e[i].id, first + i);
        int t = k->e[i].data[1] - '0', s = k->e[i].data[2] - '0'; if (k->e[i].data[0] != 'd' || t < 0 || t > 7) mc_fail("data", "%s: event %d has data %s", what, i, k->e[i].data);
        if (seen[t] >= s) mc_fail("order", "%s: event %s comes after event %d of the thread", what, k->e[i].data, seen[t]); seen[t] = s;
    }
}
static int room, before, total;
static void t_replay(void *a) {          /* after identifier a (0: all) */
    int last = (int)(long)a; conn *k = &K[1 + (last > 0)]; char id[8]; id[0] = (char)('0' + last); id[1] = 0;
    int r = sse_stream_context_replay_events(C, (struct lws *)k, last ? id : NULL);
    if (r != k->n) mc_fail("count", "%d events reported, %d sent", r, k->n);
    if (!k->n) { if (before > last) mc_fail("missing", "nothing is replayed after %d of %d", last, before); return; }
    int f = num(k->e[0].id); consecutive(k, f, "replay");
    if (last) { if (f != last + 1 && k->n != room) mc_fail("start", "replay after %d starts with %d, %d events", last, f, k->n); }
    else if (f > 1 && k->n != room) mc_fail("start", "replay of all starts with %d, %d events", f, k->n);
    if (k->n > room) mc_fail("room", "%d events stored, room for %d", k->n, room);
    if (f + k->n - 1 < before) mc_fail("missing", "the replay ends with %d, %d were stored", f + k->n - 1, before);
}
static void begin(int r, int b) { room = r; before = b; mc_atomic_begin(); for (int i = 0; i < 4; i++) K[i].n = K[i].have = 0; C = sse_stream_context_create((size_t)r); t_store((void *)(long)(70 + b)); mc_atomic_end(); total = b; }
static void end(int stored) {
    total = before + stored; mc_atomic_begin(); conn *k = &K[0]; int r = sse_stream_context_replay_events(C, (struct lws *)k, NULL); int w = total < room ? total : room;
    if (r != w || k->n != w) mc_fail("lost", "%d events replayed in the end, %d are due", k->n, w);
    consecutive(k, total - w + 1, "end"); mc_outcome("%s %s", k->n ? k->e[0].data : "-", k->n ? k->e[k->n - 1].data : "-"); sse_stream_context_destroy(C); mc_atomic_end();
    if (mc_live_blocks()) mc_fail("leak", "%d blocks left", (int)mc_live_blocks());
}
static void go(int n, void (*f)(void *), long a, void (*g)(void *), long b, void (*h)(void *), long c) { int t = mc_spawn(f, (void *)a), u = mc_spawn(g, (void *)b), v = n > 2 ? mc_spawn(h, (void *)c) : 0; mc_join(t); mc_join(u); if (n > 2) mc_join(v); }
static void s_two(void) { begin(8, 1); go(2, t_store, 12, t_store, 22, NULL, 0); end(4); }
static void s_wrap(void) { begin(2, 2); go(2, t_store, 12, t_store, 22, NULL, 0); end(4); }
static void s_three(void) { begin(2, 1); go(3, t_store, 11, t_store, 21, t_store, 31); end(3); }
static void s_read(void) { begin(8, 2); go(2, t_store, 12, t_replay, 1, NULL, 0); end(2); }
static void s_readwrap(void) { begin(2, 2); go(3, t_store, 12, t_replay, 1, t_replay, 0); end(2); }
static void s_mix(void) { begin(2, 2); go(3, t_store, 11, t_store, 21, t_replay, 2); end(2); }
static const mc_scenario SC[] = {
    {"two", NULL, s_two, 6, 7, 0, "2 threads store 2 events each"},
    {"wrap", NULL, s_wrap, 6, 7, 0, "2 threads store 2 events each into a full store of 2"},
    {"three", NULL, s_three, 4, 5, 0, "3 threads store into room for 2"},
    {"read", NULL, s_read, 6, 7, 0, "a replay after an event while 2 are stored"},
    {"readwrap", NULL, s_readwrap, 3, 4, 0, "2 replays while 2 events overwrite the stored ones"},
    {"mixed", NULL, s_mix, 3, 4, 0, "2 threads store and one replays"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
