/* D02: concurrent operations on a thread-safe list take effect one at a time in some order. */
#include "mcrt.h"
#include "mcp_list.h"
#include "mcp_buffer_pool.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* the pool of nodes is checked on its own (O01); here each of its operations is one step */
void *__real_mcp_buffer_pool_acquire(mcp_buffer_pool_t *p);
void *__wrap_mcp_buffer_pool_acquire(mcp_buffer_pool_t *p) { mc_atomic_begin(); void *r = __real_mcp_buffer_pool_acquire(p); mc_atomic_end(); return r; }
void __real_mcp_buffer_pool_release(mcp_buffer_pool_t *p, void *b);
void __wrap_mcp_buffer_pool_release(mcp_buffer_pool_t *p, void *b) { mc_atomic_begin(); __real_mcp_buffer_pool_release(p, b); mc_atomic_end(); }

enum { PF, PB, OF, OB, CLR, FIND, MVL, MV, INS, INL, REM, NOPS };
static const char *NAME[] = {"push front", "push back", "pop front", "pop back", "clear", "find", "move last to front", "move first to front", "insert after first", "insert after last", "remove"};
typedef struct { int op, v, s, e; long res; } ev;
static ev H[8]; static int nh, clk; static mcp_list_t *L;
static int val[32], init, released[32]; static mcp_list_node_t *N[4];
typedef struct { int op[3], n, base; } prog; static prog P[3];
static int cmp(const void *a, const void *b) { return a == b ? 0 : 1; }
static void rel(void *p) { int i = (int)((int *)p - val); if (released[i]++) mc_fail("released-twice", "element %d is released twice", i); }
static void thread(void *a) {
    prog *p = a;
    for (int i = 0; i < p->n; i++) {
        int h = nh++, v = p->base + i; H[h] = (ev){p->op[i], v, clk++, 1000, 0}; void *r = NULL;
        switch (p->op[i]) {
        case PF: r = mcp_list_push_front(L, &val[v]); r = r ? NULL : &val[31]; break;
        case PB: r = mcp_list_push_back(L, &val[v]); r = r ? NULL : &val[31]; break;
        case OF: r = mcp_list_pop_front(L); break;
        case OB: r = mcp_list_pop_back(L); break;
        case CLR: mcp_list_clear(L, rel); break;
        case FIND: r = mcp_list_find(L, &val[0], cmp) ? &val[0] : NULL; break;
        case MV: mcp_list_move_to_front(L, N[0]); break;
        case MVL: mcp_list_move_to_front(L, N[init - 1]); break;
        case INS: r = mcp_list_insert_after(L, N[0], &val[v]); r = r ? NULL : &val[31]; break;
        case INL: r = mcp_list_insert_after(L, N[init - 1], &val[v]); r = r ? NULL : &val[31]; break;
        case REM: r = mcp_list_remove(L, N[1], NULL); break;
        }
        H[h].res = r ? (int *)r - val : -1; H[h].e = clk++;
    }
}
/* some order of the operations, compatible with which came after which, explains every answer and the list left over */
static int fin[32], nfin;
static int explain(int done, const int *q, int n, unsigned gone) {
    if (done == (1 << nh) - 1) { if (n != nfin || memcmp(q, fin, (size_t)n * sizeof *q)) return 0; for (int i = 0; i < 32; i++) if (!!(gone >> i & 1) != !!released[i]) return 0; return 1; }
    for (int h = 0; h < nh; h++) {
        if (done >> h & 1) continue;
        int first = 1; for (int g = 0; g < nh; g++) if (!(done >> g & 1) && g != h && H[g].e < H[h].s) first = 0;
        if (!first) continue;
        int r[32], m = n, res = -1; unsigned go = gone; memcpy(r, q, sizeof r);
        int ins = -1, del = -1, v = H[h].v, at0 = -1, at1 = -1, atl = -1;
        for (int i = 0; i < m; i++) { if (r[i] == 0) at0 = i; if (r[i] == 1) at1 = i; if (r[i] == init - 1) atl = i; }
        switch (H[h].op) {
        case PF: ins = 0; break; case PB: ins = m; break;
        case OF: if (m) { del = 0; res = r[0]; } break; case OB: if (m) { del = m - 1; res = r[m - 1]; } break;
        case CLR: for (int i = 0; i < m; i++) go |= 1u << r[i]; m = 0; break;
        case FIND: res = at0 >= 0 ? 0 : -1; break;
        case MV: del = at0; ins = 0; v = 0; break; case MVL: del = atl; ins = 0; v = init - 1; break;
        case INS: ins = at0 + 1; break; case INL: ins = atl + 1; break;
        case REM: del = at1; res = 1; break;
        }
        if (res != H[h].res) continue;
        if (del >= 0) { memmove(r + del, r + del + 1, (size_t)(m - del - 1) * sizeof *r); m--; }
        if (ins >= 0) { memmove(r + ins + 1, r + ins, (size_t)(m - ins) * sizeof *r); r[ins] = v; m++; }
        if (explain(done | 1 << h, r, m, go)) return 1;
    }
    return 0;
}
static void go(int threads, const int *ops, int nops, int per, int mininit, int maxinit) {
    memset(released, 0, sizeof released); nh = clk = 0;
    init = mininit + mc_choose_free(maxinit - mininit + 1);
    L = mcp_list_create(MCP_LIST_THREAD_SAFE); if (!L) mc_fail("create", "no list");
    for (int i = 0; i < init; i++) N[i] = mcp_list_push_back(L, &val[i]);
    for (int t = 0; t < threads; t++) { P[t].n = per; P[t].base = 4 + 4 * t; for (int i = 0; i < per; i++) P[t].op[i] = ops[mc_choose_free(nops)]; }
    int rem = 0; for (int t = 0; t < threads; t++) for (int i = 0; i < per; i++) rem += P[t].op[i] == REM;
    if (rem > 1) { mcp_list_destroy(L, NULL); mc_outcome("skipped"); return; }     /* a removed element is not named again */
    int id[3]; for (int t = 0; t < threads; t++) { for (int i = 0; i < per; i++) mc_trace("thread %d: %s", t + 1, NAME[P[t].op[i]]); id[t] = mc_spawn(thread, &P[t]); }
    for (int t = 0; t < threads; t++) mc_join(id[t]);
    nfin = 0; mcp_list_node_t *prev = NULL, *x = L->head;
    for (; x; prev = x, x = x->next) { if (nfin > 20) mc_fail("loop", "the list has become a loop"); if (x->prev != prev) mc_fail("backwards", "the list differs from behind"); fin[nfin++] = (int)((int *)x->data - val); }
    if (L->tail != prev) mc_fail("backwards", "the last element is not the end of the list");
    if (mcp_list_size(L) != (size_t)nfin) mc_fail("size", "size %zu with %d elements", mcp_list_size(L), nfin);
    int q[32]; for (int i = 0; i < init; i++) q[i] = i;
    if (!explain(0, q, init, 0)) {
        char b[200]; int k = 0; for (int i = 0; i < nh; i++) k += snprintf(b + k, sizeof b - (size_t)k, "%s=%ld ", NAME[H[i].op], H[i].res); k += snprintf(b + k, sizeof b - (size_t)k, "left:"); for (int i = 0; i < nfin && k < 180; i++) k += snprintf(b + k, sizeof b - (size_t)k, " %d", fin[i]);
        mc_fail("no-order", "no order of the operations explains %s (initially %d)", b, init);
    }
    mc_outcome("%d left", nfin);
    mcp_list_destroy(L, NULL);
}
static void ends2(void) { static const int o[] = {PF, PB, OF, OB, CLR}; go(2, o, 5, 2, 0, 1); }
static void ends3(void) { static const int o[] = {OF, OB, PB, CLR, FIND}; go(3, o, 5, 1, 0, 2); }
static void inner2(void) { static const int o[] = {MV, MVL, INS, INL, PB, PF}; go(2, o, 6, 2, 2, 3); }
static void inner3(void) { static const int o[] = {MVL, INL, PB, PF, INS, MV}; go(3, o, 6, 1, 2, 2); }
static void rem3(void) { static const int o[] = {REM, PF, MVL, INL, PB, FIND, MV}; go(3, o, 7, 1, 3, 3); }
/* lists created and destroyed at the same time as others are used share the pool of nodes */
static void life(void *a) { long v = (long)a; mcp_list_t *l = mcp_list_create(MCP_LIST_THREAD_SAFE); if (!l) mc_fail("create", "no list"); mcp_list_push_back(l, &val[v]); mcp_list_push_front(l, &val[v + 1]);
    void *p = mcp_list_pop_back(l), *q = mcp_list_pop_back(l); if (p != &val[v] || q != &val[v + 1]) mc_fail("popped", "another element"); mcp_list_push_back(l, &val[v]); mcp_list_destroy(l, NULL); }
static void lives(void) { size_t b0 = mc_live_blocks(); int a = mc_spawn(life, (void *)2L), b = mc_spawn(life, (void *)6L); mc_join(a); mc_join(b); if (mc_live_blocks() > b0) mc_fail("leak", "%zu blocks left", mc_live_blocks() - b0); mc_outcome("done"); }
static const mc_scenario S[] = {
    {"ends2", NULL, ends2, 2, 2, 0, "two threads of two pushes, pops and clears each, all programs, lists of 0-1"},
    {"ends3", NULL, ends3, 1, 2, 0, "three threads of one pop, push, clear or find each, lists of 0-2"},
    {"inner2", NULL, inner2, 1, 2, 0, "two threads of two moves and insertions each, lists of 2-3"},
    {"inner3", NULL, inner3, 1, 2, 0, "three threads of one move or insertion each"},
    {"remove", NULL, rem3, 1, 2, 0, "three threads, one removes an element while others push, move and insert"},
    {"lives", NULL, lives, 3, 4, 0, "two threads create, use and destroy lists of their own"},
};
int main(int c, char **v) { return mc_main(c, v, S, sizeof S / sizeof *S); }
