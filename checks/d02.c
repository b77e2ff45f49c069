/* D02: all sequences of list operations up to a bound against a plain array. */
#include "seqx.h"
#include "mcp_list.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static int val[64]; static mcp_list_node_t *node[64]; static int released[64];
static int R[64], n, nv; static mcp_list_t *L;
static void rel(void *p) { int i = (int)((int *)p - val); SX_CHECK(i >= 0 && i < nv && !released[i], "released-twice", "element %d is released again", i); released[i] = 1; }
static int cmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static void insert(int at, int v, mcp_list_node_t *nd) { SX_CHECK(nd, "insert", "nothing inserted"); memmove(R + at + 1, R + at, (size_t)(n - at) * sizeof *R); R[at] = v; n++; node[v] = nd; }
static void drop(int at) { memmove(R + at, R + at + 1, (size_t)(n - at - 1) * sizeof *R); n--; }
static void check(void) {
    int i = 0; sx_op();
    for (mcp_list_iterator_t it = mcp_list_iterator_begin(L); mcp_list_iterator_is_valid(&it); mcp_list_iterator_next(&it), i++) { SX_CHECK(i < n, "longer", "more than %d elements", n); SX_CHECK(mcp_list_iterator_get_data(&it) == &val[R[i]], "order", "element %d is another", i); SX_CHECK(it.node == node[R[i]], "handle", "the handle of element %d has changed", i); }
    SX_CHECK(i == n, "shorter", "%d instead of %d elements", i, n);
    mcp_list_node_t *b = L->tail; for (i = n - 1; i >= 0; i--, b = b->prev) SX_CHECK(b && b->data == &val[R[i]], "backwards", "element %d is another from behind", i);
    SX_CHECK(!b, "backwards", "more elements from behind");
    SX_CHECK(mcp_list_size(L) == (size_t)n && mcp_list_is_empty(L) == (n == 0), "size", "size %zu with %d elements", mcp_list_size(L), n);
    for (i = 0; i < nv; i++) { int at = -1; for (int j = 0; j < n; j++) if (R[j] == i) at = j; mcp_list_node_t *f = mcp_list_find(L, &val[i], cmp); SX_CHECK(at < 0 ? !f : f == node[i], "find", "element %d", i); if (at >= 0) SX_CHECK(!released[i], "released-early", "element %d", i); }
}
static void one(void) {
    int ops[64], arg[64], k = 0;         /* what is possible now */
    for (int o = 0; o < 5; o++) { ops[k] = o; arg[k++] = 0; }
    for (int i = 0; i < n; i++) for (int o = 5; o < 9; o++) { ops[k] = o; arg[k++] = i; }
    int c = sx_choose(k), o = ops[c], a = arg[c];
    switch (o) {
    case 0: sx_note("push front"); val[nv] = nv; released[nv] = 0; insert(0, nv, mcp_list_push_front(L, &val[nv])); nv++; break;
    case 1: sx_note("push back"); val[nv] = nv; released[nv] = 0; insert(n, nv, mcp_list_push_back(L, &val[nv])); nv++; break;
    case 2: { sx_note("pop front"); void *p = mcp_list_pop_front(L); SX_CHECK(p == (n ? &val[R[0]] : NULL), "popped", "another element"); if (n) drop(0); break; }
    case 3: { sx_note("pop back"); void *p = mcp_list_pop_back(L); SX_CHECK(p == (n ? &val[R[n - 1]] : NULL), "popped", "another element"); if (n) drop(n - 1); break; }
    case 4: { sx_note("clear"); int keep = n; int old[64]; memcpy(old, R, sizeof R); mcp_list_clear(L, rel); n = 0; for (int i = 0; i < keep; i++) SX_CHECK(released[old[i]], "not-released", "element %d", old[i]); break; }
    case 5: { sx_note("remove %d", a); int v = R[a]; void *p = mcp_list_remove(L, node[v], NULL); SX_CHECK(p == &val[v] && !released[v], "removed", "another element"); drop(a); break; }
    case 6: { sx_note("remove and release %d", a); int v = R[a]; void *p = mcp_list_remove(L, node[v], rel); SX_CHECK(!p && released[v], "removed", "element %d is not released", v); drop(a); break; }
    case 7: { sx_note("move %d to front", a); int v = R[a]; mcp_list_move_to_front(L, node[v]); drop(a); memmove(R + 1, R, (size_t)n * sizeof *R); R[0] = v; n++; break; }
    case 8: { sx_note("insert after %d", a); val[nv] = nv; released[nv] = 0; insert(a + 1, nv, mcp_list_insert_after(L, node[R[a]], &val[nv])); nv++; break; }
    }
    check();
}
static void ops_run(void) {
    long l0 = sx_live(); n = nv = 0; L = mcp_list_create(sx_flip() ? MCP_LIST_THREAD_SAFE : MCP_LIST_NOT_THREAD_SAFE); SX_CHECK(L, "create", "no list");
    int depth = sx_thorough() ? 7 : 6; for (int d = 0; d < depth; d++) one();
    int keep = n; mcp_list_destroy(L, rel); for (int i = 0; i < keep; i++) SX_CHECK(released[R[i]], "not-released", "element %d outlives the list", R[i]);
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
/* several lists share their nodes' memory */
static void pair_run(void) {
    long l0 = sx_live(); mcp_list_t *A = mcp_list_create(sx_flip()), *B = NULL; int ca = 0, cb = 0; long next = 1, fa = 1, fb = 1; long qa[300], qb[300]; (void)fa; (void)fb;
    int sizes[] = {1, 2, 63, 64, 65, 66, 128, 130};
    for (int d = 0; d < (sx_thorough() ? 4 : 3); d++) {
        int s = sizes[sx_choose(8)], which = sx_choose(4);
        if (which == 0) for (int i = 0; i < s && ca < 290; i++) { qa[ca++] = next; mcp_list_push_back(A, (void *)next++); }
        else if (which == 1) { if (!B) B = mcp_list_create(0); for (int i = 0; i < s && cb < 290; i++) { qb[cb++] = next; mcp_list_push_back(B, (void *)next++); } }
        else if (which == 2) for (int i = 0; i < s && ca; i++) { void *p = mcp_list_pop_front(A); SX_CHECK(p == (void *)qa[0], "popped", "another element"); memmove(qa, qa + 1, (size_t)--ca * sizeof *qa); }
        else if (B) { mcp_list_destroy(B, NULL); B = NULL; cb = 0; }
        int i = 0; for (mcp_list_iterator_t it = mcp_list_iterator_begin(A); mcp_list_iterator_is_valid(&it); mcp_list_iterator_next(&it), i++) SX_CHECK(i < ca && mcp_list_iterator_get_data(&it) == (void *)qa[i], "order", "element %d of the first list", i);
        SX_CHECK(i == ca, "shorter", "%d of %d", i, ca);
        if (B) { i = 0; for (mcp_list_iterator_t it = mcp_list_iterator_begin(B); mcp_list_iterator_is_valid(&it); mcp_list_iterator_next(&it), i++) SX_CHECK(i < cb && mcp_list_iterator_get_data(&it) == (void *)qb[i], "order", "element %d of the second list", i); SX_CHECK(i == cb, "shorter", "%d of %d", i, cb); }
        sx_op();
    }
    mcp_list_destroy(A, NULL); if (B) mcp_list_destroy(B, NULL);
    SX_CHECK(sx_live() <= l0, "leak", "%ld blocks left", sx_live() - l0);
}
static const sx_scenario S[] = {
    {"ops", NULL, ops_run, 0, "all sequences of 6 (thorough 7) operations, each on every element"},
    {"pair", NULL, pair_run, 0, "two lists growing and shrinking past the size of the shared pool of nodes"},
};
int main(int c, char **v) { return sx_main(c, v, S, sizeof S / sizeof *S); }
