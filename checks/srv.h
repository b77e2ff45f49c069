/* A server on a stand-in transport, with tools and resources whose results are fixed by their names. */
#ifndef SRV_H
#define SRV_H
#include "seqx.h"
#include "refjson_mcp.h"
#include "mcp_server.h"
#include "mcp_transport.h"
#include "transport_internal.h"
#include "mcp_thread_pool.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_arena.h"
#include "mcp_thread_local.h"
#include "mcp_types.h"
#include "mcp_hashtable.h"
#include "mcp_json.h"
#include <stdbool.h>

/* the pool's threads take no part in answering messages */
mcp_thread_pool_t *__wrap_mcp_thread_pool_create(size_t n, size_t q) { (void)n; (void)q; return (mcp_thread_pool_t *)malloc(1); }
int __wrap_mcp_thread_pool_destroy(mcp_thread_pool_t *p) { free(p); return 0; }

static mcp_transport_message_callback_t sv_cb; static void *sv_cbud;
static int sv_start(mcp_transport_t *t, mcp_transport_message_callback_t cb, void *ud, mcp_transport_error_callback_t e) { (void)t; (void)e; sv_cb = cb; sv_cbud = ud; return 0; }
static int sv_stop(mcp_transport_t *t) { (void)t; sv_cb = NULL; return 0; }
static mcp_transport_t sv_tr;
static mcp_server_t *SV;

#define SV_CALLS 64
static struct { char kind; char name[64]; char args[256]; } sv_call[SV_CALLS];   /* handler calls seen */
static int sv_ncall;
static void sv_log(char kind, const char *name, const mcp_json_t *args) {
    if (sv_ncall >= SV_CALLS) sx_fail("too-many-calls", "more than %d handler calls", SV_CALLS);
    sv_call[sv_ncall].kind = kind;
    snprintf(sv_call[sv_ncall].name, sizeof sv_call->name, "%s", name);
    char *t = args ? mcp_json_stringify((mcp_json_t *)args) : NULL;
    snprintf(sv_call[sv_ncall].args, sizeof sv_call->args, "%s", t ? t : "");
    free(t);
    sv_ncall++;
}
static mcp_content_item_t *sv_item(mcp_content_type_t ty, const char *mime, const char *text) { return mcp_content_item_create(ty, mime, text, text ? strlen(text) + 1 : 0); }
static mcp_content_item_t **sv_items(size_t n) { return calloc(n, sizeof(mcp_content_item_t *)); }
static mcp_error_code_t sv_tool(mcp_server_t *s, const char *name, const mcp_json_t *args, void *ud, mcp_content_item_t ***c, size_t *n, bool *is_error, char **msg) {
    (void)s; (void)ud;
    sv_log('t', name, args);
    *c = NULL; *n = 0; *is_error = false; *msg = NULL;
    if (!strcmp(name, "echo")) {
        const char *x = NULL; mcp_json_t *v = args ? mcp_json_object_get_property(args, "x") : NULL;
        if (v) mcp_json_get_string(v, &x);
        *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", x ? x : "-"); *n = 1;
    } else if (!strcmp(name, "two")) { *c = sv_items(2); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", "a\"\n"); (*c)[1] = sv_item(MCP_CONTENT_TYPE_JSON, "application/json", "{\"k\":1}"); *n = 2; }
    else if (!strcmp(name, "zero")) { }
    else if (!strcmp(name, "hole")) { *c = sv_items(3); (*c)[1] = sv_item(MCP_CONTENT_TYPE_TEXT, NULL, "h"); *n = 3; }
    else if (!strcmp(name, "bare")) { *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, NULL, NULL); *n = 1; }
    else if (!strcmp(name, "soft")) { *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", "oops"); *n = 1; *is_error = true; }
    else if (!strcmp(name, "bad")) { *msg = strdup("no \"good\""); return MCP_ERROR_INVALID_PARAMS; }
    else if (!strcmp(name, "badmix")) { *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", "z"); *n = 1; return MCP_ERROR_INTERNAL_ERROR; }
    else { *msg = strdup("no such tool"); return MCP_ERROR_TOOL_NOT_FOUND; }
    return MCP_ERROR_NONE;
}
static int sv_serial;         /* when set, resource texts carry the number of the handler call */
static mcp_error_code_t sv_resource_as(char kind, const char *uri, mcp_content_item_t ***c, size_t *n, char **msg) {
    sv_log(kind, uri, NULL);
    *c = NULL; *n = 0; if (msg) *msg = NULL;
    char t[128]; snprintf(t, sizeof t, "%c<%s>%d", kind, uri, sv_serial ? sv_ncall : 0);
    if (strstr(uri, "none")) { if (msg) *msg = strdup("none"); return MCP_ERROR_RESOURCE_NOT_FOUND; }
    if (strstr(uri, "fail")) { *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", "partial"); *n = 1; return MCP_ERROR_FORBIDDEN; }
    if (strstr(uri, "empty")) return MCP_ERROR_NONE;
    if (strstr(uri, "two")) { *c = sv_items(2); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", t); (*c)[1] = sv_item(MCP_CONTENT_TYPE_TEXT, NULL, "second"); *n = 2; return MCP_ERROR_NONE; }
    if (strstr(uri, "hole")) { *c = sv_items(2); (*c)[1] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", t); *n = 2; return MCP_ERROR_NONE; }
    if (strstr(uri, "bin")) { *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_BINARY, "image/png", t); *n = 1; return MCP_ERROR_NONE; }
    *c = sv_items(1); (*c)[0] = sv_item(MCP_CONTENT_TYPE_TEXT, "text/plain", t); *n = 1;
    return MCP_ERROR_NONE;
}
static mcp_error_code_t sv_resource(mcp_server_t *s, const char *uri, void *ud, mcp_content_item_t ***c, size_t *n, char **msg) { (void)s; return sv_resource_as(ud ? *(char *)ud : 'r', uri, c, n, msg); }

static void sv_warm(void) {   /* what is created once per process and never released */
    mcp_memory_pool_system_init(64, 32, 16);
    mcp_thread_cache_init();
    mcp_server_config_t c; memset(&c, 0, sizeof c); mcp_server_capabilities_t k; memset(&k, 0, sizeof k);
    mcp_server_t *s = mcp_server_create(&c, &k);
    mcp_server_destroy(s);
    static void *b[1024];      /* the global pools keep what they grew to */
    for (size_t z = 16; z <= 65536; z *= 2) { int n = z <= 8192 ? 1024 : 64; for (int i = 0; i < n; i++) b[i] = mcp_pool_alloc(z); for (int i = 0; i < n; i++) mcp_pool_free(b[i]); }
    mcp_hashtable_t *h = mcp_hashtable_create(16, 0.75f, mcp_hashtable_string_hash, mcp_hashtable_string_compare, mcp_hashtable_string_dup, mcp_hashtable_string_free, NULL);
    for (int i = 0; i < 1024; i++) { char k[16]; sprintf(k, "%d", i); mcp_hashtable_put(h, k, h); }
    mcp_hashtable_destroy(h);
}
static long sv_live0;
static void sv_new(mcp_server_config_t *c, int resources, int tools, int rh, int th) {
    static mcp_server_config_t zero;
    mcp_server_capabilities_t k; memset(&k, 0, sizeof k); k.resources_supported = resources; k.tools_supported = tools;
    mcp_thread_cache_flush(); sv_live0 = sx_live(); sv_ncall = 0; rj_used = 0; sv_serial = 0;
    mcp_arena_init_current_thread(4096);
    SV = mcp_server_create(c ? c : &zero, &k);
    SX_CHECK(SV, "create", "the server cannot be created");
    if (rh) mcp_server_set_resource_handler(SV, sv_resource, NULL);
    if (th) mcp_server_set_tool_handler(SV, sv_tool, NULL);
    memset(&sv_tr, 0, sizeof sv_tr);
    sv_tr.type = MCP_TRANSPORT_TYPE_SERVER; sv_tr.server.start = sv_start; sv_tr.server.stop = sv_stop;
}
static void sv_run(void) { SX_CHECK(mcp_server_start(SV, &sv_tr) == 0 && sv_cb, "start", "the server cannot be started"); }
static char *sv_send_n(const char *text, size_t n, int *err) {
    char *m = malloc(n ? n : 1); memcpy(m, text, n);      /* exact block: reads outside it are caught */
    int e = 0; char *r = sv_cb(sv_cbud, m, n, &e);
    free(m); sx_op();
    if (err) *err = e;
    return r;
}
static void sv_end(void) {
    mcp_server_stop(SV); mcp_server_destroy(SV); SV = NULL;
    mcp_arena_destroy_current_thread(); mcp_thread_cache_flush();
    SX_CHECK(sx_live() <= sv_live0, "leak", "%ld blocks not released when the server is destroyed", sx_live() - sv_live0);
}

/* ---- what the answer to a message must be ---- */
typedef struct { int kind; double id; int code; rj *result; int lax; } sv_exp;   /* kind 1: an answer, 0: none; code 0: a result */
static int sv_okid(const rj *v) { return v && v->t == '#' && v->n >= 0 && v->n <= 9007199254740992.0 && v->n == floor(v->n); }
static const char *sv_quote(const char *s) {      /* JSON text of a string, in the reference's buffer */
    char *o = rj_alloc(strlen(s) * 6 + 3), *p = o; *p++ = '"';
    for (; *s; s++) { if (*s == '"' || *s == '\\') { *p++ = '\\'; *p++ = *s; } else if ((unsigned char)*s < 32) p += sprintf(p, "\\u%04x", *s); else *p++ = *s; }
    *p++ = '"'; *p = 0; return o;
}
static rj *sv_json(const char *fmt, ...) {
    char *t = rj_alloc(1024); va_list a; va_start(a, fmt); vsnprintf(t, 1024, fmt, a); va_end(a);
    rj *r = rj_parse_keep(t); if (!r) { fprintf(stderr, "srv.h: bad reference text %s\n", t); abort(); } return r;
}
/* the result of a tool, or NULL and the error code */
static rj *sv_tool_result(const char *name, const rj *args, int *code) {
    *code = 0;
    if (!strcmp(name, "echo")) { rj *x = args && args->t == 'o' ? rj_get((rj *)args, "x") : NULL; return sv_json("{\"content\":[{\"type\":\"text\",\"mimeType\":\"text/plain\",\"text\":%s}],\"isError\":false}", sv_quote(x && x->t == 's' ? x->s : "-")); }
    if (!strcmp(name, "two")) return sv_json("{\"content\":[{\"type\":\"text\",\"mimeType\":\"text/plain\",\"text\":\"a\\\"\\n\"},{\"type\":\"json\",\"mimeType\":\"application/json\",\"text\":\"{\\\"k\\\":1}\"}],\"isError\":false}");
    if (!strcmp(name, "zero")) return sv_json("{\"content\":[],\"isError\":false}");
    if (!strcmp(name, "hole")) return sv_json("{\"content\":[{\"type\":\"text\",\"text\":\"h\"}],\"isError\":false}");
    if (!strcmp(name, "bare")) return sv_json("{\"content\":[{\"type\":\"text\"}],\"isError\":false}");
    if (!strcmp(name, "soft")) return sv_json("{\"content\":[{\"type\":\"text\",\"mimeType\":\"text/plain\",\"text\":\"oops\"}],\"isError\":true}");
    *code = !strcmp(name, "bad") ? MCP_ERROR_INVALID_PARAMS : !strcmp(name, "badmix") ? MCP_ERROR_INTERNAL_ERROR : MCP_ERROR_TOOL_NOT_FOUND;
    return NULL;
}
static rj *sv_resource_result(char kind, const char *uri, int serial, int *code) {
    *code = 0;
    if (strstr(uri, "none")) { *code = MCP_ERROR_RESOURCE_NOT_FOUND; return NULL; }
    if (strstr(uri, "fail")) { *code = MCP_ERROR_FORBIDDEN; return NULL; }
    if (strstr(uri, "empty")) { *code = MCP_ERROR_INTERNAL_ERROR; return NULL; }
    const char *u = sv_quote(uri); char t[128]; snprintf(t, sizeof t, "%c<%s>%d", kind, uri, serial); const char *q = sv_quote(t);
    if (strstr(uri, "two")) return sv_json("{\"contents\":[{\"uri\":%s,\"mimeType\":\"text/plain\",\"text\":%s},{\"uri\":%s,\"text\":\"second\"}]}", u, q, u);
    if (strstr(uri, "bin")) return sv_json("{\"contents\":[{\"uri\":%s,\"mimeType\":\"image/png\"}]}", u);
    return sv_json("{\"contents\":[{\"uri\":%s,\"mimeType\":\"text/plain\",\"text\":%s}]}", u, q);
}
#endif
