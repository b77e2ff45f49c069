/* Stand-in for libwebsockets below the streamable HTTP transport: one connection with its request
 * headers; what is written is collected. */
#ifndef FAKELWS_H
#define FAKELWS_H
#include "sthttp_transport_internal.h"
typedef struct {
    int magic;
    const char *method, *uri, *origin, *accept, *session, *last_id;     /* NULL: no such header */
    int status, nheads, completed, open;
    size_t nbody, nhead;
    char head[2048], body[16384];
    sthttp_session_data_t user;
} fakewsi;
static sthttp_transport_data_t *fk_data;
static fakewsi *fk(struct lws *w) { fakewsi *f = (fakewsi *)w; SX_CHECK(f && f->magic == 0x5157, "connection", "an unknown connection is used"); return f; }
struct lws_context *__wrap_lws_get_context(const struct lws *w) { fk((struct lws *)w); return (struct lws_context *)1; }
void *__wrap_lws_context_user(struct lws_context *c) { (void)c; return fk_data; }
static const char *fk_hdr(fakewsi *f, enum lws_token_indexes t) {
    switch (t) {
    case WSI_TOKEN_POST_URI: return !strcmp(f->method, "POST") ? f->uri : NULL;
    case WSI_TOKEN_GET_URI: return !strcmp(f->method, "GET") ? f->uri : NULL;
    case WSI_TOKEN_OPTIONS_URI: return !strcmp(f->method, "OPTIONS") ? f->uri : NULL;
    case WSI_TOKEN_ORIGIN: return f->origin;
    case WSI_TOKEN_HTTP_ACCEPT: return f->accept;
    default: return NULL;
    }
}
int __wrap_lws_hdr_total_length(struct lws *w, enum lws_token_indexes t) { const char *s = fk_hdr(fk(w), t); return s ? (int)strlen(s) : 0; }
static int fk_copy(char *d, int len, const char *s) {
    if (!s) return 0;
    int n = (int)strlen(s);
    if (n >= len) return -1;
    memcpy(d, s, (size_t)n + 1);
    return n;
}
int __wrap_lws_hdr_copy(struct lws *w, char *d, int len, enum lws_token_indexes t) { return fk_copy(d, len, fk_hdr(fk(w), t)); }
static const char *fk_custom(fakewsi *f, const char *n) { return !strcmp(n, "mcp-session-id:") ? f->session : !strcmp(n, "last-event-id:") ? f->last_id : NULL; }
int __wrap_lws_hdr_custom_length(struct lws *w, const char *n, int nl) { (void)nl; const char *s = fk_custom(fk(w), n); return s ? (int)strlen(s) : -1; }
int __wrap_lws_hdr_custom_copy(struct lws *w, char *d, int len, const char *n, int nl) {
    (void)nl;
    const char *s = fk_custom(fk(w), n);
    return s ? fk_copy(d, len, s) : -1;
}
int __wrap_lws_http_get_uri_and_method(struct lws *w, char **u, int *l) {
    fakewsi *f = fk(w);
    if (u) *u = (char *)f->uri;
    if (l) *l = (int)strlen(f->uri);
    return !strcmp(f->method, "GET") ? LWSHUMETH_GET : !strcmp(f->method, "POST") ? LWSHUMETH_POST : !strcmp(f->method, "OPTIONS") ? LWSHUMETH_OPTIONS :
           !strcmp(f->method, "PUT") ? LWSHUMETH_PUT : LWSHUMETH_DELETE;
}
static int fk_put(unsigned char **p, unsigned char *end, const char *a, const char *b, size_t bn) {
    size_t n = strlen(a);
    if (*p + n + bn + 2 > end) return 1;
    memcpy(*p, a, n); memcpy(*p + n, b, bn); memcpy(*p + n + bn, "\r\n", 2);
    *p += n + bn + 2;
    return 0;
}
int __wrap_lws_add_http_header_status(struct lws *w, unsigned code, unsigned char **p, unsigned char *end) {
    fakewsi *f = fk(w);
    f->status = (int)(code & 0xffff);
    char b[32]; int n = snprintf(b, sizeof b, "%d", f->status);
    return fk_put(p, end, "HTTP/1.1 ", b, (size_t)n);
}
int __wrap_lws_add_http_header_by_token(struct lws *w, enum lws_token_indexes t, const unsigned char *v, int l, unsigned char **p, unsigned char *end) {
    fk(w);
    return fk_put(p, end, t == WSI_TOKEN_HTTP_CONTENT_TYPE ? "content-type: " : t == WSI_TOKEN_HTTP_CONTENT_LENGTH ? "content-length: " : "other: ", (const char *)v, (size_t)l);
}
int __wrap_lws_add_http_header_by_name(struct lws *w, const unsigned char *n, const unsigned char *v, int l, unsigned char **p, unsigned char *end) {
    fk(w);
    char b[128]; snprintf(b, sizeof b, "%s: ", (const char *)n);
    return fk_put(p, end, b, (const char *)v, (size_t)l);
}
int __wrap_lws_finalize_http_header(struct lws *w, unsigned char **p, unsigned char *end) { fk(w); return fk_put(p, end, "", "", 0); }
static int fk_write_fail = -1;        /* writes left before the connection fails; negative: never */
int __wrap_lws_write(struct lws *w, unsigned char *b, size_t n, enum lws_write_protocol pr) {
    fakewsi *f = fk(w);
    if (fk_write_fail == 0) return -1;
    if (fk_write_fail > 0) fk_write_fail--;
    if ((pr & 0x1f) == LWS_WRITE_HTTP_HEADERS) {
        SX_CHECK(f->nhead + n < sizeof f->head, "harness", "headers too long");
        memcpy(f->head + f->nhead, b, n); f->nhead += n; f->head[f->nhead] = 0; f->nheads++;
    } else {
        SX_CHECK(f->nbody + n < sizeof f->body, "harness", "body too long");
        memcpy(f->body + f->nbody, b, n); f->nbody += n; f->body[f->nbody] = 0;
    }
    return (int)n;
}
int __wrap_lws_http_transaction_completed(struct lws *w) { fk(w)->completed++; return 0; }
int __wrap_lws_get_socket_fd(struct lws *w) { return fk(w)->open ? 7 : -1; }
int __wrap_lws_callback_http_dummy(struct lws *w, enum lws_callback_reasons r, void *u, void *in, size_t len) { (void)w; (void)r; (void)u; (void)in; (void)len; return 0; }
extern struct lws_protocols sthttp_protocols[];
static void fk_init(fakewsi *f) { memset(f, 0, offsetof(fakewsi, head)); memset(&f->user, 0, sizeof f->user); f->head[0] = f->body[0] = 0; f->magic = 0x5157; f->method = "GET"; f->uri = "/mcp"; f->open = 1; }
static int fk_cb(fakewsi *f, enum lws_callback_reasons r, void *in, size_t n) { sx_op(); return sthttp_protocols[0].callback((struct lws *)f, r, &f->user, in, n); }
/* a whole exchange; the body is given in the pieces that end at cut[] */
static int fk_request(fakewsi *f, const char *body, const size_t *cut, int ncut) {
    int r = fk_cb(f, LWS_CALLBACK_HTTP_BIND_PROTOCOL, NULL, 0);
    if (!r) r = fk_cb(f, LWS_CALLBACK_HTTP, (void *)f->uri, strlen(f->uri));
    if (!r && !strcmp(f->method, "POST")) {
        size_t at = 0, len = body ? strlen(body) : 0;
        for (int i = 0; i <= ncut && !r; i++) {
            size_t e = i < ncut ? cut[i] : len;
            if (e > at) { char t[4096]; memcpy(t, body + at, e - at); r = fk_cb(f, LWS_CALLBACK_HTTP_BODY, t, e - at); memset(t, 'X', e - at); }
            at = e;
        }
        if (!r) r = fk_cb(f, LWS_CALLBACK_HTTP_BODY_COMPLETION, NULL, 0);
    }
    return r;
}
static void fk_close(fakewsi *f) { fk_cb(f, LWS_CALLBACK_CLOSED_HTTP, NULL, 0); f->open = 0; }
#endif
