/* H01: HTTP sessions used from several threads. */
#include "mcrt.h"
#include "mcp_http_session_manager.h"
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static unsigned long serial;
int __real_open(const char *p, int f, ...);
int __wrap_open(const char *p, int f, ...) {
    if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) return 1000;
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    return __real_open(p, f, m);
}
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    if (fd != 1000) return __real_read(fd, b, n);
    memset(b, 0, n); serial++; memcpy(b, &serial, sizeof serial);
    return (ssize_t)n;
}
int __real_close(int fd);
int __wrap_close(int fd) { return fd == 1000 ? 0 : __real_close(fd); }

static mcp_http_session_manager_t *M;
static char ID[4][MCP_SESSION_ID_MAX_LENGTH];
static mcp_http_session_t *H[4];
static int res[4];
static void *t_create(void *p) { int i = (int)(long)p; H[i] = mcp_session_manager_create_session(M, ID[i], 0); return NULL; }
static void *t_end(void *p) { int i = (int)(long)p; res[i] = mcp_session_manager_terminate_session(M, ID[0]); return NULL; }
static void *t_clean(void *p) { int i = (int)(long)p; res[i] = (int)mcp_session_manager_cleanup_expired(M); return NULL; }
static void *t_get(void *p) { int i = (int)(long)p; H[i] = mcp_session_manager_get_session(M, ID[0]); return NULL; }
static void *t_touch(void *p) { int i = (int)(long)p; mcp_http_session_t *h = mcp_session_manager_get_session(M, ID[0]); res[i] = h != NULL; mcp_session_touch(h); return NULL; }
static void begin(long to) { M = mcp_session_manager_create((uint32_t)to); memset(res, 0, sizeof res); memset(H, 0, sizeof H); serial = 0; }
static void end(size_t want) {
    mcp_session_manager_cleanup_expired(M);
    size_t c = mcp_session_manager_get_active_count(M);
    if (c != want) mc_fail("active-count", "%zu sessions are counted, there are %zu", c, want);
    mcp_session_manager_destroy(M);
}
static void found(int i) {
    mcp_http_session_t *h = mcp_session_manager_get_session(M, ID[i]);
    if (!h || h != H[i] || strcmp(mcp_session_get_id(h), ID[i])) mc_fail("lookup-lost", "session %d (\"%s\") is not found as created", i, ID[i]);
}
static void run_create(void) {
    begin(0);
    int a = mc_spawn(t_create, (void *)0), b = mc_spawn(t_create, (void *)1), c = mc_spawn(t_create, (void *)2);
    mc_join(a); mc_join(b); mc_join(c);
    if (!strcmp(ID[0], ID[1]) || !strcmp(ID[1], ID[2]) || !strcmp(ID[0], ID[2]) || H[0] == H[1] || H[1] == H[2] || H[0] == H[2]) mc_fail("shared", "two creations share a session");
    for (int i = 0; i < 3; i++) found(i);
    end(3);
}
static void run_end(void) {
    begin(0); t_create((void *)0);
    int a = mc_spawn(t_end, (void *)1), b = mc_spawn(t_end, (void *)2), c = mc_spawn(t_create, (void *)3);
    mc_join(a); mc_join(b); mc_join(c);
    if (res[1] + res[2] != 1) mc_fail("terminate-twice", "the session was terminated %d times", res[1] + res[2]);
    if (mcp_session_manager_get_session(M, ID[0])) mc_fail("lookup-dead", "the terminated session is found");
    found(3);
    end(1);
}
static void run_expire(void) {
    begin(5); t_create((void *)0); mc_advance_ms(7000);
    int a = mc_spawn(t_clean, (void *)1), b = mc_spawn(t_end, (void *)2), c = mc_spawn(t_create, (void *)3);
    mc_join(a); mc_join(b); mc_join(c);
    if (res[1] + res[2] != 1) mc_fail("cleanup-twice", "the expired session was removed %d times", res[1] + res[2]);
    if (mcp_session_manager_get_session(M, ID[0])) mc_fail("lookup-dead", "the expired session is found");
    found(3);
    end(1);
}
static void run_clean2(void) {
    begin(5); t_create((void *)0); mc_advance_ms(7000);
    int a = mc_spawn(t_clean, (void *)1), b = mc_spawn(t_clean, (void *)2), c = mc_spawn(t_get, (void *)3);
    mc_join(a); mc_join(b); mc_join(c);
    if (res[1] + res[2] != 1) mc_fail("cleanup-twice", "the expired session was removed %d times", res[1] + res[2]);
    if (H[3]) mc_fail("lookup-dead", "the expired session is found");
    end(0);
}
static void run_use(void) {
    begin(5); t_create((void *)0); mc_advance_ms(5000);
    int a = mc_spawn(t_touch, (void *)1), b = mc_spawn(t_clean, (void *)2), c = mc_spawn(t_touch, (void *)3);
    mc_join(a); mc_join(b); mc_join(c);
    if (res[2] || !res[1] || !res[3]) mc_fail("lookup-lost", "a session in use was cleaned up");
    mc_advance_ms(5000);
    found(0);
    end(1);
}
static const mc_scenario S[] = {
    {"create", NULL, run_create, 2, 4, 0, "three creations"},
    {"end", NULL, run_end, 2, 4, 0, "two terminations of a session and a creation"},
    {"expire", NULL, run_expire, 2, 4, 0, "cleanup, termination of the expired session and a creation"},
    {"clean", NULL, run_clean2, 2, 4, 0, "two cleanups and a look-up of the expired session"},
    {"use", NULL, run_use, 2, 3, 0, "two users of a session at the edge of its timeout and a cleanup"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, S, (int)(sizeof S / sizeof *S)); }
