/* M02, several threads: saving, loading, renewing and deleting at the same time are one after the other. */
#include "mcrt.h"
#include <stddef.h>
void *__real_memcpy(void *, const void *, size_t); void *__real_memset(void *, int, size_t); size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t); char *__real_strchr(const char *, int);
#define memcpy __real_memcpy
#define memset __real_memset
#define strlen __real_strlen
#define strcmp __real_strcmp
#define strncmp __real_strncmp
#define strchr __real_strchr
/* the file system of the harness, without failures here */
#define SEQX_H
static int sx_choose(int n) { (void)n; return 0; } static int sx_flip(void) { return 0; } static int sx_noting(void) { return 0; } static int sx_thorough(void) { return 0; }
#define sx_note(...) ((void)0)
#define sx_fail(k, ...) mc_fail(k, __VA_ARGS__)
#include "mqs.h"

static const qses S[] = {
    {"A", 7, 1000, 0, 1, 1, {{"a/b", 1}}, {{1, "t", 5, 1, 0, 9, 0}}},
    {"B", 8, 2000, 0, 2, 0, {{"x", 2}, {"y/#", 0}}, {{0}}},
    {"C", 9, 3000, 2, 0, 2, {{0}}, {{2, "u", 0, 2, 1, 8, 3}, {3, "v", 1, 1, 0, 1, 1}}},
};
static mqtt_session_data_t D[3];
static void make(mqtt_session_data_t *s, int i) { mc_atomic_begin(); q_make(s, &S[i]); mc_atomic_end(); }
static void begin(void) { m_reset(); if (mqtt_session_persistence_init(MFS)) mc_fail("init", "the store cannot be set up"); for (int i = 0; i < 3; i++) make(&D[i], i); }
static int ended;
static void finish(void) { mqtt_session_persistence_cleanup(); for (int i = 0; i < 3; i++) q_drop(&D[i]); m_reset(); }
/* index of the session found, -1 for none */
static int got(const char *id) {
    mqtt_session_data_t s; memset(&s, 0, sizeof s); if (mqtt_session_load(id, &s)) return -1;
    mc_atomic_begin(); int r = -2; const char *d = ""; for (int i = 0; i < 3; i++) { const char *e = q_diff(&s, &S[i]); if (!e) r = i; else d = e; } q_drop(&s); mc_atomic_end();
    if (r == -2) mc_fail("session-mixed", "the session found is none of those saved (%s)", d);
    return r;
}
static int seen[4];
static void t_save(void *a) { int i = (int)(long)a; if (mqtt_session_save("c", &D[i])) mc_fail("save", "saving fails"); seen[3] |= 1 << i; }
static void t_load(void *a) { seen[(long)a] = got("c"); }
static void t_renew(void *a) { int r = mqtt_session_update_access_time("c"); if ((long)a == 0 && r) mc_fail("renew", "renewing fails"); }
static void t_delete(void *a) { if (mqtt_session_delete("c")) mc_fail("delete", "deleting fails"); }
static void t_clean(void *a) { if (mqtt_session_cleanup_expired() < 0) mc_fail("cleanup", "cleaning up fails"); }
static void go(void (*f)(void *), long x, void (*g)(void *), long y) { int t = mc_spawn(f, (void *)x); g((void *)y); mc_join(t); }

static void s_save(void) { begin(); t_save((void *)0); int t = mc_spawn(t_load, (void *)0); go(t_save, 1, t_save, 2); mc_join(t); int f = got("c"); if (f != 1 && f != 2) mc_fail("session-lost", "the session found is %d", f); if (seen[0] < 0) mc_fail("session-lost", "no session is found while another is saved"); mc_outcome("%d %d", seen[0], f); finish(); }
static void s_renew(void) { begin(); t_save((void *)0); go(t_renew, 0, t_save, 1); int f = got("c"); if (f != 1) mc_fail("saved-lost", "the session saved while the old one was renewed is lost"); finish(); }
static void s_renew_delete(void) { begin(); t_save((void *)0); go(t_renew, 1, t_delete, 0); int f = got("c"); if (f != -1) mc_fail("deleted-back", "a session deleted while it was renewed is back"); finish(); }
static void s_expired_load(void) { begin(); t_save((void *)2); mc_advance_ms(5000); go(t_load, 0, t_save, 1); int f = got("c"); if (f != 1) mc_fail("saved-lost", "the session saved while an expired one was loaded is lost"); if (seen[0] == 2) mc_fail("expired-loaded", "the expired session is loaded"); mc_outcome("%d", seen[0]); finish(); }
static void s_expired_clean(void) { begin(); t_save((void *)2); mc_advance_ms(5000); int t = mc_spawn(t_clean, NULL); go(t_renew, 1, t_save, 1); mc_join(t); int f = got("c"); if (f != 1) mc_fail("saved-lost", "the session saved while expired ones were cleaned up is lost"); finish(); }
static void t_other(void *a) { for (int i = 0; i < 2; i++) { if (mqtt_session_save("d", &D[1])) mc_fail("save", "saving fails"); if (got("d") != 1) mc_fail("session-lost", "the other client's session"); } }
static void s_others(void) { begin(); t_save((void *)0); int t = mc_spawn(t_other, NULL); go(t_renew, 1, t_delete, 0); mc_join(t); if (got("d") != 1) mc_fail("session-lost", "the other client's session"); if (got("c") != -1) mc_fail("deleted-back", "a session deleted while it was renewed is back"); finish(); }

static const mc_scenario SC[] = {
    {"save", NULL, s_save, 3, 5, 0, "two threads save and one loads a session of the same client"},
    {"renew", NULL, s_renew, 3, 6, 0, "a session is renewed while another is saved for the client"},
    {"renew-delete", NULL, s_renew_delete, 3, 6, 0, "a session is renewed while it is deleted"},
    {"expired-load", NULL, s_expired_load, 3, 6, 0, "an expired session is loaded while a new one is saved"},
    {"expired-clean", NULL, s_expired_clean, 3, 5, 0, "expired sessions are cleaned up while one is renewed and a new one is saved"},
    {"others", NULL, s_others, 2, 4, 0, "another client saves and loads meanwhile"},
};
int main(int argc, char **argv) { return mc_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
