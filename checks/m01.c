/* M01: the process or the machine stops, or a file operation fails, at any point while MQTT sessions are saved. */
#include "mqs.h"

static const qses S[] = {
    {"small", 7, 1000, 0, 1, 1, {{"a/b", 1}}, {{1, "t", 5, 1, 0, 9, 0}}},
    {"other", 8, 2000, 0, 2, 0, {{"x", 2}, {"y/#", 0}}, {{0}}},
    {"large", 9, 3000, 0, 1, 2, {{"l", 1}}, {{2, "big", 9000, 2, 1, 8, 3}, {3, "u", 0, 1, 0, 1, 1}}},
    {"empty", 1, 4000, 0, 0, 0, {{0}}, {{0}}},
    {"longer", 10, 5000, 0, 3, 3, {{"p", 0}, {"q", 1}, {"r/+/s", 2}}, {{4, "k1", 30, 1, 0, 2, 0}, {5, "k2", 3, 2, 1, 3, 0}, {6, "k3", 60, 1, 1, 4, 2}}},
};
#define NS ((int)(sizeof S / sizeof *S))
static const char *ID = "client-1", *OTHER = "client-2";
static void start(void) { mqtt_session_persistence_cleanup(); SX_CHECK(mqtt_session_persistence_init(MFS) == 0, "init", "the store cannot be set up"); }
static int save(const char *id, const qses *q) { mqtt_session_data_t s; q_make(&s, q); sx_op(); if (sx_noting()) sx_note("save %s as %s", q->name, id); int r = mqtt_session_save(id, &s); q_drop(&s); return r; }
/* what is found is one of the candidates (NULL: no session), and stays so */
static const qses *found(const char *id, const qses **cand, int n, const char *when) {
    mqtt_session_data_t s; memset(&s, 0, sizeof s); m_mute = 1; int r = mqtt_session_load(id, &s); m_mute = 0; sx_op();
    if (r) { q_drop(&s); for (int i = 0; i < n; i++) if (!cand[i]) return NULL; sx_fail("session-lost", "no session is found %s", when); }
    const char *d = "?"; for (int i = 0; i < n; i++) if (cand[i]) { d = q_diff(&s, cand[i]); if (!d) { q_drop(&s); return cand[i]; } }
    q_drop(&s); sx_fail("session-mixed", "the session found %s is none of those saved (%s)", when, d); return NULL;
}
static const qses *now[2]; static const qses *gone;       /* what is stored for ID and OTHER; a session deleted since the last save may come back when the machine stops */
static void begin(void) { m_reset(); sx_ms = 1000000; start(); now[0] = now[1] = NULL; gone = NULL; }
static void add(const qses **c, int *n, const qses *q) { for (int i = 0; i < *n; i++) if (c[i] == q) return; c[(*n)++] = q; }

static void crash_run(void) {
    begin(); m_crash = 3; int depth = sx_thorough() ? 4 : 3;
    for (int k = 0; k < depth; k++) {
        const qses *cand[4]; int n = 0; add(cand, &n, now[0]);
        int c = sx_choose(NS + 3);
        if (c == NS + 2) break;
        if (c < NS) {
            int r = save(ID, &S[c]); add(cand, &n, &S[c]);
            if (!m_crashed) { SX_CHECK(r == 0, "save", "saving fails"); now[0] = &S[c]; gone = NULL; n = 0; add(cand, &n, now[0]); }
        } else if (c == NS) {
            if (sx_noting()) sx_note("delete"); int r = mqtt_session_delete(ID); sx_op(); add(cand, &n, NULL);
            if (!m_crashed) { SX_CHECK((r == 0) == (now[0] != NULL), "delete", "deleting returns %d", r); if (now[0]) gone = now[0]; now[0] = NULL; }
        } else {
            if (sx_noting()) sx_note("renew"); sx_ms += 5; int r = mqtt_session_update_access_time(ID); sx_op();
            if (!m_crashed) SX_CHECK((r == 0) == (now[0] != NULL), "renew", "renewing returns %d", r);
        }
        if (m_crashed) { if (gone && m_power) add(cand, &n, gone); m_after(); start(); now[0] = found(ID, cand, n, "after the crash"); now[0] = found(ID, &now[0], 1, "when loaded again"); SX_CHECK(mqtt_session_exists(ID) == (now[0] != NULL), "exists", "after the crash"); sx_class("%s found", now[0] ? now[0]->name : "nothing"); break; }
        now[0] = found(ID, &now[0], 1, "after the operation");
    }
    /* what was reported done survives a machine that stops now; a deletion may not have */
    if (!m_crashed && now[0]) { m_stop_now(1); start(); found(ID, &now[0], 1, "after a crash following a successful save"); }
    /* and the store works on */
    m_crash = 0; m_crashed = 0; int c = sx_choose(2) ? 4 : 1; SX_CHECK(save(ID, &S[c]) == 0, "save", "saving after the crash fails"); now[0] = &S[c]; found(ID, &now[0], 1, "after saving again");
    m_stop_now(1); start(); found(ID, &now[0], 1, "after a crash following a successful save");
}
static void fault_run(void) {
    begin(); m_faults = 0; int c0 = sx_choose(NS + 1);
    SX_CHECK(save(OTHER, &S[1]) == 0, "save", "saving fails");
    if (c0 < NS) { SX_CHECK(save(ID, &S[c0]) == 0, "save", "saving fails"); now[0] = &S[c0]; }
    m_faults = sx_thorough() ? 2 : 1;
    for (int k = 0; k < 2; k++) {
        int c = sx_choose(NS), f0 = m_faulted; const qses *cand[3]; int n = 0; add(cand, &n, now[0]);
        int r = save(ID, &S[c]);
        if (r == 0) { now[0] = &S[c]; n = 0; }
        else { SX_CHECK(m_faulted > f0, "save", "saving fails although no operation failed"); add(cand, &n, &S[c]); }
        if (r == 0) add(cand, &n, now[0]);
        if (r == 0 && m_faulted > f0) sx_class("success despite a failure");
        now[0] = found(ID, cand, n, r == 0 ? "after a save that succeeded" : "after a save that failed");
    }
    const qses *o = &S[1]; found(OTHER, &o, 1, "for the other client");
    m_faults = 0; SX_CHECK(save(ID, &S[4]) == 0, "save", "saving fails although no operation failed"); const qses *w = &S[4]; found(ID, &w, 1, "in the end");
    m_stop_now(1); start(); found(ID, &w, 1, "after a crash following a successful save");
}
static void mixed_run(void) {      /* an operation fails and later the process or machine stops */
    begin(); int c0 = sx_choose(3); if (c0 < 2) { SX_CHECK(save(ID, &S[c0]) == 0, "save", "saving fails"); now[0] = &S[c0]; }
    m_faults = 1; m_crash = 3;
    const qses *cand[4]; int n = 0; add(cand, &n, now[0]);
    for (int k = 0; k < 2 && !m_crashed; k++) { int c = k ? 4 : sx_flip() ? 1 : 2; int r = save(ID, &S[c]); if (r == 0 && !m_crashed) n = 0; add(cand, &n, &S[c]); }
    if (!m_crashed) { m_stop_now(sx_flip()); } else m_after();
    m_dead = 0; start(); now[0] = found(ID, cand, n, "after the crash");
}
static const sx_scenario SC[] = {
    {"crash", NULL, crash_run, 0, "up to 3 (thorough 4) saves, deletions and renewals; the process or the machine stops at every operation, inside every write, with every surviving subset of unsynchronised changes"},
    {"fault", NULL, fault_run, 0, "two saves over every stored session; any operation fails, writes after any part"},
    {"fault-crash", NULL, mixed_run, 0, "an operation fails and the process or the machine stops at any later point"},
};
int main(int argc, char **argv) { return sx_main(argc, argv, SC, (int)(sizeof SC / sizeof *SC)); }
