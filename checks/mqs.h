/* MQTT sessions of the harness, and what must come back from the store. */
#ifndef MQS_H
#define MQS_H
#include "memfs.h"
#include "internal/mqtt_session_persistence.h"
#include "internal/mqtt_client_internal.h"
#include "mcp_log.h"

typedef struct { const char *topic; int qos; } qsub;
typedef struct { uint16_t id; const char *topic; size_t len; int qos, retain; uint64_t time; uint32_t tries; } qmsg;
typedef struct { const char *name; uint32_t last; uint64_t created; uint32_t expiry; int nsub, nmsg; qsub sub[3]; qmsg msg[3]; } qses;

static unsigned char q_byte(const qmsg *m, size_t i) { return (unsigned char)(m->id * 7 + i * 31 + (i >> 8)); }
static void q_make(mqtt_session_data_t *s, const qses *q) {
    memset(s, 0, sizeof *s); s->last_packet_id = q->last; s->session_created_time = q->created; s->session_expiry_interval = q->expiry; s->session_last_access_time = 77;
    struct mqtt_subscription **t = &s->subscriptions;
    for (int i = 0; i < q->nsub; i++) { struct mqtt_subscription *u = calloc(1, sizeof *u); u->topic = strdup(q->sub[i].topic); u->qos = q->sub[i].qos; u->active = true; *t = u; t = &u->next; }
    struct mqtt_inflight_message **v = &s->inflight_messages;
    for (int i = 0; i < q->nmsg; i++) {
        const qmsg *m = &q->msg[i]; struct mqtt_inflight_message *u = calloc(1, sizeof *u);
        u->packet_id = m->id; u->topic = strdup(m->topic); u->payload = m->len ? malloc(m->len) : NULL; for (size_t k = 0; k < m->len; k++) ((unsigned char *)u->payload)[k] = q_byte(m, k);
        u->payload_len = m->len; u->qos = m->qos; u->retain = m->retain; u->send_time = m->time; u->retry_count = m->tries; *v = u; v = &u->next;
    }
}
static void q_drop(mqtt_session_data_t *s) {
    for (struct mqtt_subscription *u = s->subscriptions, *n; u; u = n) { n = u->next; free(u->topic); free(u); }
    for (struct mqtt_inflight_message *u = s->inflight_messages, *n; u; u = n) { n = u->next; free(u->topic); free(u->payload); free(u); }
    s->subscriptions = NULL; s->inflight_messages = NULL;
}
/* NULL if they are the same, otherwise what differs */
static const char *q_diff(const mqtt_session_data_t *s, const qses *q) {
    if (s->last_packet_id != q->last) return "packet counter"; if (s->session_created_time != q->created) return "creation time"; if (s->session_expiry_interval != q->expiry) return "expiry interval";
    int i = 0; for (struct mqtt_subscription *u = s->subscriptions; u; u = u->next, i++) { if (i >= q->nsub) return "number of subscriptions"; if (strcmp(u->topic, q->sub[i].topic)) return "subscription topic"; if (u->qos != q->sub[i].qos) return "subscription QoS"; }
    if (i != q->nsub) return "number of subscriptions";
    i = 0; for (struct mqtt_inflight_message *u = s->inflight_messages; u; u = u->next, i++) {
        if (i >= q->nmsg) return "number of messages"; const qmsg *m = &q->msg[i];
        if (u->packet_id != m->id) return "message packet identifier"; if (strcmp(u->topic, m->topic)) return "message topic"; if (u->payload_len != m->len) return "payload length";
        for (size_t k = 0; k < m->len; k++) if (((unsigned char *)u->payload)[k] != q_byte(m, k)) return "payload";
        if (u->qos != m->qos) return "message QoS"; if (u->retain != (bool)m->retain) return "retain flag"; if (u->send_time != m->time) return "send time"; if (u->retry_count != m->tries) return "retry count";
    }
    return i == q->nmsg ? NULL : "number of messages";
}
#endif
