#include "mqtt_client_internal.h"
#include "mqtt_session_persistence.h"
#include "mq_shim.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct mq_session { mqtt_session_data_t d; };
mq_session* mq_new(uint64_t created, uint32_t expiry, uint32_t last_packet_id) {
    mq_session* s = calloc(1, sizeof *s);
    s->d.session_created_time = created;
    s->d.session_expiry_interval = expiry;
    s->d.last_packet_id = last_packet_id;
    s->d.file_format_version = 1;
    return s;
}
void mq_sub(mq_session* s, const char* topic, int qos) {
    struct mqtt_subscription *n = calloc(1, sizeof *n), **t = &s->d.subscriptions;
    n->topic = strdup(topic);
    n->qos = qos;
    n->active = true;
    while (*t) t = &(*t)->next;
    *t = n;
}
void mq_msg(mq_session* s, uint16_t packet_id, const char* topic, const void* payload, size_t len, int qos, int retain, uint64_t send_time, uint32_t retries) {
    struct mqtt_inflight_message *n = calloc(1, sizeof *n), **t = &s->d.inflight_messages;
    n->packet_id = packet_id;
    n->topic = strdup(topic);
    n->payload = malloc(len ? len : 1);
    if (len) memcpy(n->payload, payload, len);
    n->payload_len = len;
    n->qos = qos;
    n->retain = retain != 0;
    n->send_time = send_time;
    n->retry_count = retries;
    while (*t) t = &(*t)->next;
    *t = n;
}
void mq_free(mq_session* s) {
    if (!s) return;
    for (struct mqtt_subscription *p = s->d.subscriptions, *n; p; p = n) { n = p->next; free(p->topic); free(p); }
    for (struct mqtt_inflight_message *p = s->d.inflight_messages, *n; p; p = n) { n = p->next; free(p->topic); free(p->payload); free(p); }
    free(s);
}
char* mq_dump(const mq_session* s, size_t* len) {
    char* out = NULL;
    FILE* f = open_memstream(&out, len);
    fprintf(f, "created %llu expiry %u last %u\n", (unsigned long long)s->d.session_created_time, s->d.session_expiry_interval, s->d.last_packet_id);
    for (const struct mqtt_subscription* p = s->d.subscriptions; p; p = p->next) fprintf(f, "sub %s qos %d active %d\n", p->topic, p->qos, p->active == true);
    for (const struct mqtt_inflight_message* p = s->d.inflight_messages; p; p = p->next) {
        unsigned retain = 0;
        memcpy(&retain, &p->retain, 1);
        fprintf(f, "msg %u %s qos %d retain %u sent %llu retries %u payload %zu:", p->packet_id, p->topic, p->qos, retain, (unsigned long long)p->send_time, p->retry_count, p->payload_len);
        if (p->payload_len) fwrite(p->payload, 1, p->payload_len, f);
        fputc('\n', f);
    }
    fclose(f);
    return out;
}
uint64_t mq_access_time(const mq_session* s) { return s->d.session_last_access_time; }
int mq_is_empty(const mq_session* s) { return !s->d.subscriptions && !s->d.inflight_messages; }
int mq_save(const char* id, const mq_session* s) { return mqtt_session_save(id, &s->d); }
int mq_load(const char* id, mq_session* s) { return mqtt_session_load(id, &s->d); }
int mq_init(const char* dir) { return mqtt_session_persistence_init(dir); }
void mq_cleanup(void) { mqtt_session_persistence_cleanup(); }
int mq_delete(const char* id) { return mqtt_session_delete(id); }
int mq_exists(const char* id) { return mqtt_session_exists(id); }
int mq_expired(const char* id) { return mqtt_session_is_expired(id); }
int mq_clean_expired(void) { return mqtt_session_cleanup_expired(); }
int mq_info(const char* id, uint64_t* c, uint64_t* a, uint32_t* e) { return mqtt_session_get_info(id, c, a, e); }
int mq_touch(const char* id) { return mqtt_session_update_access_time(id); }
