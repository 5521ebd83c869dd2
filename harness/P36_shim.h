/* Face of the MQTT transport's C structures for the P36 harness. */
#ifndef P36_SHIM_H
#define P36_SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct m36 m36;
typedef char* (*m36_handler)(void* user, const void* data, size_t size, int* error);
typedef void (*m36_other)(const char* topic, const void* payload, size_t len, void* user);
/* what the stand-in for the MQTT library's publish call is told: 0 = sent, anything else = failed */
typedef int (*m36_publish)(void* user, const char* topic, size_t topic_len, const void* payload, size_t len, int qos, int retain);
m36* m36_new(const char* prefix, const char* request, const char* response, const char* notification, int qos, int retain, uint32_t limit);
void m36_free(m36*);
int m36_resolve(m36*, const char* client_id);
const char* m36_topic(m36*, int which);   /* 0 request, 1 response, 2 notification */
void m36_handlers(m36*, m36_handler, m36_other, void* user);
void m36_on_publish(m36_publish, void* user);
void m36_link(m36*, int up);
int m36_incoming(m36*, const char* topic, const void* payload, size_t len);
int m36_send(m36*, const void* payload, size_t len);
int m36_sendv(m36*, const void* const* parts, const size_t* lens, size_t n);
int m36_post(m36*, const char* topic, const void* payload, size_t len, int qos, int retain);
int m36_process(m36*);
int m36_queued(m36*);
void m36_sent(m36*, uint64_t* messages, uint64_t* bytes);
/* unacknowledged messages */
void m36_retry_rules(m36*, uint32_t max_inflight, uint32_t interval_ms, uint32_t max_retries);
uint16_t m36_next_id(m36*);
void m36_set_next_id(m36*, uint16_t id);
int m36_track(m36*, uint16_t id, const char* topic, const void* payload, size_t len, int qos, int retain);
void m36_ack(m36*, uint16_t id);
int m36_retry(m36*);
#ifdef __cplusplus
}
#endif
#endif
