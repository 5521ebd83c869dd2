#include "mcp_mqtt_transport.h"
#include "mcp_mqtt_client_transport.h"
#include "transport_internal.h"
#include "mqtt_transport_internal.h"
#include "mqtt_client_internal.h"
#include "P36_shim.h"
#include <stdlib.h>
#include <string.h>
struct m36 { mcp_transport_t* t; mcp_mqtt_client_transport_data_t* d; };
static m36_publish g_publish;
static void* g_user;
int lws_mqtt_client_send_publish(struct lws* wsi, lws_mqtt_publish_param_t* pub, const void* buf, uint32_t len, int final) {
    (void)wsi; (void)final;
    return g_publish(g_user, pub->topic, pub->topic_len, buf, len, (int)pub->qos, pub->retain ? 1 : 0);
}
int lws_mqtt_client_send_subcribe(struct lws* wsi, lws_mqtt_subscribe_param_t* sub) { (void)wsi; (void)sub; return 0; }
m36* m36_new(const char* prefix, const char* request, const char* response, const char* notification, int qos, int retain, uint32_t limit) {
    mcp_mqtt_config_t c = MCP_MQTT_CONFIG_DEFAULT;
    c.host = "127.0.0.1";
    c.topic_prefix = prefix;
    c.request_topic = request;
    c.response_topic = response;
    c.notification_topic = notification;
    c.qos = qos;
    c.retain = retain != 0;
    mcp_transport_t* t = mcp_transport_mqtt_client_create(&c);
    if (!t) return NULL;
    m36* m = calloc(1, sizeof *m);
    m->t = t;
    m->d = (mcp_mqtt_client_transport_data_t*)t->transport_data;
    m->d->base.max_queue_size = limit;
    return m;
}
void m36_free(m36* m) {
    m->d->base.wsi = NULL;
    mcp_transport_destroy(m->t);
    free(m);
}
int m36_resolve(m36* m, const char* id) { return mqtt_resolve_topics(&m->d->base, id); }
const char* m36_topic(m36* m, int which) {
    return which == 0 ? m->d->base.resolved_request_topic : which == 1 ? m->d->base.resolved_response_topic : m->d->base.resolved_notification_topic;
}
void m36_handlers(m36* m, m36_handler h, m36_other o, void* user) {
    m->d->base.message_callback = h;
    m->d->base.callback_user_data = user;
    mcp_mqtt_transport_set_message_handler(m->t, o, user);
}
void m36_on_publish(m36_publish p, void* user) { g_publish = p; g_user = user; }
void m36_link(m36* m, int up) {
    static char fake[64];
    m->d->base.wsi = up ? (struct lws*)fake : NULL;
    m->d->base.connection_state = up ? MCP_MQTT_CLIENT_CONNECTED : MCP_MQTT_CLIENT_DISCONNECTED;
}
int m36_incoming(m36* m, const char* topic, const void* p, size_t n) { return mqtt_handle_incoming_message(&m->d->base, topic, p, n); }
int m36_send(m36* m, const void* p, size_t n) { return mcp_transport_send(m->t, p, n); }
int m36_sendv(m36* m, const void* const* parts, const size_t* lens, size_t n) {
    mcp_buffer_t b[16];
    for (size_t i = 0; i < n; i++) { b[i].data = parts[i]; b[i].size = lens[i]; }
    return mcp_transport_sendv(m->t, b, n);
}
int m36_post(m36* m, const char* topic, const void* p, size_t n, int qos, int retain) { return mcp_mqtt_transport_publish(m->t, topic, p, n, qos, retain != 0); }
int m36_process(m36* m) { return mqtt_process_message_queue(&m->d->base); }
int m36_queued(m36* m) {
    int n = 0;
    for (mcp_mqtt_message_queue_entry_t* e = m->d->base.message_queue_head; e; e = e->next) n++;
    return n;
}
void m36_sent(m36* m, uint64_t* messages, uint64_t* bytes) { *messages = m->d->base.messages_sent; *bytes = m->d->base.bytes_sent; }
void m36_retry_rules(m36* m, uint32_t max_inflight, uint32_t interval_ms, uint32_t max_retries) {
    m->d->message_tracking.max_inflight = max_inflight;
    m->d->message_retry_interval_ms = interval_ms;
    m->d->max_message_retries = max_retries;
}
uint16_t m36_next_id(m36* m) { return mqtt_client_next_packet_id(m->d); }
void m36_set_next_id(m36* m, uint16_t id) { m->d->message_tracking.packet_id = id; }
int m36_track(m36* m, uint16_t id, const char* topic, const void* p, size_t n, int qos, int retain) { return mqtt_client_add_inflight_message(m->d, id, topic, p, n, qos, retain != 0); }
void m36_ack(m36* m, uint16_t id) { mqtt_client_remove_inflight_message(m->d, id); }
int m36_retry(m36* m) { return mqtt_client_retry_inflight_messages(m->d); }
