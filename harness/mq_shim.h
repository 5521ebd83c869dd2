/* The MQTT session structures are nested C types; this gives them a C++-friendly face. */
#ifndef MQ_SHIM_H
#define MQ_SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct mq_session mq_session;
mq_session* mq_new(uint64_t created, uint32_t expiry, uint32_t last_packet_id);
void mq_sub(mq_session*, const char* topic, int qos);
void mq_msg(mq_session*, uint16_t packet_id, const char* topic, const void* payload, size_t len, int qos, int retain, uint64_t send_time, uint32_t retries);
void mq_free(mq_session*);
char* mq_dump(const mq_session*, size_t* len);   /* everything but the access time; caller frees */
uint64_t mq_access_time(const mq_session*);
int mq_is_empty(const mq_session*);              /* no subscriptions, no messages */
int mq_save(const char* id, const mq_session*);
int mq_load(const char* id, mq_session*);        /* into an empty session */
int mq_init(const char* dir);
void mq_cleanup(void);
int mq_delete(const char* id);
int mq_exists(const char* id);
int mq_expired(const char* id);
int mq_clean_expired(void);
int mq_info(const char* id, uint64_t* created, uint64_t* access, uint32_t* expiry);
int mq_touch(const char* id);
#ifdef __cplusplus
}
#endif
#endif
