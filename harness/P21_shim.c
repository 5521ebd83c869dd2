#include "internal/sthttp_transport_internal.h"
void* p21_create(size_t cap) { return sse_stream_context_create(cap); }
void p21_destroy(void* c) { sse_stream_context_destroy((sse_stream_context_t*)c); }
void p21_store(void* c, const char* id, const char* type, const char* data) {
    sse_stream_context_store_event((sse_stream_context_t*)c, id, type, data);
}
int p21_replay(void* c, void* wsi, const char* last) {
    return sse_stream_context_replay_events((sse_stream_context_t*)c, (struct lws*)wsi, last);
}
