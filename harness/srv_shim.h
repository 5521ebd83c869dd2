// In-process transports: a server transport that only records its callback, and
// a client transport whose traffic goes to functions of the harness.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include "mcp_transport.h"
#ifdef __cplusplus
extern "C" {
#endif
mcp_transport_t* fake_server_new(void (*on_stop)(void*), void* ud);
char* fake_server_deliver(mcp_transport_t* t, const void* data, size_t size, int* err);
// send gets the bytes of one sendv call joined; recv may be null
mcp_transport_t* fake_client_new(int protocol, int (*send)(void*, const void*, size_t), int (*recv)(void*, char**, size_t*, uint32_t), void* ud);
void fake_client_deliver(mcp_transport_t* t, const void* data, size_t size, int* err);
void fake_client_error(mcp_transport_t* t, int code);
#ifdef __cplusplus
}
#endif
