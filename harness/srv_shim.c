#include "srv_shim.h"
#include "transport_internal.h"
#include <stdlib.h>
#include <string.h>

typedef struct {
    mcp_transport_message_callback_t cb;
    mcp_transport_error_callback_t ecb;
    void* cb_ud;
    void (*on_stop)(void*);
    int (*send)(void*, const void*, size_t);
    int (*recv)(void*, char**, size_t*, uint32_t);
    void* ud;
} fake_t;

static int f_start(mcp_transport_t* t, mcp_transport_message_callback_t cb, void* ud, mcp_transport_error_callback_t ecb) {
    fake_t* f = (fake_t*)t->transport_data;
    f->cb = cb;
    f->ecb = ecb;
    f->cb_ud = ud;
    return 0;
}
static int f_stop(mcp_transport_t* t) {
    fake_t* f = (fake_t*)t->transport_data;
    if (f->on_stop) f->on_stop(f->ud);
    return 0;
}
static void f_destroy(mcp_transport_t* t) {
    free(t->transport_data);
    free(t);
}
static int f_sendv(mcp_transport_t* t, const mcp_buffer_t* b, size_t n) {
    fake_t* f = (fake_t*)t->transport_data;
    size_t total = 0, p = 0;
    for (size_t i = 0; i < n; i++) total += b[i].size;
    char* buf = (char*)malloc(total + 1);
    for (size_t i = 0; i < n; i++) { memcpy(buf + p, b[i].data, b[i].size); p += b[i].size; }
    buf[total] = 0;
    int r = f->send(f->ud, buf, total);
    free(buf);
    return r;
}
static int f_send(mcp_transport_t* t, const void* d, size_t n) {
    mcp_buffer_t b = {d, n};
    return f_sendv(t, &b, 1);
}
static int f_recv(mcp_transport_t* t, char** d, size_t* n, uint32_t timeout) {
    fake_t* f = (fake_t*)t->transport_data;
    return f->recv ? f->recv(f->ud, d, n, timeout) : -1;
}
mcp_transport_t* fake_server_new(void (*on_stop)(void*), void* ud) {
    mcp_transport_t* t = (mcp_transport_t*)calloc(1, sizeof(*t));
    fake_t* f = (fake_t*)calloc(1, sizeof(*f));
    f->on_stop = on_stop;
    f->ud = ud;
    t->type = MCP_TRANSPORT_TYPE_SERVER;
    t->server.start = f_start;
    t->server.stop = f_stop;
    t->server.destroy = f_destroy;
    t->transport_data = f;
    return t;
}
char* fake_server_deliver(mcp_transport_t* t, const void* data, size_t size, int* err) {
    fake_t* f = (fake_t*)t->transport_data;
    return f->cb(f->cb_ud, data, size, err);
}
mcp_transport_t* fake_client_new(int protocol, int (*send)(void*, const void*, size_t), int (*recv)(void*, char**, size_t*, uint32_t), void* ud) {
    mcp_transport_t* t = (mcp_transport_t*)calloc(1, sizeof(*t));
    fake_t* f = (fake_t*)calloc(1, sizeof(*f));
    f->send = send;
    f->recv = recv;
    f->ud = ud;
    t->type = MCP_TRANSPORT_TYPE_CLIENT;
    t->protocol_type = (mcp_transport_protocol_t)protocol;
    t->client.start = f_start;
    t->client.stop = f_stop;
    t->client.destroy = f_destroy;
    t->client.send = f_send;
    t->client.sendv = f_sendv;
    t->client.receive = f_recv;
    t->transport_data = f;
    return t;
}
void fake_client_deliver(mcp_transport_t* t, const void* data, size_t size, int* err) {
    fake_t* f = (fake_t*)t->transport_data;
    free(f->cb(f->cb_ud, data, size, err));
}
void fake_client_error(mcp_transport_t* t, int code) {
    fake_t* f = (fake_t*)t->transport_data;
    if (f->ecb) f->ecb(f->cb_ud, code);
}
