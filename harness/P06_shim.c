#include "server_internal.h"
char* p06_request(mcp_server_t* s, uint64_t id, const char* method, const char* params, const mcp_auth_context_t* a, int* err) {
    mcp_request_t r;
    memset(&r, 0, sizeof r);
    r.id = id;
    r.method = (char*)method;
    r.params = (void*)params;
    return handle_request(s, NULL, &r, a, err);
}
