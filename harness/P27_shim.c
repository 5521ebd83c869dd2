// Gateway mode has no public switch, so the fields are set from here.
#include "internal/server_internal.h"
#include "mcp_gateway.h"
int p27_gateway(mcp_server_t* s, const char* config_path) {
    mcp_backend_info_t* list = NULL;
    size_t n = 0;
    if (load_gateway_config(config_path, &list, &n) != MCP_ERROR_NONE) return -1;
    s->backends = list;
    s->backend_count = n;
    s->is_gateway_mode = true;
    return (int)n;
}
