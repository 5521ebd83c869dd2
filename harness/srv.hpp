// A real server with deterministic handlers behind an in-process transport.
#pragma once
#include "jval.hpp"
#define template template_
extern "C" {
#include "mcp_server.h"
}
#undef template
#include "srv_shim.h"

inline mcp_content_item_t* mk_item(mcp_content_type_t ty, const std::string& mime, const std::string& text) {
    return mcp_content_item_create(ty, mime.empty() ? nullptr : mime.c_str(), text.c_str(), text.size() + 1);
}
inline void mk_content(const std::vector<mcp_content_item_t*>& v, mcp_content_item_t*** content, size_t* n) {
    *content = (mcp_content_item_t**)malloc(std::max<size_t>(1, v.size()) * sizeof(void*));
    for (size_t i = 0; i < v.size(); i++) (*content)[i] = v[i];
    *n = v.size();
}

// "err:<code>" names make the handlers fail with that code
inline int err_of(const std::string& n) {
    int c = atoi(n.c_str() + 4);
    return c < 0 ? c : -32000;
}

struct Srv {
    mcp_server_t* s = nullptr;
    mcp_transport_t* t = nullptr;
    int reads = 0, calls = 0; // handler invocations
    std::string last_args;
    static mcp_error_code_t on_read(mcp_server_t*, const char* uri, void* ud, mcp_content_item_t*** content, size_t* n, char** msg) {
        Srv* me = (Srv*)ud;
        me->reads++;
        std::string u = uri;
        if (u.rfind("err:", 0) == 0) { *msg = strdup("no such resource"); return (mcp_error_code_t)err_of(u); }
        if (u.rfind("none:", 0) == 0) { if (u.size() % 2) *msg = strdup("x"); return MCP_ERROR_RESOURCE_NOT_FOUND; }
        std::vector<mcp_content_item_t*> v;
        size_t k = 1 + (u.size() % 3);
        for (size_t i = 0; i < k; i++) v.push_back(mk_item(MCP_CONTENT_TYPE_TEXT, "text/plain", pbt::fmt("%zu:", i) + u));
        mk_content(v, content, n);
        return MCP_ERROR_NONE;
    }
    static mcp_error_code_t on_call(mcp_server_t*, const char* name, const mcp_json_t* params, void* ud, mcp_content_item_t*** content, size_t* n,
                                    bool* is_error, char** msg) {
        Srv* me = (Srv*)ud;
        me->calls++;
        std::string u = name;
        if (u.rfind("err:", 0) == 0) { *msg = strdup("tool failed"); return (mcp_error_code_t)err_of(u); }
        if (u.rfind("none:", 0) == 0) { if (u.size() % 2) *msg = strdup("x"); return MCP_ERROR_TOOL_NOT_FOUND; }
        std::string token;
        if (params && mcp_json_get_type(params) == MCP_JSON_OBJECT) {
            const char* sv = nullptr;
            mcp_json_t* p = mcp_json_object_get_property(params, "token");
            if (p && mcp_json_get_type(p) == MCP_JSON_STRING && mcp_json_get_string(p, &sv) == 0 && sv) token = sv;
        }
        *is_error = u.size() % 2 != 0;
        std::vector<mcp_content_item_t*> v;
        if (u != "empty") v.push_back(mk_item(MCP_CONTENT_TYPE_TEXT, "text/plain", u + "|" + token));
        mk_content(v, content, n);
        return MCP_ERROR_NONE;
    }
    void open(const char* key, bool res, bool tools, bool res_handler = true, bool tool_handler = true) {
        mcp_server_config_t cfg;
        memset(&cfg, 0, sizeof cfg);
        cfg.name = "srv";
        cfg.version = "1";
        cfg.api_key = key;
        cfg.thread_pool_size = 1;
        cfg.task_queue_size = 4;
        mcp_server_capabilities_t cap = {res, tools};
        s = mcp_server_create(&cfg, &cap);
        PBT_CHECK(s, "server creation failed");
        if (res_handler) mcp_server_set_resource_handler(s, on_read, this);
        if (tool_handler) mcp_server_set_tool_handler(s, on_call, this);
        t = fake_server_new(nullptr, nullptr);
        PBT_CHECK(mcp_server_start(s, t) == 0, "server start failed");
    }
    ~Srv() {
        if (s) mcp_server_destroy(s);
        if (t) mcp_transport_destroy(t);
    }
    // false when there is no response
    bool ask(const std::string& msg, std::string& out, int* err = nullptr) {
        // exact-size heap copy so that reads past the end are seen
        char* copy = (char*)malloc(msg.size() ? msg.size() : 1);
        memcpy(copy, msg.data(), msg.size());
        int e = 0;
        char* r = fake_server_deliver(t, copy, msg.size(), &e);
        free(copy);
        if (err) *err = e;
        if (!r) return false;
        out = r;
        free(r);
        return true;
    }
};
