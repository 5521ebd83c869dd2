// TECHNIQUE: stateful model-based testing of a real client talking to a real server in process: random registrations, texts and calls, every answer compared with what was registered or produced
// NOTE: Client and server joined by an in-process transport (three delivery modes). Texts are valid UTF-8 without NUL; resource items are text items; arguments within the documented 8 KB, names within 100 bytes, URIs within 2 KB.
// SHIM: srv_shim.c
#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include "srv.hpp"
extern "C" {
#define template template_
#include "mcp_client.h"
#undef template
#include "mcp_thread_local.h"
}
using namespace pbt;

struct Item { mcp_content_type_t ty; bool hasmime; std::string mime; bool hastext; std::string text; };
struct Reply { std::vector<Item> items; bool err = false; int code = 0; std::string msg; };

// server side with table-driven handlers
struct Side {
    mcp_server_t* s = nullptr;
    mcp_transport_t* t = nullptr;
    std::map<std::string, Reply> res, tools;
    int calls = 0, reads = 0;
    const J* want_args = nullptr; // what the tool must receive
    bool have_args = true;
    std::string want_name;
    std::string complaint; // found by a handler
    static void give(const Reply& r, mcp_content_item_t*** content, size_t* n) {
        std::vector<mcp_content_item_t*> v;
        for (auto& i : r.items)
            v.push_back(mcp_content_item_create(i.ty, i.hasmime ? i.mime.c_str() : nullptr, i.hastext ? i.text.c_str() : nullptr, i.hastext ? i.text.size() + 1 : 0));
        mk_content(v, content, n);
    }
    static mcp_error_code_t on_read(mcp_server_t*, const char* uri, void* ud, mcp_content_item_t*** content, size_t* n, char** msg) {
        Side* me = (Side*)ud;
        me->reads++;
        auto it = me->res.find(uri);
        if (it == me->res.end()) return MCP_ERROR_RESOURCE_NOT_FOUND;
        if (it->second.code) { *msg = strdup(it->second.msg.c_str()); return (mcp_error_code_t)it->second.code; }
        give(it->second, content, n);
        return MCP_ERROR_NONE;
    }
    static mcp_error_code_t on_call(mcp_server_t*, const char* name, const mcp_json_t* params, void* ud, mcp_content_item_t*** content, size_t* n,
                                    bool* is_error, char** msg) {
        Side* me = (Side*)ud;
        me->calls++;
        if (name != me->want_name) me->complaint = "tool called under the name " + esc(name) + " instead of " + esc(me->want_name);
        std::string why;
        if (me->want_args && (!params || !jsame(params, *me->want_args, why)))
            me->complaint = "the tool received other arguments than the client sent: " + (params ? why : std::string("none"));
        auto it = me->tools.find(name);
        if (it == me->tools.end()) return MCP_ERROR_TOOL_NOT_FOUND;
        if (it->second.code) { *msg = strdup(it->second.msg.c_str()); return (mcp_error_code_t)it->second.code; }
        *is_error = it->second.err;
        give(it->second, content, n);
        return MCP_ERROR_NONE;
    }
    void open() {
        mcp_server_config_t cfg;
        memset(&cfg, 0, sizeof cfg);
        cfg.name = "srv";
        cfg.version = "1";
        cfg.thread_pool_size = 1;
        cfg.task_queue_size = 4;
        mcp_server_capabilities_t cap = {true, true};
        s = mcp_server_create(&cfg, &cap);
        PBT_CHECK(s, "server creation failed");
        mcp_server_set_resource_handler(s, on_read, this);
        mcp_server_set_tool_handler(s, on_call, this);
        t = fake_server_new(nullptr, nullptr);
    }
    void start() { PBT_CHECK(mcp_server_start(s, t) == 0, "server start failed"); }
    ~Side() {
        if (s) mcp_server_destroy(s);
        if (t) mcp_transport_destroy(t);
    }
};

// joins the two: 0 = answered from another thread, 1 = request/response transport, 2 = answered inside send
struct Link {
    Side* side;
    int mode;
    mcp_transport_t* ct = nullptr;
    std::mutex m;
    std::condition_variable cv;
    std::deque<std::string> q;
    bool done = false;
    std::string resp;
    bool has = false;
    std::thread th;
    void answer(const std::string& msg, std::string& out, bool& got) {
        int e = 0;
        Exact x(msg);
        char* r = fake_server_deliver(side->t, x.p, msg.size(), &e);
        got = r != nullptr;
        if (r) { out = r; free(r); }
    }
    void pump() {
        mcp_arena_init_current_thread(1 << 16);
        for (;;) {
            std::string msg;
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&] { return done || !q.empty(); });
                if (q.empty()) break;
                msg = q.front();
                q.pop_front();
            }
            std::string out;
            bool got;
            answer(msg, out, got);
            int e = 0;
            if (got) fake_client_deliver(ct, out.c_str(), out.size(), &e);
        }
        mcp_arena_destroy_current_thread();
    }
    static int send(void* ud, const void* d, size_t n) {
        Link* me = (Link*)ud;
        const unsigned char* p = (const unsigned char*)d;
        if (n < 4 || (size_t)((unsigned)p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]) != n - 4) fail("client sent a frame whose length prefix is wrong");
        std::string msg((const char*)d + 4, n - 4);
        if (me->mode == 0) {
            std::lock_guard<std::mutex> l(me->m);
            me->q.push_back(msg);
            me->cv.notify_all();
        } else {
            bool got;
            std::string out;
            me->answer(msg, out, got);
            if (me->mode == 1) { me->resp = out; me->has = got; }
            else if (got) { int e = 0; fake_client_deliver(me->ct, out.c_str(), out.size(), &e); }
        }
        return 0;
    }
    static int recv(void* ud, char** d, size_t* n, uint32_t) {
        Link* me = (Link*)ud;
        if (!me->has) return -1;
        *d = strdup(me->resp.c_str());
        *n = me->resp.size();
        me->has = false;
        return 0;
    }
    void open() {
        ct = fake_client_new(mode == 1 ? MCP_TRANSPORT_PROTOCOL_HTTP : MCP_TRANSPORT_PROTOCOL_TCP, send, recv, this);
        if (mode == 0) th = std::thread([this] { pump(); });
    }
    ~Link() {
        { std::lock_guard<std::mutex> l(m); done = true; cv.notify_all(); }
        if (th.joinable()) th.join();
    }
};

static std::string txt(Case& c) {
    switch (c.weighted({3, 3, 1, 1})) {
    case 0: return c.ident(0, 12);
    case 1: return c.text((size_t)c.small(0, 60));
    case 2: return c.pick({std::string("\"quoted\""), std::string("back\\slash"), std::string("line\nfeed\ttab"), std::string("\x01\x1f\x7f"),
                           std::string("\xf0\x9f\x98\x80\xc3\xa9"), std::string("null"), std::string("{\"a\":1}"), std::string("\\u0041"), std::string("%s%n")});
    default: return std::string((size_t)c.small(1, 3000), 'x') + c.text(20);
    }
}
static std::string nonempty(Case& c, size_t max) {
    std::string s = txt(c);
    if (s.empty()) s = "k";
    while (s.size() > max) { // cut at a character boundary
        s.resize(max);
        while (!s.empty() && ((unsigned char)s.back() & 0xc0) == 0x80) s.pop_back();
        if (!s.empty() && (unsigned char)s.back() >= 0xc0) s.pop_back();
        if (s.empty()) s = "k";
    }
    return s;
}
static Reply gen_reply(Case& c, bool tool) {
    Reply r;
    if (c.chance(1, 8)) { r.code = c.pick({-32601, -32000, -32603, -32004, -1}); r.msg = txt(c); return r; }
    int n = (int)c.small(tool ? 0 : 1, 6);
    for (int i = 0; i < n; i++) {
        Item it;
        it.ty = tool ? c.pick({MCP_CONTENT_TYPE_TEXT, MCP_CONTENT_TYPE_TEXT, MCP_CONTENT_TYPE_JSON, MCP_CONTENT_TYPE_BINARY}) : MCP_CONTENT_TYPE_TEXT;
        it.hasmime = !c.chance(1, 4);
        it.mime = it.hasmime ? c.pick({std::string("text/plain"), std::string("a/b"), txt(c)}) : "";
        it.hastext = true;
        it.text = txt(c);
        r.items.push_back(it);
    }
    r.err = tool && c.chance(1, 3);
    return r;
}
static std::string sv(const char* p) { return p ? std::string("=") + p : std::string("NULL"); }

static void same_items(const char* what, mcp_content_item_t** got, size_t n, const Reply& want) {
    PBT_CHECK(n == want.items.size(), "%s: the client received %zu items, %zu were produced", what, n, want.items.size());
    for (size_t i = 0; i < n; i++) {
        const Item& w = want.items[i];
        PBT_CHECK(got[i], "%s: item %zu missing", what, i);
        PBT_CHECK(got[i]->type == w.ty, "%s: item %zu has type %d instead of %d", what, i, got[i]->type, w.ty);
        std::string m = w.hasmime ? "=" + w.mime : "NULL";
        // the cache stores a missing MIME type as an empty one
        PBT_CHECK(sv(got[i]->mime_type) == m || (!w.hasmime && got[i]->mime_type && !*got[i]->mime_type), "%s: item %zu MIME type %s instead of %s", what, i, esc(sv(got[i]->mime_type)).c_str(), esc(m).c_str());
        PBT_CHECK(got[i]->data, "%s: item %zu has no text, expected %s", what, i, esc(w.text).c_str());
        PBT_CHECK(got[i]->data_size == w.text.size() + 1 || got[i]->data_size == w.text.size(), "%s: item %zu has size %zu, text is %zu", what, i, got[i]->data_size,
                  w.text.size());
        std::string t((const char*)got[i]->data, std::min(w.text.size(), got[i]->data_size));
        PBT_CHECK(t == w.text, "%s: item %zu text %s instead of %s", what, i, esc(t).c_str(), esc(w.text).c_str());
    }
}

struct Param { std::string type; bool hasdesc; std::string desc; bool req; };
struct Tool { bool hasdesc; std::string desc; std::map<std::string, Param> params; };
struct Ent { bool f[3]; std::string v[3]; };
static Ent gen_ent(Case& c) {
    Ent e;
    for (int i = 0; i < 3; i++) {
        e.f[i] = i == 0 || !c.chance(1, 3);
        e.v[i] = e.f[i] ? (i == 1 && c.flip() ? "text/plain" : txt(c)) : "";
    }
    return e;
}
static const char* p(const Ent& e, int i) { return e.f[i] ? e.v[i].c_str() : nullptr; }
static std::string want(const Ent& e, int i) { return e.f[i] ? "=" + e.v[i] : "NULL"; }

static void body(Case& c) {
    Side side;
    side.open();
    bool odd = false;
    auto special = [&](const std::string& s) {
        for (unsigned char ch : s) if (ch < 0x20 || ch >= 0x7f || ch == '"' || ch == '\\') odd = true;
    };
    std::map<std::string, Ent> res, tpl;
    std::map<std::string, Tool> tools;
    auto add_res = [&] {
        std::string uri = nonempty(c, 2000);
        Ent e = gen_ent(c);
        special(uri);
        special(e.v[0]);
        mcp_resource_t* r = mcp_resource_create(uri.c_str(), p(e, 0), p(e, 1), p(e, 2));
        PBT_CHECK(r && mcp_server_add_resource(side.s, r) == 0, "a resource could not be registered");
        mcp_resource_free(r);
        res[uri] = e;
    };
    auto add_tpl = [&] {
        std::string uri = nonempty(c, 2000);
        Ent e = gen_ent(c);
        mcp_resource_template_t* r = mcp_resource_template_create(uri.c_str(), p(e, 0), p(e, 1), p(e, 2));
        PBT_CHECK(r && mcp_server_add_resource_template(side.s, r) == 0, "a resource template could not be registered");
        mcp_resource_template_free(r);
        tpl[uri] = e;
    };
    auto add_tool = [&] {
        std::string name = nonempty(c, 90);
        Tool t;
        t.hasdesc = !c.chance(1, 4);
        t.desc = t.hasdesc ? txt(c) : "";
        special(name);
        special(t.desc);
        mcp_tool_t* m = mcp_tool_create(name.c_str(), t.hasdesc ? t.desc.c_str() : nullptr);
        PBT_CHECK(m, "tool creation failed");
        int k = (int)c.small(0, 6);
        for (int i = 0; i < k; i++) {
            std::string pn = nonempty(c, 60);
            if (t.params.count(pn)) continue;
            Param q;
            q.type = c.pick({std::string("string"), std::string("number"), std::string("object")});
            q.hasdesc = c.flip();
            q.desc = q.hasdesc ? txt(c) : "";
            q.req = c.flip();
            PBT_CHECK(mcp_tool_add_param(m, pn.c_str(), q.type.c_str(), q.hasdesc ? q.desc.c_str() : nullptr, q.req) == 0, "parameter not added");
            t.params[pn] = q;
        }
        PBT_CHECK(mcp_server_add_tool(side.s, m) == 0, "a tool could not be registered");
        mcp_tool_free(m);
        tools[name] = t;
    };
    int nr = (int)c.small(0, 40), nt = (int)c.small(0, 20), nk = (int)c.small(0, 30);
    for (int i = 0; i < nr; i++) add_res();
    for (int i = 0; i < nt; i++) add_tpl();
    for (int i = 0; i < nk; i++) add_tool();
    int nresp = (int)c.small(1, 8);
    std::vector<std::string> uris, names;
    for (int i = 0; i < nresp; i++) {
        std::string u = nonempty(c, 2000);
        if (!side.res.count(u)) { side.res[u] = gen_reply(c, false); uris.push_back(u); }
        std::string n = nonempty(c, 90);
        if (!side.tools.count(n)) { side.tools[n] = gen_reply(c, true); names.push_back(n); }
    }
    // resources reached through template expansion
    std::map<std::string, std::string> tvals;
    int ntv = (int)c.small(0, 4);
    for (int i = 0; i < ntv; i++) {
        std::string v = c.ident(1, 10);
        std::string u = "t://" + v + "/x";
        if (!side.res.count(u)) side.res[u] = gen_reply(c, false);
        tvals[v] = u;
    }
    side.start();
    Link link;
    link.side = &side;
    link.mode = (int)c.draw(3);
    link.open();
    mcp_client_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.request_timeout_ms = 20000;
    mcp_client_t* cl = mcp_client_create(&cfg, link.ct);
    PBT_CHECK(cl, "client creation failed");

    std::set<std::string> seen;
    auto reading = [&](const char* what, const std::string& u, int r, mcp_content_item_t** content, size_t n) {
        const Reply& w = side.res[u];
        if (w.code) PBT_CHECK(r != 0, "%s: the resource failed with %d but the client got a result", what, w.code);
        else {
            PBT_CHECK(r == 0, "%s of %s failed though the resource was produced", what, esc(u).c_str());
            same_items(what, content, n, w);
            for (auto& i : w.items) special(i.text);
        }
    };
    int ops = (int)c.small(1, 14);
    for (int o = 0; o < ops; o++) {
        switch (c.draw(9)) {
        case 0: {
            mcp_resource_t** got = nullptr;
            size_t n = 0;
            c.note("list_resources");
            PBT_CHECK(mcp_client_list_resources(cl, &got, &n) == 0, "listing %zu resources failed", res.size());
            PBT_CHECK(n == res.size(), "%zu resources listed, %zu registered", n, res.size());
            std::set<std::string> dup;
            for (size_t i = 0; i < n; i++) {
                PBT_CHECK(got[i] && got[i]->uri && dup.insert(got[i]->uri).second, "resource listed twice or without URI");
                auto it = res.find(got[i]->uri);
                PBT_CHECK(it != res.end(), "resource %s listed but not registered", esc(got[i]->uri).c_str());
                PBT_CHECK(sv(got[i]->name) == want(it->second, 0), "resource name %s instead of %s", esc(sv(got[i]->name)).c_str(), esc(want(it->second, 0)).c_str());
                PBT_CHECK(sv(got[i]->mime_type) == want(it->second, 1), "resource MIME type %s instead of %s", esc(sv(got[i]->mime_type)).c_str(),
                          esc(want(it->second, 1)).c_str());
                PBT_CHECK(sv(got[i]->description) == want(it->second, 2), "resource description %s instead of %s", esc(sv(got[i]->description)).c_str(),
                          esc(want(it->second, 2)).c_str());
            }
            mcp_free_resources(got, n);
            break;
        }
        case 1: {
            mcp_resource_template_t** got = nullptr;
            size_t n = 0;
            c.note("list_resource_templates");
            PBT_CHECK(mcp_client_list_resource_templates(cl, &got, &n) == 0, "listing %zu templates failed", tpl.size());
            PBT_CHECK(n == tpl.size(), "%zu templates listed, %zu registered", n, tpl.size());
            std::set<std::string> dup;
            for (size_t i = 0; i < n; i++) {
                PBT_CHECK(got[i] && got[i]->uri_template && dup.insert(got[i]->uri_template).second, "template listed twice or without URI");
                auto it = tpl.find(got[i]->uri_template);
                PBT_CHECK(it != tpl.end(), "template %s listed but not registered", esc(got[i]->uri_template).c_str());
                PBT_CHECK(sv(got[i]->name) == want(it->second, 0), "template name %s instead of %s", esc(sv(got[i]->name)).c_str(), esc(want(it->second, 0)).c_str());
                PBT_CHECK(sv(got[i]->mime_type) == want(it->second, 1), "template MIME type %s instead of %s", esc(sv(got[i]->mime_type)).c_str(),
                          esc(want(it->second, 1)).c_str());
                PBT_CHECK(sv(got[i]->description) == want(it->second, 2), "template description %s instead of %s", esc(sv(got[i]->description)).c_str(),
                          esc(want(it->second, 2)).c_str());
            }
            mcp_free_resource_templates(got, n);
            break;
        }
        case 2: {
            mcp_tool_t** got = nullptr;
            size_t n = 0;
            c.note("list_tools");
            PBT_CHECK(mcp_client_list_tools(cl, &got, &n) == 0, "listing %zu tools failed", tools.size());
            PBT_CHECK(n == tools.size(), "%zu tools listed, %zu registered", n, tools.size());
            std::set<std::string> dup;
            for (size_t i = 0; i < n; i++) {
                PBT_CHECK(got[i] && got[i]->name && dup.insert(got[i]->name).second, "tool listed twice or without name");
                auto it = tools.find(got[i]->name);
                PBT_CHECK(it != tools.end(), "tool %s listed but not registered", esc(got[i]->name).c_str());
                const Tool& t = it->second;
                PBT_CHECK(sv(got[i]->description) == (t.hasdesc ? "=" + t.desc : "NULL"), "tool description %s instead of %s", esc(sv(got[i]->description)).c_str(),
                          esc(t.desc).c_str());
                PBT_CHECK(got[i]->input_schema_count == t.params.size(), "tool has %zu parameters instead of %zu", got[i]->input_schema_count, t.params.size());
                std::set<std::string> pd;
                for (size_t k = 0; k < t.params.size(); k++) {
                    auto& q = got[i]->input_schema[k];
                    PBT_CHECK(q.name && pd.insert(q.name).second, "parameter twice or without name");
                    auto w = t.params.find(q.name);
                    PBT_CHECK(w != t.params.end(), "tool parameter %s was not registered", esc(q.name).c_str());
                    PBT_CHECK(sv(q.type) == "=" + w->second.type && q.required == w->second.req, "parameter type or required flag changed");
                    PBT_CHECK(sv(q.description) == (w->second.hasdesc ? "=" + w->second.desc : "NULL"), "parameter description %s instead of %s",
                              esc(sv(q.description)).c_str(), esc(w->second.desc).c_str());
                }
            }
            mcp_free_tools(got, n);
            break;
        }
        case 3: case 4: {
            const std::string& u = c.pick(uris);
            mcp_content_item_t** content = nullptr;
            size_t n = 0;
            bool again = !seen.insert(u).second;
            c.note("read_resource %s%s", esc(u, 40).c_str(), again ? " (again)" : "");
            if (again) c.label("read again");
            int r = mcp_client_read_resource(cl, u.c_str(), &content, &n);
            reading("read", u, r, content, n);
            if (r == 0) mcp_free_content(content, n);
            break;
        }
        case 5: case 6: {
            const std::string& nm = c.pick(names);
            J args;
            args.t = J::Obj;
            int k = (int)c.small(0, 5), budget = 20;
            for (int i = 0; i < k; i++) {
                std::string key = gen_key(c);
                args.o[key] = gen_json(c, 2, budget, 60);
            }
            std::string at;
            render(c, args, at, (unsigned)c.draw(3));
            if (at.size() > 7000) break;
            bool noargs = args.o.empty() && c.flip();
            side.want_args = &args;
            side.want_name = nm;
            side.complaint.clear();
            int before = side.calls;
            mcp_content_item_t** content = nullptr;
            size_t n = 0;
            bool err = c.flip();
            c.note("call_tool %s %s", esc(nm, 40).c_str(), esc(at, 60).c_str());
            int r = mcp_client_call_tool(cl, nm.c_str(), noargs ? nullptr : at.c_str(), &content, &n, &err);
            const Reply& w = side.tools[nm];
            PBT_CHECK(side.complaint.empty(), "%s", side.complaint.c_str());
            PBT_CHECK(side.calls == before + 1, "the tool was called %d times for one call", side.calls - before);
            if (w.code) PBT_CHECK(r != 0, "the tool failed with %d but the client got a result", w.code);
            else {
                PBT_CHECK(r == 0, "calling tool %s failed though the tool succeeded", esc(nm).c_str());
                PBT_CHECK(err == w.err, "error flag %d instead of %d", err, w.err);
                same_items("tool result", content, n, w);
                for (auto& i : w.items) special(i.text);
            }
            if (r == 0) mcp_free_content(content, n);
            break;
        }
        case 7: {
            if (tvals.empty()) break;
            auto it = tvals.begin();
            std::advance(it, (long)c.draw(tvals.size()));
            std::string pj = "{\"v\":\"" + it->first + "\"}";
            mcp_content_item_t** content = nullptr;
            size_t n = 0;
            c.note("read with template %s", pj.c_str());
            int r = mcp_client_read_resource_with_template(cl, "t://{v}/x", pj.c_str(), &content, &n);
            reading("template read", it->second, r, content, n);
            if (r == 0) mcp_free_content(content, n);
            break;
        }
        default: {
            if (tvals.empty()) break;
            std::vector<std::string> pj, us;
            int k = (int)c.small(1, 6);
            for (int i = 0; i < k; i++) {
                auto it = tvals.begin();
                std::advance(it, (long)c.draw(tvals.size()));
                pj.push_back("{\"v\":\"" + it->first + "\"}");
                us.push_back(it->second);
            }
            std::vector<const char*> ptr;
            for (auto& x : pj) ptr.push_back(x.c_str());
            mcp_content_item_t*** ca = nullptr;
            size_t* na = nullptr;
            int* ra = nullptr;
            c.note("batch read of %d", k);
            int good = mcp_client_read_resources_with_template_batch(cl, "t://{v}/x", ptr.data(), ptr.size(), &ca, &na, &ra);
            PBT_CHECK(good >= 0 && ca && na && ra, "batch read failed");
            int ok = 0;
            for (int i = 0; i < k; i++) {
                reading("batch read", us[i], ra[i], ca[i], na[i]);
                ok += ra[i] == 0;
            }
            PBT_CHECK(ok == good, "batch read reports %d successes, there are %d", good, ok);
            mcp_client_free_batch_resources(ca, na, ra, (size_t)k);
        }
        }
    }
    mcp_client_destroy(cl);
    c.nontrivial(odd);
}

// the client is used in a thread of its own, as an application would
static void in_thread(Case& c) {
    bool fresh = c.flip();
    if (!fresh) { body(c); return; }
    c.label("fresh client thread");
    std::thread t([&] { body(c); mcp_arena_destroy_current_thread(); });
    t.join();
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P07";
    o.rule = "some registered, listed, returned or passed text contains a quote, backslash, control or non-ASCII character";
    o.tests = {{"client_server", in_thread, 40000, 400000, 40}};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
