// P03: JSON-RPC messages keep kind, id, method and content through encode/decode.
// TECHNIQUE: property-based round trip of generated messages through every encoder and decoder, with an independent JSON reader; batch decoding compared with decoding each element alone
// NOTE: message ids are non-negative integers up to 2^53, which is what a JSON number holds exactly
#include "jval.hpp"
extern "C" {
#include "mcp_json_message.h"
#include "mcp_json_rpc.h"
}
using namespace pbt;

static J gen_container(Case& c) {
    J j = gen_json(c);
    if (j.t == J::Arr || j.t == J::Obj) return j;
    J o = J::obj();
    o.o["v"] = j;
    return o;
}
static uint64_t gen_id(Case& c) {
    switch (c.draw(5)) {
    case 0: return c.draw(20);
    case 1: return c.draw(100000);
    case 2: return c.draw((1ull << 53) + 1);
    case 3: return 1ull << c.draw(54);
    default: return c.pick({0ull, 9ull, 10ull, 99ull, 100ull, 2147483648ull, 4294967295ull, 4294967296ull, 9007199254740991ull, 9007199254740992ull, 1000000000000000ull});
    }
}
static std::string gen_method(Case& c) {
    switch (c.draw(4)) {
    case 0: return c.pick({std::string("ping"), std::string("list_tools"), std::string("tools/call")});
    case 1: return c.ident(0, 40);
    case 2: return c.text(c.chance(1, 10) ? 600 : 40);
    default: return c.printable(80);
    }
}
static std::string rendered(Case& c, const J& j) {
    std::string s;
    render(c, j, s, c.flip());
    return s;
}

struct M { // decoded message
    int kind = 0; // 0 invalid, 1 request, 2 notification, 3 response, 4 error
    uint64_t id = 0;
    std::string method, text;
    bool has = false; // params / result present
    J content;
    int code = 0;
    bool operator==(const M& r) const {
        return kind == r.kind && id == r.id && method == r.method && text == r.text && has == r.has && content == r.content && code == r.code;
    }
    std::string show() const {
        static const char* n[] = {"invalid", "request", "notification", "response", "error"};
        return fmt("%s id=%llu method=%s code=%d message=%s content=%s", n[kind], (unsigned long long)id, esc(method).c_str(), code,
                   esc(text).c_str(), has ? esc(jdump(content), 300).c_str() : "-");
    }
};
static J parsed(const void* p, const char* what) {
    J j;
    PBT_CHECK(jparse((const char*)p, j) != 0, "%s is not valid JSON: %s", what, esc((const char*)p).c_str());
    return j;
}
static M from(const mcp_message_t& m) {
    M r;
    switch (m.type) {
    case MCP_MESSAGE_TYPE_REQUEST:
        r.kind = 1;
        r.id = m.request.id;
        r.method = m.request.method;
        if (m.request.params) { r.has = true; r.content = parsed(m.request.params, "decoded params"); }
        break;
    case MCP_MESSAGE_TYPE_NOTIFICATION:
        r.kind = 2;
        r.method = m.notification.method;
        if (m.notification.params) { r.has = true; r.content = parsed(m.notification.params, "decoded params"); }
        break;
    case MCP_MESSAGE_TYPE_RESPONSE:
        r.id = m.response.id;
        if (m.response.error_code != MCP_ERROR_NONE || m.response.error_message) {
            r.kind = 4;
            r.code = (int)m.response.error_code;
            PBT_CHECK(!m.response.result, "an error response has a result");
            r.text = m.response.error_message ? m.response.error_message : "";
        } else {
            r.kind = 3;
            PBT_CHECK(m.response.result != nullptr, "a success response has no result");
            r.has = true;
            r.content = parsed(m.response.result, "decoded result");
        }
        break;
    default: break;
    }
    return r;
}
static M decode_alone(const std::string& t) {
    Exact e(t);
    mcp_message_t m;
    memset(&m, 0, sizeof m);
    int rc = mcp_json_parse_message(e, &m);
    M r;
    if (rc == 0) {
        r = from(m);
        PBT_CHECK(r.kind != 0, "parse_message succeeded with an invalid message for %s", esc(t, 400).c_str());
        mcp_message_release_contents(&m);
    }
    mcp_arena_reset_current_thread();
    return r;
}
// one message through parse_message_or_batch
static M decode_single(const std::string& t) {
    Exact e(t);
    mcp_message_t* v = nullptr;
    size_t n = 77;
    int rc = mcp_json_parse_message_or_batch(e, &v, &n);
    M r;
    if (rc == 0) {
        PBT_CHECK(n == 1 && v, "a single message decoded as %zu messages", n);
        r = from(v[0]);
        mcp_json_free_message_array(v, n);
    }
    mcp_arena_reset_current_thread();
    return r;
}
static std::string take(char* p, const char* what) {
    PBT_CHECK(p != nullptr, "%s returned NULL", what);
    std::string s = p;
    free(p);
    mcp_arena_reset_current_thread();
    return s;
}

static M gen_message(Case& c) {
    M m;
    m.kind = 1 + (int)c.draw(4);
    if (m.kind != 2) m.id = gen_id(c);
    if (m.kind <= 2) {
        m.method = gen_method(c);
        m.has = c.chance(3, 4);
        if (m.has) m.content = gen_container(c);
    } else if (m.kind == 3) {
        m.has = true;
        m.content = gen_json(c);
    } else {
        do m.code = c.flip() ? (int)c.range(-32800, -32000) : c.pick({-32700, -32600, -32601, -32602, -32603, 1, -1, INT_MAX, INT_MIN}); while (m.code == 0);
        m.text = c.text(c.chance(1, 10) ? 900 : 60);
    }
    return m;
}
static J as_json(const M& m) {
    J j = J::obj();
    j.o["jsonrpc"] = J::str("2.0");
    if (m.kind != 2) j.o["id"] = J::num((double)m.id);
    if (m.kind <= 2) {
        j.o["method"] = J::str(m.method);
        if (m.has) j.o["params"] = m.content;
    } else if (m.kind == 3) j.o["result"] = m.content;
    else {
        J e = J::obj();
        e.o["code"] = J::num(m.code);
        e.o["message"] = J::str(m.text);
        j.o["error"] = e;
    }
    return j;
}

static void roundtrip(Case& c) {
    M m = gen_message(c);
    std::string content = m.has ? rendered(c, m.content) : "", text, enc;
    Exact meth(m.method), cont(content), msg(m.text);
    const char* params = m.has ? (const char*)cont : nullptr;
    if (m.kind == 1) {
        switch (c.draw(4)) {
        case 0: enc = "mcp_json_create_request"; text = take(mcp_json_create_request(meth, params, m.id), "mcp_json_create_request"); break;
        case 1: enc = "mcp_json_format_request"; text = take(mcp_json_format_request(m.id, meth, params), "mcp_json_format_request"); break;
        case 2: enc = "mcp_json_format_request_direct"; text = take(mcp_json_format_request_direct(m.id, meth, params), "mcp_json_format_request_direct"); break;
        default: break;
        }
    } else if (m.kind == 3) {
        bool nul = m.content.t == J::Null && c.flip();
        const char* res = nul ? nullptr : params;
        switch (c.draw(3)) {
        case 0: enc = "mcp_json_create_response"; text = take(mcp_json_create_response(m.id, res), "mcp_json_create_response"); break;
        case 1: enc = "mcp_json_format_response"; text = take(mcp_json_format_response(m.id, res), "mcp_json_format_response"); break;
        default: break;
        }
    } else if (m.kind == 4) {
        switch (c.draw(3)) {
        case 0: enc = "mcp_json_create_error_response"; text = take(mcp_json_create_error_response(m.id, m.code, msg), "mcp_json_create_error_response"); break;
        case 1: enc = "mcp_json_format_error_response"; text = take(mcp_json_format_error_response(m.id, (mcp_error_code_t)m.code, msg), "mcp_json_format_error_response"); break;
        default: break;
        }
    }
    if (enc.empty()) {
        enc = "mcp_json_stringify_message";
        mcp_message_t s;
        memset(&s, 0, sizeof s);
        if (m.kind == 1) { s.type = MCP_MESSAGE_TYPE_REQUEST; s.request.id = m.id; s.request.method = meth.p; s.request.params = (void*)params; }
        else if (m.kind == 2) { s.type = MCP_MESSAGE_TYPE_NOTIFICATION; s.notification.method = meth.p; s.notification.params = (void*)params; }
        else {
            s.type = MCP_MESSAGE_TYPE_RESPONSE;
            s.response.id = m.id;
            if (m.kind == 3) s.response.result = (void*)params;
            else { s.response.error_code = (mcp_error_code_t)m.code; s.response.error_message = msg.p; }
        }
        text = take(mcp_json_stringify_message(&s), enc.c_str());
    }
    c.note("%s of %s", enc.c_str(), m.show().c_str());
    c.note("encoded: %s", esc(text, 400).c_str());
    // the encoded text says exactly that
    J seen;
    PBT_CHECK(jparse(text, seen) == 1, "%s produced text that is not valid JSON: %s", enc.c_str(), esc(text, 400).c_str());
    J want = as_json(m);
    PBT_CHECK(seen == want, "%s wrote %s, expected %s", enc.c_str(), esc(jdump(seen), 400).c_str(), esc(jdump(want), 400).c_str());
    M a = decode_alone(text), b = decode_single(text);
    PBT_CHECK(a == m, "decoded as %s", a.show().c_str());
    PBT_CHECK(b == m, "parse_message_or_batch decoded it as %s", b.show().c_str());
    if (m.kind >= 3) {
        uint64_t id = 1;
        mcp_error_code_t ec = MCP_ERROR_INTERNAL_ERROR;
        char *em = nullptr, *res = nullptr;
        Exact e(text);
        PBT_CHECK(mcp_json_parse_response(e, &id, &ec, &em, &res) == 0, "mcp_json_parse_response refused the response");
        M r;
        r.kind = m.kind;
        r.id = id;
        r.code = (int)ec;
        if (m.kind == 3) { PBT_CHECK(res && !em, "result or error text wrong"); r.has = true; r.content = parsed(res, "result"); }
        else { PBT_CHECK(em && !res, "error text missing or a result present"); r.text = em; }
        free(em);
        free(res);
        mcp_arena_reset_current_thread();
        PBT_CHECK(r == m, "mcp_json_parse_response gave %s", r.show().c_str());
    }
    c.label(m.kind == 1 ? "request" : m.kind == 2 ? "notification" : m.kind == 3 ? "response" : "error");
    bool plain = true;
    for (unsigned char ch : m.method + m.text) if (ch < 32 || ch > 126 || ch == '"' || ch == '\\') plain = false;
    c.nontrivial((m.has && m.content.nodes() >= 3) || !plain || m.id > 9);
}

// an element that is (usually) not a message, or whose reading is left open
static J gen_odd(Case& c, int& klass) { // klass: 0 certainly invalid, 1 open
    klass = 0;
    M base = gen_message(c);
    J j = as_json(base);
    switch (c.draw(11)) {
    case 0: return J::null();
    case 1: return J::num(gen_num(c));
    case 2: return J::str(c.text(30));
    case 3: { J a = J::arr(); int n = (int)c.draw(3); for (int i = 0; i < n; i++) a.a.push_back(as_json(gen_message(c))); return a; }
    case 4: return J::obj();
    case 5: { J o = J::obj(); o.o["jsonrpc"] = J::str("2.0"); o.o["id"] = J::num((double)gen_id(c)); return o; }
    case 6: // method of a wrong type and nothing else
        j = J::obj(); j.o["jsonrpc"] = J::str("2.0"); j.o["id"] = J::num(3); j.o["method"] = c.pick({J::num(1), J::null(), J::arr(), J::obj()}); return j;
    case 7: // params of a wrong type
        j = J::obj(); j.o["jsonrpc"] = J::str("2.0"); if (c.flip()) j.o["id"] = J::num(4); j.o["method"] = J::str("ping"); j.o["params"] = c.pick({J::num(1), J::str("x"), J::boolean(true)}); return j;
    case 8: { // both a result and an error
        j = J::obj(); j.o["jsonrpc"] = J::str("2.0"); j.o["id"] = J::num(5); j.o["result"] = J::num(1);
        J e = J::obj(); e.o["code"] = J::num(-1); e.o["message"] = J::str("m"); j.o["error"] = e; return j; }
    case 9: // id left open: strings, null, fractions, negatives, huge
        klass = 1;
        if (base.kind == 2) j.o["id"] = J::num(1);
        j.o["id"] = c.pick({J::str("abc"), J::null(), J::num(1.5), J::num(-1), J::num(1e300), J::num(-1e300), J::num(18446744073709551616.0), J::boolean(true), J::arr()});
        return j;
    default: { // malformed error object
        klass = 1;
        j = J::obj(); j.o["jsonrpc"] = J::str("2.0"); j.o["id"] = J::num(6);
        J e = J::obj();
        if (c.flip()) e.o["code"] = c.pick({J::num(1.5), J::num(1e30), J::num(-1e30), J::str("x"), J::null()});
        if (c.flip()) e.o["message"] = c.pick({J::num(1), J::null(), J::str("m")});
        j.o["error"] = c.chance(1, 4) ? J::str("e") : e;
        return j; }
    }
}

static void batch(Case& c) {
    size_t n = (size_t)c.small(0, c.chance(1, 5) ? 60 : 12);
    std::vector<std::string> texts;
    std::vector<M> want;
    std::vector<int> klass; // -1 well-formed, 0 invalid, 1 open
    size_t odd = 0;
    for (size_t i = 0; i < n; i++) {
        J j;
        M m;
        int k = -1;
        if (c.chance(1, 4)) { j = gen_odd(c, k); odd++; }
        else { m = gen_message(c); j = as_json(m); }
        texts.push_back(rendered(c, j));
        want.push_back(m);
        klass.push_back(k);
    }
    std::string all = c.chance(1, 4) ? " \n[" : "[";
    for (size_t i = 0; i < n; i++) { if (i) all += ","; all += texts[i]; }
    all += "]";
    c.note("batch of %zu elements, %zu odd: %s", n, odd, esc(all, 600).c_str());
    std::vector<M> alone;
    for (auto& t : texts) alone.push_back(decode_alone(t));
    Exact e(all);
    mcp_message_t* v = nullptr;
    size_t got = 99;
    int rc = mcp_json_parse_message_or_batch(e, &v, &got);
    PBT_CHECK(rc == 0, "a batch was refused (%d)", rc);
    PBT_CHECK(got == n, "a batch of %zu elements was decoded as %zu messages", n, got);
    PBT_CHECK(n == 0 || v, "no messages");
    for (size_t i = 0; i < n; i++) {
        M b = from(v[i]);
        PBT_CHECK(b == alone[i], "element %zu: in the batch %s, alone %s", i, b.show().c_str(), alone[i].show().c_str());
        if (klass[i] == -1) PBT_CHECK(b == want[i], "element %zu decoded as %s, expected %s", i, b.show().c_str(), want[i].show().c_str());
        if (klass[i] == 0) PBT_CHECK(b.kind == 0, "element %zu is not a message but was decoded as %s", i, b.show().c_str());
    }
    mcp_json_free_message_array(v, got);
    mcp_arena_reset_current_thread();
    if (odd) c.label("with_invalid_elements");
    c.nontrivial(n >= 2);
}

// parameters of the client's calls, and lists of resources in both parsers
static void params(Case& c) {
    std::string name = c.text(60);
    J args = gen_container(c);
    bool has = c.chance(3, 4);
    std::string a = rendered(c, args);
    Exact en(name), ea(a);
    std::string t = take(mcp_json_format_call_tool_params(en, has ? (const char*)ea : nullptr), "mcp_json_format_call_tool_params");
    J want = J::obj();
    want.o["name"] = J::str(name);
    if (has) want.o["arguments"] = args;
    J got;
    PBT_CHECK(jparse(t, got) == 1 && got == want, "call_tool params %s, expected %s", esc(t, 300).c_str(), esc(jdump(want), 300).c_str());
    t = take(mcp_json_format_read_resource_params(en), "mcp_json_format_read_resource_params");
    want = J::obj();
    want.o["uri"] = J::str(name);
    PBT_CHECK(jparse(t, got) == 1 && got == want, "read_resource params %s", esc(t, 300).c_str());

    // resource list
    J list = J::arr();
    bool simple = c.flip();
    size_t n = (size_t)c.small(0, 8);
    for (size_t i = 0; i < n; i++) {
        J r = J::obj();
        auto txt = [&] { return simple ? "x" + c.ident(1, 20) : c.text(40); }; // the direct parser takes plain values that are no member names
        r.o["uri"] = J::str(txt());
        for (const char* k : {"name", "mimeType", "description"}) if (c.chance(3, 4)) r.o[k] = J::str(txt());
        list.a.push_back(r);
    }
    J root = J::obj();
    root.o["resources"] = list;
    std::string text = jdump(root);
    c.note("resources: %s", esc(text, 400).c_str());
    Exact et(text);
    for (int direct = 0; direct < (simple ? 2 : 1); direct++) {
        mcp_resource_t** v = nullptr;
        size_t cnt = 5;
        int rc = direct ? mcp_json_parse_resources_direct(et, &v, &cnt) : mcp_json_parse_resources(et, &v, &cnt);
        PBT_CHECK(rc == 0 && cnt == n, "resource list: rc %d, %zu resources, expected %zu", rc, cnt, n);
        for (size_t i = 0; i < n; i++) {
            auto eq = [&](const char* key, const char* val) {
                const J* w = list.a[i].get(key);
                std::string ws = w ? w->s : "", gs = val ? val : "";
                PBT_CHECK(ws == gs, "%s resource %zu: %s is %s, expected %s", direct ? "direct:" : "", i, key, esc(gs).c_str(), esc(ws).c_str());
            };
            eq("uri", v[i]->uri);
            eq("name", v[i]->name);
            eq("mimeType", v[i]->mime_type);
            eq("description", v[i]->description);
            mcp_resource_free(v[i]);
        }
        free(v);
        mcp_arena_reset_current_thread();
    }
    c.nontrivial(n > 0 && has);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P03";
    o.rule = "roundtrip: parameters or result with at least three nodes, text that needs escaping, or an id of several digits; batch: at least two elements; params: arguments and at least one resource";
    o.tests = {
        {"roundtrip", roundtrip, 150000, 1500000},
        {"batch", batch, 25000, 250000},
        {"params", params, 25000, 250000},
    };
    o.assumptions = {"ids of requests and responses are integers from 0 to 2^53; other ids only have to be read alike in and outside a batch", "the direct resource-list parser is exercised with plain values that are no member names"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
