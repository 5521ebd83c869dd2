// TECHNIQUE: property-based testing: generated messages carrying, lacking or almost carrying the key in every shape, judged by handler invocation counts and a JSON-RPC reference model
// NOTE: A batch whose key is carried only by a request other than the first may be refused or served; keys are 1 to 1024 characters without NUL.
// SHIM: srv_shim.c
#include "srv_model.hpp"
extern "C" {
#include "mcp_auth.h"
}

static bool carries(const J& m, const std::string& key) {
    const J* p = m.get("params");
    const J* k = p && p->t == J::Obj ? p->get("apiKey") : nullptr;
    return k && k->t == J::Str && k->s == key;
}
static bool mentions(const J& m, const std::string& key) {
    if (m.t == J::Str) return m.s == key;
    for (auto& x : m.a) if (mentions(x, key)) return true;
    for (auto& x : m.o) if (mentions(x.second, key)) return true;
    return false;
}
static std::string gen_key_text(Case& c) {
    std::string k;
    switch (c.draw(5)) {
    case 0: k = c.ident(1, 40); break;
    case 1: k = std::string(1, (char)('a' + c.draw(3))); break;
    case 2: k = c.text(40); break;
    case 3: k = std::string(c.pick({255, 256, 257, 1023, 1024, 512}), 'k') ; break;
    default: k = "key-" + c.ident(3, 12); break;
    }
    k = std::string(k.c_str());
    if (k.size() > 1024) k.resize(1024), k = "x";
    return k.empty() ? "s" : k;
}
static J almost(Case& c, const std::string& key) {
    std::string k = key;
    switch (c.draw(15)) {
    case 0: k += (char)('a' + c.draw(26)); break;
    case 1: k.pop_back(); break;
    case 2: k = k.substr(1); break;
    case 3: k[c.draw(k.size())] ^= 1; break;
    case 4: k[c.draw(k.size())] ^= 0x20; break;
    case 5: k = ""; break;
    case 6: k = " " + k; break;
    case 7: k += " "; break;
    case 8: k = k + k; break;
    case 9: { J a = J::arr(); a.a.push_back(J::str(key)); return a; }
    case 10: { J o = J::obj(); o.o["apiKey"] = J::str(key); return o; }
    case 11: return c.pick({J::null(), J::boolean(true), J::num(0), J::num(1)});
    case 12: k = std::string(key.size(), '*'); break;
    case 13: k = key; std::reverse(k.begin(), k.end()); break;
    default: k = c.text(30); break;
    }
    for (auto& ch : k) if (!ch || (ch & 0x80)) ch = '_'; // stay valid UTF-8
    return J::str(k);
}
static J gen_msg(Case& c, const std::string& key, int how) { // how: 0 none, 1 right, 2 almost/elsewhere
    J m = gen_message(c);
    if (m.t != J::Obj || how == 0) return m;
    if (how == 1 || c.flip()) {
        J* p = nullptr;
        auto it = m.o.find("params");
        if (it == m.o.end() || it->second.t != J::Obj) m.o["params"] = J::obj();
        p = &m.o["params"];
        p->o["apiKey"] = how == 1 ? J::str(key) : almost(c, key);
        return m;
    }
    switch (c.draw(6)) {
    case 0: m.o["apiKey"] = J::str(key); break;
    case 1: m.o["params"].t == J::Obj ? (void)(m.o["params"].o["apikey"] = J::str(key)) : (void)0; break;
    case 2: { J a = J::arr(); a.a.push_back(J::str("apiKey")); a.a.push_back(J::str(key)); m.o["params"] = a; break; }
    case 3: { J a = J::obj(), b = J::obj(); b.o["apiKey"] = J::str(key); a.o["arguments"] = b; a.o["name"] = J::str("x"); m.o["params"] = a; break; }
    case 4: m.o["params"] = J::str(key); break;
    default: { J a = J::obj(); a.o["api_key"] = J::str(key); a.o["ApiKey"] = J::str(key); a.o["uri"] = J::str("u"); m.o["params"] = a; break; }
    }
    return m;
}

// Without the key: no handler runs and nothing but errors and pongs comes back.
static void check_denied(Srv& s, int reads, int calls, bool has, const std::string& out, const J& r) {
    PBT_CHECK(s.reads == reads && s.calls == calls, "a handler ran for a message without the key: %s", esc(out, 300).c_str());
    if (!has) return;
    PBT_CHECK(out.find("SECRET") == std::string::npos, "data returned for a message without the key: %s", esc(out, 300).c_str());
    auto one = [&](const J& x) {
        const J* re = x.get("result");
        if (!re) { PBT_CHECK(x.get("error"), "neither result nor error: %s", esc(out, 300).c_str()); return; }
        const J* m = re->get("message");
        PBT_CHECK(re->t == J::Obj && re->o.size() == 1 && m && m->t == J::Str && m->s == "pong", "an operation was performed without the key: %s", esc(out, 300).c_str());
    };
    if (r.t == J::Arr) for (auto& x : r.a) one(x);
    else one(r);
}

static void setup(Srv& s, const char* key) {
    s.open(key, true, true);
    mcp_tool_t* t = mcp_tool_create("SECRET-tool", "SECRET description");
    mcp_server_add_tool(s.s, t);
    mcp_tool_free(t);
    mcp_resource_t* r = mcp_resource_create("SECRET-uri", "n", "text/plain", "d");
    mcp_server_add_resource(s.s, r);
    mcp_resource_free(r);
    mcp_resource_template_t* rt = mcp_resource_template_create("SECRET-{x}", "n", "text/plain", "d");
    mcp_server_add_resource_template(s.s, rt);
    mcp_resource_template_free(rt);
}

static void messages(Case& c) {
    std::string key = gen_key_text(c);
    Srv s;
    setup(s, key.c_str());
    Cfg f{true, true, true, true};
    int n = (int)c.range(1, 1 + c.size() / 8), denied = 0, served = 0;
    for (int i = 0; i < n; i++) {
        J m;
        bool batch = c.chance(1, 3);
        if (batch) {
            m = J::arr();
            int k = (int)c.small(1, 6), style = (int)c.draw(4);
            for (int j = 0; j < k; j++) {
                int how = style == 0 ? (j == 0 ? 1 : (int)c.draw(3)) : style == 1 ? (c.flip() ? 0 : 2) : style == 2 ? 1 : (int)c.draw(3);
                J x = gen_msg(c, key, how);
                if (style == 1 && j == 0 && c.flip()) { x = J::obj(); x.o["jsonrpc"] = J::str("2.0"); x.o["id"] = J::num(c.draw(9)); x.o["method"] = J::str("ping"); }
                m.a.push_back(x);
            }
            c.label("batch");
        } else m = gen_msg(c, key, (int)c.draw(3));
        std::string text, out;
        render(c, m, text, c.flip());
        J back;
        int depth = 0;
        if (jparse(text, back, &depth) != 1 || depth > 90) continue;
        int r0 = s.reads, c0 = s.calls;
        bool has = s.ask(text, out);
        J r;
        if (has) PBT_CHECK(jparse(out, r) != 0, "the response is not valid JSON: %s", esc(out, 600).c_str());
        bool first = false, any = false;
        if (m.t == J::Arr) {
            for (auto& x : m.a) any |= carries(x, key);
            Expect e;
            first = !m.a.empty() && carries(m.a[0], key) && classify(m.a[0], f, e) == 1;
        } else first = any = carries(m, key);
        c.note("key %s", esc(key, 40).c_str());
        if (first) {
            served++;
            bool inter = false;
            judge(c, f, text, has, out, inter);
        } else if (!any) {
            c.note("-> %s", esc(text, 500).c_str());
            c.note("<- %s", has ? esc(out, 500).c_str() : "(none)");
            check_denied(s, r0, c0, has, out, r);
            denied++;
            // and the answer to a single request still carries its id
            if (m.t != J::Arr) {
                Expect e;
                if (classify(m, f, e) == 1) {
                    PBT_CHECK(has, "no answer to a refused request");
                    const J* id = r.get("id");
                    PBT_CHECK(id && id->t == J::Num && id->n == e.id, "refusal carries another id: %s", esc(out).c_str());
                }
            }
        }
    }
    // the key keeps working after refusals
    bool inter = false;
    J m = J::obj(), p = J::obj();
    p.o["apiKey"] = J::str(key);
    p.o["name"] = J::str("probe");
    m.o["id"] = J::num(5);
    m.o["method"] = J::str("call_tool");
    m.o["params"] = p;
    std::string out;
    bool has = s.ask(jdump(m), out);
    judge(c, f, jdump(m), has, out, inter);
    if (served) c.label("served");
    c.nontrivial(denied > 0);
}

// Arbitrary and damaged bytes without the key.
static void bytes(Case& c) {
    std::string key = "k" + c.ident(8, 20) + "Z";
    Srv s;
    setup(s, key.c_str());
    int n = (int)c.range(1, 1 + c.size() / 8);
    for (int i = 0; i < n; i++) {
        J b = gen_msg(c, key, 0);
        if (c.chance(1, 3)) { J a = J::arr(); int k = (int)c.small(1, 5); for (int j = 0; j < k; j++) a.a.push_back(gen_msg(c, key, 0)); b = a; }
        std::string text, out;
        render(c, b, text, c.flip());
        int k = (int)c.small(1, 4);
        for (int j = 0; j < k && !text.empty(); j++) {
            size_t p = c.draw(text.size());
            switch (c.draw(5)) {
            case 0: text.erase(p, 1 + c.draw(3)); break;
            case 1: text[p] = (char)c.draw(256); break;
            case 2: text.insert(p, 1, "{}[]\",:\\0-e"[c.draw(11)]); break;
            case 3: text.resize(p); break;
            default: { size_t q = c.draw(text.size()); text.insert(p, text.substr(q, c.draw(20))); break; }
            }
        }
        if (text.empty()) text = " ";
        if (text.find(key) != std::string::npos) continue;
        int r0 = s.reads, c0 = s.calls;
        bool has = s.ask(text, out);
        c.note("-> %s", esc(text, 500).c_str());
        c.note("<- %s", has ? esc(out, 500).c_str() : "(none)");
        J r;
        if (has) PBT_CHECK(jparse(out, r) != 0, "the response is not valid JSON: %s", esc(out, 600).c_str());
        check_denied(s, r0, c0, has, out, r);
    }
    c.nontrivial();
}

// The verification step itself.
static void verify(Case& c) {
    int kind = (int)c.draw(8);
    std::string key = gen_key_text(c);
    const char* conf = kind == 0 ? nullptr : kind == 1 ? "" : key.c_str();
    Srv s;
    s.open(conf, true, true);
    bool keyed = conf && *conf;
    int n = (int)c.range(1, 12), ok = 0;
    for (int i = 0; i < n; i++) {
        mcp_auth_type_t ty = (mcp_auth_type_t)c.draw(4);
        std::string cr = key;
        bool null = c.chance(1, 6);
        if (!c.chance(1, 3)) { J a = almost(c, key); cr = a.t == J::Str ? a.s : "zz"; }
        mcp_auth_context_t* x = (mcp_auth_context_t*)1;
        int r = mcp_auth_verify((struct mcp_server*)s.s, ty, null ? nullptr : cr.c_str(), &x);
        bool want = keyed ? ty == MCP_AUTH_API_KEY && !null && cr == key : ty == MCP_AUTH_NONE;
        c.note("configured %s, type %d, given %s: %d", keyed ? esc(key, 40).c_str() : "(none)", (int)ty, null ? "(null)" : esc(cr, 40).c_str(), r);
        PBT_CHECK((r == 0) == want, "verification %s", r == 0 ? "accepted a caller without the key" : "refused a caller with the key");
        PBT_CHECK((r == 0) == (x != nullptr), "identity and result disagree");
        if (r == 0) ok++;
        mcp_auth_context_free(x);
    }
    if (ok) c.label("accepted");
    c.nontrivial();
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P05";
    o.level = "bounded";
    o.rule = "messages: at least one message without the right key was delivered; bytes, verify: always";
    o.tests = {{"messages", messages, 25000, 250000}, {"bytes", bytes, 12000, 120000}, {"verify", verify, 6000, 60000}};
    o.assumptions = {"keys have 1 to 1024 characters and contain no NUL", "a ping may be answered without the key, as the server documents",
                     "a batch whose key is carried only by a later request may be refused or served"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
