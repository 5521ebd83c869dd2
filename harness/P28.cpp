// TECHNIQUE: stateful property-based testing: generated configuration documents (well-formed, with fields removed or of the wrong type, invalid patterns, damaged text, cut files, read errors) loaded and reloaded in generated histories with look-ups between; oracle: reference loader and router over an independent JSON model; plus concurrent look-ups during reloads
// NOTE: A timeout that is absent or not positive means the default (0); a fraction of a millisecond is dropped. An empty file is an empty configuration. A look-up's result is used before the next reload.
// LINK: -Wl,--wrap=fread
#include "pbt.hpp"
#include "mcp.hpp"
#include "jval.hpp"
#include <regex.h>
extern "C" {
#include "mcp_gateway.h"
#include "mcp_gateway_config_manager.h"
#include "mcp_gateway_routing.h"
}
using namespace pbt;

static std::atomic<int> g_fail_read{-1}; // this many reads succeed, then one fails
static std::atomic<bool> g_failed{false};
extern "C" {
size_t __real_fread(void* p, size_t s, size_t n, FILE* f);
size_t __wrap_fread(void* p, size_t s, size_t n, FILE* f) {
    if (g_fail_read >= 0 && g_fail_read-- == 0) {
        g_failed = true;
        f->_flags |= 0x20; // the stream's error flag
        errno = EIO;
        return 0;
    }
    return __real_fread(p, s, n, f);
}
}

struct Backend {
    std::string name, address;
    std::vector<std::string> prefixes, tools, regexes;
    double timeout = 0;
};
static bool compiles(const std::string& re) {
    regex_t r;
    if (regcomp(&r, re.c_str(), REG_EXTENDED | REG_NOSUB) != 0) return false;
    regfree(&r);
    return true;
}
static bool matches(const std::string& re, const std::string& s) {
    regex_t r;
    if (regcomp(&r, re.c_str(), REG_EXTENDED | REG_NOSUB) != 0) return false;
    bool m = regexec(&r, s.c_str(), 0, nullptr, 0) == 0;
    regfree(&r);
    return m;
}
// ---- reference loader ----
static bool strings(const J* j, std::vector<std::string>& out, std::string& why) {
    if (!j || j->t == J::Null) return true;
    if (j->t != J::Arr) { why = "a list is not a list"; return false; }
    for (auto& e : j->a) {
        if (e.t != J::Str) { why = "a list holds something other than a string"; return false; }
        out.push_back(e.s);
    }
    return true;
}
static bool load(const std::string& text, std::vector<Backend>& out, std::string& why) {
    out.clear();
    if (text.empty()) return true;
    if (text.find('\0') != std::string::npos) { why = "not JSON"; return false; }
    J doc;
    if (jparse(text, doc) != 1) { why = "not JSON"; return false; }
    if (doc.t != J::Arr) { why = "not a list"; return false; }
    for (auto& b : doc.a) {
        if (b.t != J::Obj) { why = "a backend is not an object"; return false; }
        const J *n = b.get("name"), *a = b.get("address"), *r = b.get("routing"), *t = b.get("timeout_ms");
        if (!n || n->t != J::Str) { why = "no name"; return false; }
        if (!a || a->t != J::Str) { why = "no address"; return false; }
        if (!r || r->t != J::Obj) { why = "no routing"; return false; }
        Backend x;
        x.name = n->s;
        x.address = a->s;
        if (!strings(r->get("resource_prefixes"), x.prefixes, why) || !strings(r->get("tool_names"), x.tools, why) || !strings(r->get("resource_regexes"), x.regexes, why)) return false;
        for (auto& re : x.regexes) if (!compiles(re)) { why = "an invalid pattern"; return false; }
        if (t && t->t != J::Null) {
            if (t->t != J::Num) { why = "a timeout that is no number"; return false; }
            if (t->n > 4294967295.0) { why = "a timeout that is too large"; return false; }
            x.timeout = t->n > 0 ? std::floor(t->n) : 0;
        }
        out.push_back(x);
    }
    return true;
}
// ---- generators ----
static std::string word(Case& c) {
    if (c.chance(1, 12)) return c.pick({std::string(), std::string("\xc3\xa9t\xc3\xa9"), std::string("a\"b"), std::string("tab\there"), std::string("back\\slash"), std::string("name"), std::string("routing")});
    return c.ident(1, 6);
}
static std::string uri_part(Case& c) {
    static const char* p[] = {"a://", "a://x", "a://x/", "b://", "ab://", "file:///", "a", "b://y", "x", "A://"};
    return c.chance(1, 10) ? word(c) : std::string(p[c.draw(10)]);
}
static std::string tool(Case& c) {
    static const char* p[] = {"run", "runx", "ru", "echo", "Run", "stop", "a.b", "run "};
    return c.chance(1, 10) ? word(c) : std::string(p[c.draw(8)]);
}
static std::string pattern(Case& c, bool bad_ok) {
    static const char* p[] = {"^a://", "x$", "^b://[0-9]+$", "y|z", "^(a|b)://x", "a{2,3}", "://", "[[:digit:]]", ".*\\.txt$", "^$", "."};
    static const char* q[] = {"(", "[", "a{2", "*a(", "[z-a]", "a{3,2}", "\\", "x)("};
    if (bad_ok && c.chance(1, 3)) return q[c.draw(8)];
    return p[c.draw(11)];
}
static J list(Case& c, const std::function<std::string()>& g) {
    J a = J::arr();
    int n = (int)c.small(0, 4);
    if (c.chance(1, 40)) n = (int)c.range(20, 120);
    for (int i = 0; i < n; ++i) a.a.push_back(J::str(g()));
    return a;
}
static J wrong(Case& c) {
    switch (c.draw(6)) {
    case 0: return J::num((double)c.range(-3, 3));
    case 1: return J::str(uri_part(c));
    case 2: return J::boolean(c.flip());
    case 3: { J a = J::arr(); if (c.flip()) a.a.push_back(J::num(1)); return a; }
    case 4: { J o = J::obj(); if (c.flip()) o.o["0"] = J::str("a://"); return o; }
    default: return J::null();
    }
}
static J document(Case& c, bool sound) {
    J d = J::arr();
    int n = (int)c.small(0, 5);
    for (int i = 0; i < n; ++i) {
        J b = J::obj(), r = J::obj();
        b.o["name"] = J::str(word(c));
        b.o["address"] = J::str("tcp://" + c.ident(1, 5) + ":" + std::to_string(c.range(1, 65535)));
        if (!c.chance(1, 5)) r.o["resource_prefixes"] = list(c, [&] { return uri_part(c); });
        if (!c.chance(1, 4)) r.o["tool_names"] = list(c, [&] { return tool(c); });
        if (c.chance(1, 2)) r.o["resource_regexes"] = list(c, [&] { return pattern(c, !sound && c.chance(1, 4)); });
        if (c.chance(1, 3)) b.o["timeout_ms"] = J::num(c.chance(1, 8) ? c.pick({0.0, -5.0, 1.5, 4294967295.0, 0.25, 2147483648.0}) : (double)c.range(1, 100000));
        if (c.chance(1, 6)) b.o["comment"] = wrong(c);
        if (c.chance(1, 10)) r.o["extra"] = wrong(c);
        b.o["routing"] = r;
        d.a.push_back(b);
    }
    return d;
}
// Damages a document at the level of values
static void spoil(Case& c, J& d, std::string& what) {
    if (d.a.empty() || c.chance(1, 10)) {
        if (c.flip()) { d = c.flip() ? J::obj() : wrong(c); what = "root"; }
        else { d.a.insert(d.a.begin() + (long)c.draw(d.a.size() + 1), wrong(c)); what = "element"; }
        return;
    }
    J& b = d.a[c.draw(d.a.size())];
    J& r = b.o["routing"];
    static const char* bf[] = {"name", "address", "routing", "timeout_ms"};
    static const char* rf[] = {"resource_prefixes", "tool_names", "resource_regexes"};
    switch (c.draw(5)) {
    case 0: { const char* f = bf[c.draw(3)]; b.o.erase(f); what = fmt("%s removed", f); break; }
    case 1: { const char* f = bf[c.draw(4)]; b.o[f] = c.chance(1, 6) ? J::num(c.pick({4294967296.0, 1e12, 1e300})) : wrong(c); what = fmt("%s replaced", f); break; }
    case 2: { const char* f = rf[c.draw(3)]; r.o[f] = wrong(c); what = fmt("%s replaced", f); break; }
    case 3: { const char* f = rf[c.draw(3)]; J& l = r.o[f]; if (l.t != J::Arr) l = J::arr(); l.a.insert(l.a.begin() + (long)c.draw(l.a.size() + 1), wrong(c)); what = fmt("%s element", f); break; }
    default: { J& l = r.o["resource_regexes"]; if (l.t != J::Arr) l = J::arr(); l.a.insert(l.a.begin() + (long)c.draw(l.a.size() + 1), J::str(pattern(c, true))); what = "pattern"; break; }
    }
}
static std::string render(Case& c, const J& d) {
    std::string t;
    jdump(d, t);
    if (c.chance(1, 4)) { // blanks between the tokens
        std::string u;
        bool q = false;
        for (size_t i = 0; i < t.size(); ++i) {
            u += t[i];
            if (t[i] == '\\' && q) { u += t[++i]; continue; }
            if (t[i] == '"') q = !q;
            if (!q && strchr("[]{},:", t[i])) u += i % 3 ? "\n  " : " ";
        }
        return u;
    }
    return t;
}
struct Doc { std::string text, what; int fail_at = -1; bool missing = false; };
static Doc make_doc(Case& c) {
    Doc d;
    switch (c.weighted({6u, 4u, 3u, 1u, 1u})) {
    case 0: d.text = render(c, document(c, true)); d.what = "sound"; break;
    case 1: { J j = document(c, false); spoil(c, j, d.what); d.text = render(c, j); break; }
    case 2: { // damaged text
        d.text = render(c, document(c, true));
        switch (c.draw(5)) {
        case 0: d.text.resize(c.draw(d.text.size() + 1)); d.what = "cut"; break;
        case 1: d.text.erase(c.draw(d.text.size()), 1); d.what = "a byte missing"; break;
        case 2: d.text.insert(c.draw(d.text.size() + 1), 1, "[]{}\",:0x\0"[c.draw(10)]); d.what = "a byte too many"; break;
        case 3: d.text += c.pick({std::string("x"), std::string("]"), std::string(",{}"), std::string(" \n"), std::string("\0", 1), std::string("\0[]", 3)}); d.what = "a tail"; break;
        default: d.text[c.draw(d.text.size())] = (char)c.draw(128); d.what = "a byte changed"; break;
        }
        J j;
        if (d.text.find('\0') == std::string::npos && jparse(d.text, j) == -1) d.text = "["; // the JSON property leaves such text open
        break;
    }
    case 3: d.missing = true; d.what = "missing"; break;
    default: d.text = render(c, document(c, true)); d.fail_at = (int)c.draw(d.text.size() / 1024 + 2); d.what = "read error"; break;
    }
    return d;
}
static void put(const std::string& path, const Doc& d) {
    unlink(path.c_str());
    if (d.missing) return;
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || (d.text.size() && fwrite(d.text.data(), 1, d.text.size(), f) != d.text.size())) { fprintf(stderr, "P28: cannot write\n"); _exit(3); }
    fclose(f);
}
static bool expect(const Doc& d, std::vector<Backend>& b, std::string& why) {
    if (d.missing) { why = "no file"; return false; }
    return load(d.text, b, why);
}
static void arm(const Doc& d) {
    g_failed = false;
    g_fail_read = d.fail_at;
}
// whether the document was to be accepted, given what the reads returned
static bool disarm(bool sound, std::string& why) {
    g_fail_read = -1;
    if (!g_failed) return sound;
    why = "a read error";
    return false;
}
static void same_list(const char* what, char** got, size_t n, const std::vector<std::string>& want, size_t i) {
    PBT_CHECK(n == want.size(), "backend %zu has %zu %s instead of %zu", i, n, what, want.size());
    for (size_t k = 0; k < n; ++k) PBT_CHECK(got[k] && want[k] == got[k], "backend %zu: %s %zu is \"%s\" instead of \"%s\"", i, what, k, got[k] ? esc(got[k]).c_str() : "(null)", esc(want[k]).c_str());
}
static void same(const mcp_backend_info_t* got, size_t n, const std::vector<Backend>& want) {
    PBT_CHECK(n == want.size(), "%zu backends are in force instead of %zu", n, want.size());
    for (size_t i = 0; i < n; ++i) {
        PBT_CHECK(got[i].name && want[i].name == got[i].name, "backend %zu is named \"%s\" instead of \"%s\"", i, got[i].name ? esc(got[i].name).c_str() : "(null)", esc(want[i].name).c_str());
        PBT_CHECK(got[i].address && want[i].address == got[i].address, "backend %zu has another address", i);
        PBT_CHECK((double)got[i].timeout_ms == want[i].timeout, "backend %zu has timeout %u instead of %.0f", i, got[i].timeout_ms, want[i].timeout);
        same_list("prefixes", got[i].routing.resource_prefixes, got[i].routing.resource_prefix_count, want[i].prefixes, i);
        same_list("tools", got[i].routing.tool_names, got[i].routing.tool_name_count, want[i].tools, i);
        same_list("patterns", got[i].routing.resource_regex_patterns, got[i].routing.resource_regex_count, want[i].regexes, i);
    }
}
static int route(const std::vector<Backend>& b, const std::string& method, const J& params) {
    if (params.t != J::Obj) return -1;
    if (method == "read_resource") {
        const J* u = params.get("uri");
        if (!u || u->t != J::Str) return -1;
        for (size_t i = 0; i < b.size(); ++i) {
            for (auto& p : b[i].prefixes) if (u->s.compare(0, p.size(), p) == 0) return (int)i;
            for (auto& r : b[i].regexes) if (matches(r, u->s)) return (int)i;
        }
    } else if (method == "call_tool") {
        const J* u = params.get("name");
        if (!u || u->t != J::Str) return -1;
        for (size_t i = 0; i < b.size(); ++i) for (auto& t : b[i].tools) if (t == u->s) return (int)i;
    }
    return -1;
}

static void t_history(Case& c) {
    mcp_arena_reset_current_thread();
    std::string path = scratch_dir() + "/gateway.json";
    std::vector<Backend> now, next;
    std::string why;
    gateway_config_manager_t* m = nullptr;
    int n = (int)c.small(1, 25), accepted = 0, rejected = 0, hits = 0;
    for (int i = 0; i < n; ++i) {
        if (!m || c.chance(1, 3)) {
            Doc d = make_doc(c);
            put(path, d);
            bool sound = expect(d, next, why);
            if (c.chance(1, 4)) { // the loader by itself
                mcp_backend_info_t* l = (mcp_backend_info_t*)16;
                size_t cnt = 99;
                arm(d);
                mcp_error_code_t e = load_gateway_config(path.c_str(), &l, &cnt);
                bool ok = disarm(sound, why);
                c.note("load (%s) -> %d, %zu backends: %s", d.what.c_str(), (int)e, cnt, esc(d.text).c_str());
                if (ok) PBT_CHECK(e == MCP_ERROR_NONE, "a sound configuration is rejected with %d", (int)e);
                else PBT_CHECK(e != MCP_ERROR_NONE, "a configuration with %s is accepted", why.c_str());
                if (ok) same(l, cnt, next);
                else PBT_CHECK(l == nullptr && cnt == 0, "a rejected configuration leaves %zu backends", cnt);
                mcp_free_backend_list(l, cnt);
            }
            bool create = !m || c.chance(1, 8);
            bool got;
            arm(d);
            if (create) {
                gateway_config_manager_t* fresh = gateway_config_manager_create(path.c_str());
                got = fresh != nullptr;
                if (fresh) {
                    gateway_config_manager_destroy(m);
                    m = fresh;
                }
            } else got = gateway_config_manager_reload(m) == MCP_ERROR_NONE;
            bool ok = disarm(sound, why);
            c.note("%s (%s) -> %s: %s", create ? "create" : "reload", d.what.c_str(), got ? "accepted" : "rejected", esc(d.text).c_str());
            if (ok) PBT_CHECK(got, "a sound configuration is rejected");
            else PBT_CHECK(!got, "a configuration with %s is accepted", why.c_str());
            if (ok) { now = next; ++accepted; c.label("accepted"); }
            else { ++rejected; c.label(why.c_str()); }
            if (m) {
                size_t cnt = 99;
                const mcp_backend_info_t* l = gateway_config_manager_get_backends(m, &cnt);
                same(l, cnt, now);
            }
            continue;
        }
        // look-up
        static const char* methods[] = {"read_resource", "call_tool", "list_tools", "ping", "read_resourc", "call_tools"};
        std::string method = methods[c.weighted({8u, 8u, 1u, 1u, 1u, 1u})];
        J p = J::obj();
        std::string u = uri_part(c) + (c.flip() ? "" : c.pick({std::string("x"), std::string("/y"), std::string("42"), std::string(".txt"), std::string("aa")}));
        if (!c.chance(1, 12)) p.o["uri"] = c.chance(1, 15) ? wrong(c) : J::str(u);
        if (!c.chance(1, 12)) p.o["name"] = c.chance(1, 15) ? wrong(c) : J::str(tool(c));
        if (c.chance(1, 4)) p.o["arguments"] = wrong(c);
        if (c.chance(1, 25)) { J a = J::arr(); a.a.push_back(p); p = a; }
        bool none = c.chance(1, 25);
        std::string text;
        jdump(p, text);
        int want = none ? -1 : route(now, method, p);
        mcp_request_t rq = {};
        rq.id = 7;
        rq.method = (char*)method.c_str();
        rq.params = none ? nullptr : (void*)text.c_str();
        const mcp_backend_info_t* b = gateway_config_manager_find_backend(m, &rq);
        size_t cnt = 0;
        const mcp_backend_info_t* l = gateway_config_manager_get_backends(m, &cnt);
        int got = b ? (b >= l && b < l + cnt ? (int)(b - l) : 999) : -1;
        c.note("%s %s -> %d", method.c_str(), none ? "-" : esc(text).c_str(), got);
        PBT_CHECK(got == want, "%s %s is looked up as backend %d instead of %d", method.c_str(), none ? "without parameters" : text.c_str(), got, want);
        if (want >= 0) ++hits;
        if (c.chance(1, 6)) same(l, cnt, now);
    }
    gateway_config_manager_destroy(m);
    unlink(path.c_str());
    c.nontrivial((accepted && rejected) || hits >= 2);
}

// Look-ups from several threads while the file is reloaded; both configurations route the same requests.
static void t_threads(Case& c) {
    mcp_arena_reset_current_thread();
    std::string path = scratch_dir() + "/gateway.json";
    std::string text[2];
    for (auto& t : text) {
        J d = document(c, true);
        J b = J::obj(), r = J::obj(), l = J::arr(), k = J::arr();
        b.o["name"] = J::str("last");
        b.o["address"] = J::str("tcp://h:1");
        l.a.push_back(J::str("q://"));
        k.a.push_back(J::str("always"));
        r.o["resource_prefixes"] = l;
        r.o["tool_names"] = k;
        b.o["routing"] = r;
        d.a.push_back(b);
        t = render(c, d);
    }
    Doc d;
    d.text = text[0];
    put(path, d);
    gateway_config_manager_t* m = gateway_config_manager_create(path.c_str());
    PBT_CHECK(m, "a sound configuration is rejected");
    std::vector<Backend> b[2];
    std::string why;
    load(text[0], b[0], why);
    load(text[1], b[1], why);
    int nt = (int)c.range(2, 4), reloads = (int)c.range(1, 12);
    std::atomic<bool> stop{false};
    std::atomic<long> looks{0};
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        mcp_arena_init_current_thread(1 << 14);
        unsigned k = (unsigned)t;
        while (!stop || k < 20) {
            static const char* ps[] = {"{\"uri\":\"q://1\"}", "{\"name\":\"always\"}", "{\"uri\":\"\\u0001none\"}", "{\"name\":\"\\u0001none\"}"};
            unsigned w = ++k % 4;
            mcp_request_t rq = {};
            rq.id = 1;
            rq.method = (char*)(w % 2 ? "call_tool" : "read_resource");
            rq.params = (void*)ps[w];
            bool found = gateway_config_manager_find_backend(m, &rq) != nullptr;
            if (w < 2 && !found) fail("a request that both configurations route is not routed");
            ++looks;
            if (k % 16 == 0) mcp_arena_reset_current_thread();
            usleep(20); // readers in a row could keep the writer out
        }
        mcp_arena_destroy_current_thread();
    });
    for (int i = 1; i <= reloads; ++i) {
        d.text = text[i % 2];
        std::string tmp = path + ".new";
        put(tmp, d);
        rename(tmp.c_str(), path.c_str());
        if (gateway_config_manager_reload(m) != MCP_ERROR_NONE) fail("a sound configuration is rejected");
        size_t cnt = 0;
        const mcp_backend_info_t* l = gateway_config_manager_get_backends(m, &cnt);
        same(l, cnt, b[i % 2]);
        usleep((useconds_t)(i % 4) * 50);
    }
    stop = true;
    for (auto& t : th) t.join();
    gateway_config_manager_destroy(m);
    unlink(path.c_str());
    c.note("%d reloads, %d threads", reloads, nt);
    c.nontrivial(looks > 0);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P28";
    o.rule = "a history with both an accepted and a rejected configuration or with at least two look-ups that select a backend; a concurrent run with look-ups during reloads";
    o.tests = {{"history", t_history, 40000, 400000, 30, 400},
               {"threads", t_threads, 1000, 10000, 60, 50, 20}};
    o.assumptions = {"POSIX extended regular expressions as the C library implements them", "a look-up's result is used before the next reload"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
