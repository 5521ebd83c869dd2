// TECHNIQUE: stateful property-based testing over real loopback connections: generated request scripts (POST bodies of any size and splitting, keep-alive, requests without reply, failing handlers, other paths and methods, GET tool calls with generated and randomly encoded query strings) on several connections at once; oracle: reference list of handler calls and replies, and an independently built tool call for each query string
// NOTE: The handler interface passes replies as text, so they have no NUL bytes. Query strings up to 900 bytes, without NUL and line breaks (libwebsockets drops them), with parameter names that have no '=' (libwebsockets replaces it). A repeated parameter is not generated. A POST to another path may cost the connection.
#include "pbt.hpp"
#include "mcp.hpp"
#include "http.hpp"
#include "jval.hpp"
#include <algorithm>
#include <mutex>
#include <thread>
extern "C" {
#include "mcp_http_transport.h"
}
#include <libwebsockets.h>
using namespace pbt;

struct World {
    std::mutex m;
    std::vector<std::string> calls;
    std::map<std::string, std::pair<int, std::string>> plan; // body -> kind, reply
    bool echo = false;
};
static World* g_w;
enum { REPLY, NOTHING, ERROR, INVALID };

static char* on_message(void*, const void* data, size_t size, int* err) {
    std::string s((const char*)data, size);
    std::lock_guard<std::mutex> l(g_w->m);
    g_w->calls.push_back(s);
    *err = 0;
    if (g_w->echo) return strdup(("got " + s).c_str());
    auto it = g_w->plan.find(s);
    if (it == g_w->plan.end()) return strdup("UNPLANNED");
    if (it->second.first == NOTHING) return nullptr;
    if (it->second.first == ERROR) { *err = -32603; return nullptr; }
    if (it->second.first == INVALID) { *err = -32600; return nullptr; }
    return strdup(it->second.second.c_str());
}
static mcp_transport_t* start(mcp_http_config_t& cfg, std::string& host) {
    static unsigned serial = 0;
    host = own_host();
    for (int t = 0; t < 50; t++) {
        cfg.host = host.c_str();
        cfg.port = (uint16_t)(22000 + serial++ % 9000);
        mcp_transport_t* tr = mcp_transport_http_create(&cfg);
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, on_message, nullptr, nullptr) == 0) return tr;
        mcp_transport_destroy(tr);
    }
    fail("the transport does not start");
    return nullptr;
}
static std::string show(const std::string& s) { return s.size() > 100 ? esc(s.substr(0, 80)) + fmt("...(%zu bytes)", s.size()) : esc(s); }

struct Rq { std::string bytes, body, want; int status; bool any_body = false, handled = false; };

static std::string gen_text(Case& c, size_t max, bool nul) {
    size_t n;
    switch (c.weighted({5, 3, 2})) {
    case 0: n = c.draw(64); break;
    case 1: { static const size_t near[] = {500, 1000, 1023, 1024, 1025, 2048, 4000, 4095, 4096, 4097, 8192}; n = near[c.draw(11)] + c.draw(3); break; }
    default: n = c.draw(max);
    }
    std::string s(n, 0);
    unsigned long long x = c.draw(1u << 30) + 1;
    bool wild = c.chance(1, 3);
    for (auto& ch : s) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        unsigned v = (unsigned)(x >> 40);
        ch = wild ? (nul ? (char)v : (char)(1 + v % 255)) : (char)(32 + v % 95);
    }
    return s;
}
static std::string gen_word(Case& c) {
    static const char* words[] = {"name", "tool_name", "param_", "param_name", "id", "text", "a", "session_id", "x y", "caf\xc3\xa9", "100%", "%41", "a+b", "a&b", "q;r", "\xf0\x9f\x98\x80", "\"", "\\", "a/b/../c", "#", "\t"};
    std::string s;
    for (int i = 0, n = (int)c.range(1, 3); i < n; i++) s += c.chance(1, 2) ? std::string(words[c.draw(21)]) : c.printable(8);
    return s;
}
static std::string encode(Case& c, const std::string& s) {
    std::string out;
    for (unsigned char ch : s) {
        bool plain = isalnum(ch) || strchr("-_.~", ch);
        if (ch && strchr("/:@!$'()*,?", ch) && c.flip()) plain = true;
        if (plain && !c.chance(1, 10)) out += (char)ch;
        else if (ch == ' ' && c.flip()) out += '+';
        else out += fmt(c.flip() ? "%%%02X" : "%%%02x", ch);
    }
    return out;
}
static Rq gen_get(Case& c) {
    Rq r;
    std::string tool;
    std::vector<std::pair<std::string, std::string>> args;
    std::vector<std::string> parts;
    bool named = !c.chance(1, 12);
    do tool = c.chance(2, 3) ? c.ident(1, 12) : gen_word(c); while (tool.empty());
    int n = (int)c.draw(5);
    for (int i = 0; i < n; i++) {
        std::string k = c.chance(2, 3) ? c.ident(1, 8) : gen_word(c), v = c.chance(1, 8) ? "" : c.chance(1, 2) ? gen_word(c) : c.printable(40);
        k.erase(std::remove(k.begin(), k.end(), '='), k.end());
        bool twice = k.empty();
        for (auto& a : args) if (a.first == k) twice = true;
        if (twice) continue;
        args.push_back({k, v});
        parts.push_back("param_" + encode(c, k) + "=" + encode(c, v));
    }
    if (c.chance(1, 4)) parts.push_back(c.pick(std::vector<std::string>{"tool_name=wrong", "names=wrong", "name2=wrong", "x=1", "flag", "surname=wrong", "Param_x=1", "params_x=2", "="}));
    if (named) parts.insert(parts.begin() + (long)c.draw(parts.size() + 1), "name=" + encode(c, tool));
    std::string q;
    for (auto& p : parts) q += (q.empty() ? "" : "&") + p;
    r.any_body = true;
    r.handled = named;
    r.status = named ? 200 : 400;
    if (q.size() > 900) { q = "name=x"; tool = "x"; args.clear(); r.handled = named = true; r.status = 200; }
    r.bytes = fmt("GET /call_tool?%s HTTP/1.1\r\nHost: x\r\n\r\n", q.c_str());
    if (named) {
        J want = J::obj(), as = J::obj(), ps = J::obj();
        for (auto& a : args) as.o[a.first] = J::str(a.second);
        ps.o["name"] = J::str(tool);
        ps.o["arguments"] = as;
        want.o["jsonrpc"] = J::str("2.0");
        want.o["id"] = J::num(1);
        want.o["method"] = J::str("call_tool");
        want.o["params"] = ps;
        r.want = jdump(want);
    }
    return r;
}
static void gets(Case& c) {
    World w;
    g_w = &w;
    w.echo = true;
    mcp_http_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    HttpClient h;
    int n = (int)c.range(1, 8);
    size_t decoded = 0;
    std::string trail;
    for (int k = 0; k < n; k++) {
        Rq r = gen_get(c);
        std::string at = fmt("request %d %s: ", k, esc(r.bytes.substr(0, r.bytes.find(" HTTP"))).c_str());
        if (h.fd < 0 || c.chance(1, 4)) { h.close_now(); PBT_CHECK(h.open(host, cfg.port), "%scannot connect", at.c_str()); }
        size_t before = w.calls.size();
        h.feed(r.bytes);
        HttpReply got;
        std::string how;
        PBT_CHECK(h.reply(got, how), "%s%s", at.c_str(), how.c_str());
        PBT_CHECK(got.status == r.status, "%sstatus %d, expected %d (%s)", at.c_str(), got.status, r.status, show(got.body).c_str());
        std::lock_guard<std::mutex> l(w.m);
        PBT_CHECK(w.calls.size() == before + (r.handled ? 1 : 0), "%s%zu handler calls", at.c_str(), w.calls.size() - before);
        if (r.handled) {
            J a, b;
            PBT_CHECK(jparse(w.calls.back(), a) == 1, "%sthe handler gets %s", at.c_str(), esc(w.calls.back()).c_str());
            PBT_CHECK(jparse(r.want, b) == 1, "bad reference %s", r.want.c_str());
            PBT_CHECK(a == b, "%sthe handler gets %s, expected %s", at.c_str(), esc(w.calls.back()).c_str(), esc(r.want).c_str());
            PBT_CHECK(got.body == "got " + w.calls.back(), "%sthe client gets %s for %s", at.c_str(), show(got.body).c_str(), show(w.calls.back()).c_str());
        }
        if (r.bytes.find('%') != std::string::npos) decoded++;
        trail += (k ? "; " : "") + esc(r.bytes.substr(0, r.bytes.find(" HTTP")));
    }
    h.close_now();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(decoded > 0);
    c.note("%s", trail.c_str());
}

static Rq gen_request(Case& c, World& w, int conn, int k) {
    Rq r;
    std::string path = "/call_tool", method = "POST";
    switch (c.weighted({12, 3, 2, 1, 1, 1, 1, 1})) {
    default: case 0: r.status = 200; break;
    case 1: r.status = 202; break;
    case 2: r.status = 500; break;
    case 3: r.status = 404; path = "/other" + c.ident(0, 6); break;
    case 4: r.status = 0; break;    // another method
    case 5: r.status = 400; break;  // no body
    case 6: r.status = -1; path = c.flip() ? "/" : "/tools"; break; // a page
    case 7: r.status = 404; path = "/call_tool2"; break;
    }
    std::string extra;
    if (c.chance(1, 4)) extra += "X-Padding: " + std::string(c.draw(300), 'p') + "\r\n";
    if (c.chance(1, 4)) extra += "Content-Type: application/json\r\n";
    bool call = r.status == 200 || r.status == 202 || r.status == 500;
    if (call || (r.status == 404 && c.flip())) {
        r.body = fmt("{\"c\":%d,\"k\":%d,", conn, k) + gen_text(c, 70000, true);
        if (call && c.chance(1, 6)) r.body.resize(r.body.find(',', 8) + 1);
        r.handled = call;
        if (call) {
            bool invalid = r.status == 500 && c.flip();
            std::string reply = r.status == 200 ? (c.chance(1, 10) ? "" : fmt("reply to %d/%d ", conn, k) + gen_text(c, 120000, false)) : "";
            w.plan[r.body] = {r.status == 200 ? REPLY : r.status == 202 ? NOTHING : invalid ? INVALID : ERROR, reply};
            r.want = reply;
            if (invalid) r.status = 400;
        } else r.any_body = true;
        if (r.status >= 400) r.any_body = true;
        r.bytes = fmt("POST %s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %zu\r\n\r\n", path.c_str(), extra.c_str(), r.body.size()) + r.body;
    } else {
        r.any_body = true;
        if (r.status == 0) {
            method = c.pick(std::vector<std::string>{"OPTIONS", "DELETE", "PUT", "GET"});
            if (c.chance(1, 3)) path = c.pick(std::vector<std::string>{"/", "/tools", "/x"});
            r.bytes = fmt("%s %s HTTP/1.1\r\nHost: x\r\n%s%s\r\n", method.c_str(), path.c_str(), extra.c_str(), method == "PUT" ? "Content-Length: 0\r\n" : "");
        } else if (r.status == 400) r.bytes = fmt("POST /call_tool HTTP/1.1\r\nHost: x\r\n%sContent-Length: 0\r\n\r\n", extra.c_str());
        else r.bytes = fmt("GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n", path.c_str(), extra.c_str());
        if (r.status == -1) r.status = 200;
    }
    return r;
}
static void posts(Case& c) {
    World w;
    g_w = &w;
    mcp_http_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_cors = c.flip();
    std::string origin = c.chance(1, 3) ? "http://" + std::string(c.draw(250), 'o') : "*", headers;
    if (c.chance(1, 3)) for (int i = 0, n = (int)c.draw(20); i < n; i++) headers += (i ? ", X-" : "X-") + c.ident(1, 12);
    cfg.cors_allow_origin = c.flip() ? origin.c_str() : nullptr;
    cfg.cors_allow_headers = headers.empty() ? nullptr : headers.c_str();
    std::string host;
    int conns = (int)c.range(1, 4);
    std::vector<std::vector<Rq>> script((size_t)conns);
    size_t total = 0, split = 0;
    std::vector<std::string> want_calls;
    std::vector<std::vector<std::vector<std::string>>> pieces((size_t)conns);
    std::vector<std::vector<unsigned>> pauses((size_t)conns);
    for (int i = 0; i < conns; i++) {
        int n = (int)c.range(1, 5);
        for (int k = 0; k < n; k++) {
            Rq r = gen_request(c, w, i, k);
            if (r.handled) want_calls.push_back(r.body);
            auto lens = c.cuts(r.bytes.size(), c.chance(1, 2) ? 1 : 6);
            std::vector<std::string> ps;
            size_t at = 0;
            for (size_t l : lens) { ps.push_back(r.bytes.substr(at, l)); at += l; }
            if (at < r.bytes.size()) ps.push_back(r.bytes.substr(at));
            if (ps.size() > 1) split++;
            pauses[(size_t)i].push_back((unsigned)c.draw(4));
            pieces[(size_t)i].push_back(ps);
            script[(size_t)i].push_back(r);
            total++;
        }
    }
    mcp_transport_t* tr = start(cfg, host);
    std::vector<std::thread> ts;
    std::vector<std::string> bad((size_t)conns);
    for (int i = 0; i < conns; i++) ts.emplace_back([&, i] {
        HttpClient h;
        auto& b = bad[(size_t)i];
        if (!h.open(host, cfg.port)) { b = "cannot connect"; return; }
        for (size_t k = 0; k < script[(size_t)i].size(); k++) {
            auto& r = script[(size_t)i][k];
            std::string at = fmt("connection %d, request %zu %s: ", i, k, show(r.bytes).c_str());
            if (h.fd < 0 && !h.open(host, cfg.port)) { b = at + "cannot connect again"; return; }
            bool sent = true;
            for (auto& p : pieces[(size_t)i][k]) {
                if (!h.feed(p)) { sent = false; break; }
                if (pieces[(size_t)i][k].size() > 1) usleep(pauses[(size_t)i][k] * 4000);
            }
            HttpReply got;
            std::string how;
            if (!h.reply(got, how)) {
                b = at + (sent ? "" : "(not all could be sent) ") + how;
                return;
            }
            if (r.status ? got.status != r.status : (got.status < 200 || got.status > 499)) { b = at + fmt("status %d, expected %d", got.status, r.status); return; }
            if (!r.any_body && got.body != r.want) { b = at + fmt("reply %s, expected %s", show(got.body).c_str(), show(r.want).c_str()); return; }
            if (!h.in.empty()) { b = at + "more than one response: " + show(h.in); return; }
            // a request whose body nobody wanted may cost the connection
            if (r.status == 404 && !r.body.empty()) h.close_now();
        }
    });
    for (auto& t : ts) t.join();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    for (auto& b : bad) PBT_CHECK(b.empty(), "%s", b.c_str());
    std::vector<std::string> calls = w.calls;
    std::sort(calls.begin(), calls.end());
    std::sort(want_calls.begin(), want_calls.end());
    if (calls != want_calls) {
        std::string d;
        for (auto& s : calls) if (!std::count(want_calls.begin(), want_calls.end(), s)) d += " extra " + show(s);
        for (auto& s : want_calls) if (!std::count(calls.begin(), calls.end(), s)) d += " missing " + show(s);
        fail("%zu handler calls for %zu bodies:%s", calls.size(), want_calls.size(), d.c_str());
    }
    c.nontrivial(split && total > 1);
    if (conns > 1) c.label("connections at once");
    if (split) c.label("split request");
    c.note("%d connections, %zu requests, %zu of them split, first %s", conns, total, split, show(script[0][0].bytes).c_str());
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P19";
    o.rule = "several requests of which at least one is split; or a query string with encoded characters";
    o.tests = {
        {"posts", posts, 500, 4000, 60, 10, 5},
        {"gets", gets, 600, 8000, 60, 20, 5},
    };
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    return run(argc, argv, o);
}
