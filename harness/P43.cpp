// TECHNIQUE: property-based testing of the client over its HTTP transport against a scripted server on loopback: generated calls and generated replies (length, chunked or up to the close, decoy headers, hostile JSON texts) cut into arbitrary pieces, damaged, cut off or missing, and generated event streams lost and resumed; oracle: the request, result, error and events by construction
// NOTE: No TLS. Pauses of the event thread between two attempts are shortened, everything else runs in real time.
// LINK: -Wl,--wrap=mcp_sleep_ms
// SHIM: srv_shim.c
#include "srv.hpp"
#include "httpd.hpp"
#include "tidy.hpp"
extern "C" {
#define template template_
#include "mcp_client.h"
#undef template
#include "mcp_http_client_transport.h"
void __wrap_mcp_sleep_ms(uint32_t ms) { usleep(ms * 5); } // 200 times as fast
}
using namespace pbt;

static std::string show(const std::string& s) { return s.size() > 90 ? esc(s.substr(0, 70)) + fmt("...(%zu bytes)", s.size()) : esc(s); }
static std::string any_case(Case& c, const std::string& s) {
    std::string o = s;
    switch (c.draw(4)) {
    case 0: break;
    case 1: for (auto& ch : o) ch = (char)tolower(ch); break;
    case 2: for (auto& ch : o) ch = (char)toupper(ch); break;
    default: for (auto& ch : o) if (c.flip()) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch));
    }
    return o;
}
static std::string token(Case& c, size_t lo, size_t hi) {
    static const char* al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~+=";
    std::string s;
    for (size_t i = 0, n = c.range(lo, hi); i < n; i++) s += al[c.draw(68)];
    return s;
}
static std::string chunked(Case& c, const std::string& body) {
    std::string w;
    size_t at = 0;
    for (size_t n : c.cuts(body.size(), 6)) {
        if (!n) continue;
        w += fmt(c.flip() ? "%zx" : "%zX", n);
        if (c.chance(1, 8)) w += ";ext=1";
        w += "\r\n" + body.substr(at, n) + "\r\n";
        at += n;
    }
    w += c.chance(1, 6) ? "000\r\n" : "0\r\n";
    if (c.chance(1, 8)) w += "X-Trailer: 1\r\n";
    return w + "\r\n";
}
static std::vector<size_t> pieces(Case& c, size_t n) {
    if (c.chance(1, 4)) return {n};
    if (n < 400 && c.chance(1, 6)) return std::vector<size_t>(n, 1);
    return c.cuts(n, 12);
}
// the value of a header of a request that has it exactly once
static bool header(const std::string& rq, const char* name, std::string& v) {
    size_t e = rq.find("\r\n\r\n");
    std::string key = std::string("\r\n") + name + ": ";
    size_t at = rq.find(key);
    if (at == std::string::npos || at > e) return false;
    v = rq.substr(at + key.size(), rq.find("\r\n", at + 2) - at - key.size());
    return rq.find(key, at + 1) == std::string::npos || rq.find(key, at + 1) > e;
}
static std::string body_of(const std::string& rq) {
    size_t e = rq.find("\r\n\r\n");
    return e == std::string::npos ? "" : rq.substr(e + 4);
}
static bool is_get(const std::string& rq) { return rq.compare(0, 4, "GET ") == 0; }
static const Plan& quiet_stream() {
    static const Plan p = {"HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\n", {}, true, false};
    return p;
}
static J value(Case& c) {
    int budget = 12;
    if (c.chance(1, 5)) return J::str(c.pick(std::vector<std::string>{"}", "{", "\"}", "\\", "\\\"", "}}}", "{\"id\":7}", "\r\n\r\n", "0\r\n\r\n", "\\}", "\"id\":0,"}));
    J j = gen_json(c, 3, budget, 40);
    if (c.chance(1, 12)) { J a = J::arr(); a.a.push_back(j); a.a.push_back(J::str(std::string(c.range(3000, 40000), 'l'))); return a; }
    return j;
}
struct Reply {
    Plan plan;
    bool good = true, error = false, never = false;
    J result;
    int code = 0;
    std::string message, what;
};
static Reply reply(Case& c, uint64_t id) {
    Reply r;
    J j = J::obj();
    j.o["jsonrpc"] = J::str("2.0");
    bool other = c.chance(1, 16);
    j.o["id"] = J::num((double)(other ? id + 1 + c.draw(3) : id));
    r.error = c.chance(1, 4);
    if (r.error) {
        J e = J::obj();
        r.code = c.pick(std::vector<int>{-32601, -32000, -32700, -1, 17});
        r.message = c.chance(1, 3) ? "a } in \"it\"" : c.ident(1, 20);
        e.o["code"] = J::num(r.code);
        e.o["message"] = J::str(r.message);
        j.o["error"] = e;
    } else {
        r.result = J::obj();
        for (int i = 0, n = (int)c.range(0, 3); i < n; i++) r.result.o[gen_key(c)] = value(c);
        j.o["result"] = r.result;
    }
    std::string body;
    if (c.flip()) body = jdump(j);
    else render(c, j, body, (unsigned)c.draw(8));
    if (body.empty() || body[0] != '{') body = jdump(j); // no space before the text
    if (c.chance(1, 8)) body += c.pick(std::vector<std::string>{"\n", "\r\n", "  ", "\r\n\r\n"});
    int mode = (int)c.weighted({4, 3, 2}); // length, chunked, up to the close
    std::vector<std::string> hs;
    if (mode == 0) hs.push_back(any_case(c, "Content-Length") + ":" + std::string(c.draw(3), ' ') + fmt("%zu", body.size()));
    if (mode == 1) hs.push_back(any_case(c, "Transfer-Encoding") + ": chunked");
    if (c.flip()) hs.push_back(any_case(c, "Content-Type") + ": application/json");
    bool big = false;
    for (int i = 0, n = (int)c.draw(4); i < n; i++) {
        std::string h = c.pick(std::vector<std::string>{"X-Content-Length: 1", "Server: x:y", "X-Empty:", "Connection: close", "X-Long: ", "Warning: Content-Length: 2", "X-Transfer-Encoding: chunked", "Via: Transfer-Encoding: chunked"});
        if (h == "X-Long: ") { if (big) continue; big = true; h += std::string(3000, 'l'); }
        hs.push_back(h);
    }
    for (size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[c.draw(i)]);
    std::string w = fmt("HTTP/1.%d %d", c.chance(1, 6) ? 0 : 1, r.error ? c.pick(std::vector<int>{200, 200, 400, 500}) : 200);
    if (!c.chance(1, 8)) w += " Some Reason";
    w += "\r\n";
    for (auto& h : hs) w += h + "\r\n";
    w += "\r\n";
    w += mode == 1 ? chunked(c, body) : body;
    r.what = fmt("%s %s", r.error ? "error" : "result", mode == 0 ? "with length" : mode == 1 ? "chunked" : "up to the close");
    if (other) { r.good = false; r.what += ", of another request"; }
    switch (c.weighted({12, 2, 1, 2, c.chance(1, 6) ? 1u : 0u})) {
    case 0: break;
    case 1: // cut off before the end of the text
        w.resize(c.draw(w.rfind('}', mode == 1 ? w.rfind("\r\n0") : std::string::npos)));
        r.good = false;
        r.plan.reset = c.flip();
        r.what += fmt(", cut off after %zu bytes", w.size());
        break;
    case 2: {
        static const std::vector<std::string> bad = {"HTTX/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}", "200 OK\r\n\r\n{}", "\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n",
            "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n{}\r\n0\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n{}", "HTTP/1.1 200 OK\r\nContent-Length: 999999999\r\n\r\n{",
            "HTTP/1.1 200 OK\r\nContent-Length: 4\r\n\r\nnull", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n[]", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}", "HTTP/1.1 404 Not Found\r\nContent-Length: 9\r\n\r\nNot Found"};
        w = c.pick(bad);
        // a chunk that does not end where its length says
        if (mode == 1 && c.flip()) w = fmt("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%zx\r\n", body.size()) + body + c.pick(std::vector<std::string>{"  ", "\n\n", "}}", "\r0"}) + "0\r\n\r\n";
        r.good = false;
        r.what = "\"" + show(w) + "\"";
        break;
    }
    case 3: // the connection stays open after the response
        if (mode != 2) { r.plan.stall = true; r.what += ", left open"; }
        break;
    default: // nothing, or only the beginning, and then silence
        w.resize(c.draw(w.rfind('}', mode == 1 ? w.rfind("\r\n0") : std::string::npos)));
        r.plan.stall = true;
        r.good = false;
        r.never = true;
        r.what += fmt(", silent after %zu bytes", w.size());
    }
    r.plan.wire = w;
    r.plan.cuts = pieces(c, w.size());
    return r;
}
static void check_post(const std::string& rq, const std::string& host, const std::string* key, const std::string& trail) {
    std::string first = "POST /call_tool HTTP/1.1\r\n", v;
    PBT_CHECK(rq.compare(0, first.size(), first) == 0, "%s: the request begins with %s", trail.c_str(), show(rq).c_str());
    PBT_CHECK(header(rq, "Host", v) && v.compare(0, host.size(), host) == 0, "%s: Host is %s", trail.c_str(), show(v).c_str());
    PBT_CHECK(header(rq, "Content-Type", v) && v == "application/json", "%s: Content-Type is %s", trail.c_str(), show(v).c_str());
    v = "";
    PBT_CHECK(key ? header(rq, "Authorization", v) && v == "Bearer " + *key : rq.find("Authorization") > rq.find("\r\n\r\n"), "%s: Authorization is %s", trail.c_str(), show(v).c_str());
    PBT_CHECK(header(rq, "Content-Length", v) && v == fmt("%zu", body_of(rq).size()), "%s: Content-Length is %s for %zu bytes", trail.c_str(), v.c_str(), body_of(rq).size());
}
struct Out {
    int rc;
    char *result = nullptr, *msg = nullptr;
    mcp_error_code_t code = MCP_ERROR_NONE;
};
static void check_out(Out& o, const Reply& r, const std::string& trail) {
    if (!r.good) {
        PBT_CHECK(o.rc != 0 && !o.result, "%s: the call succeeds with %s", trail.c_str(), o.result ? show(o.result).c_str() : "nothing");
        PBT_CHECK(o.code != MCP_ERROR_NONE, "%s: the call fails without an error code", trail.c_str());
    } else if (r.error) {
        PBT_CHECK(o.rc != 0 && !o.result, "%s: the call succeeds", trail.c_str());
        PBT_CHECK((int)o.code == r.code && o.msg && r.message == o.msg, "%s: the error is %d %s instead of %d %s", trail.c_str(), (int)o.code, o.msg ? show(o.msg).c_str() : "-", r.code, r.message.c_str());
    } else {
        PBT_CHECK(o.rc == 0 && o.code == MCP_ERROR_NONE && o.result, "%s: the call fails with %d %s", trail.c_str(), (int)o.code, o.msg ? show(o.msg).c_str() : "-");
        J got;
        PBT_CHECK(jparse(o.result, got) == 1 && got == r.result, "%s: the result is %s instead of %s", trail.c_str(), show(o.result).c_str(), show(jdump(r.result)).c_str());
    }
    free(o.result);
    free(o.msg);
}
static std::string api_key(Case& c) { return token(c, 1, c.chance(1, 6) ? 600 : 40); }

static void calls(Case& c) {
    mcp_arena_reset_current_thread();
    Server sv;
    sv.open();
    bool has_key = c.flip();
    std::string key = api_key(c);
    std::vector<std::string> posts;
    Reply cur;
    std::function<Reply(uint64_t)> make = [&](uint64_t id) { return reply(c, id); };
    std::string trail;
    bool dead = c.chance(1, 10); // no event stream
    sv.answer = [&](const std::string& rq) -> Plan { // under the server's lock; the caller waits meanwhile
        if (is_get(rq)) return dead ? Plan{"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", {}, false, false} : quiet_stream();
        posts.push_back(rq);
        J q;
        const J* id;
        if (jparse(body_of(rq), q) != 1 || !(id = q.get("id")) || id->t != J::Num) return Plan{};
        if (posts.size() > 1) return Plan{};
        cur = make((uint64_t)id->n);
        return cur.plan;
    };
    mcp_http_client_config_t k;
    memset(&k, 0, sizeof k);
    std::string host = sv.host;
    k.host = host.c_str();
    k.port = sv.port;
    k.timeout_ms = 30000;
    k.api_key = has_key ? key.c_str() : nullptr;
    bool impatient = c.chance(1, 10);
    if (impatient) k.timeout_ms = (uint32_t)c.range(1000, 1500);
    mcp_transport_t* tr = mcp_transport_http_client_create_with_config(&k);
    PBT_CHECK(tr != nullptr, "no transport");
    mcp_client_config_t cc;
    memset(&cc, 0, sizeof cc);
    cc.request_timeout_ms = 10000;
    mcp_client_t* cl = mcp_client_create(&cc, tr);
    PBT_CHECK(cl != nullptr, "no client");
    int n = (int)c.range(1, 6);
    size_t good = 0, split = 0;
    for (int i = 0; i < n; i++) {
        sv.mu.lock();
        posts.clear();
        cur = Reply();
        cur.good = false;
        sv.mu.unlock();
        make = [&](uint64_t id) {
            for (;;) {
                Reply r = reply(c, id);
                if (r.never && !impatient) continue;
                trail += (trail.empty() ? "" : "; ") + r.what;
                return r;
            }
        };
        J params = J::obj();
        for (int m = (int)c.range(0, 3); m > 0; m--) params.o[c.chance(1, 3) ? std::string("id") : gen_key(c)] = value(c);
        std::string method = c.chance(1, 4) ? c.printable(20) : c.ident(1, 12);
        if (method.empty()) method = "m";
        bool with = !c.chance(1, 6);
        std::string ptext = jdump(params);
        Out o;
        double t0 = mono();
        o.rc = mcp_client_send_request(cl, method.c_str(), with ? ptext.c_str() : nullptr, &o.result, &o.code, &o.msg);
        double took = mono() - t0;
        std::lock_guard<std::mutex> g(sv.mu);
        PBT_CHECK(posts.size() == 1, "%s: %zu requests came for one call of %s with %s", trail.c_str(), posts.size(), show(method).c_str(), with ? show(ptext).c_str() : "-");
        check_post(posts[0], host, has_key ? &key : nullptr, trail);
        J q;
        PBT_CHECK(jparse(body_of(posts[0]), q) == 1, "%s: the body is %s", trail.c_str(), show(body_of(posts[0])).c_str());
        const J *me = q.get("method"), *pa = q.get("params");
        PBT_CHECK(me && *me == J::str(method), "%s: the method sent is %s", trail.c_str(), me ? show(jdump(*me)).c_str() : "missing");
        PBT_CHECK(with ? pa && *pa == params : true, "%s: the params sent are %s instead of %s", trail.c_str(), pa ? show(jdump(*pa)).c_str() : "missing", show(ptext).c_str());
        check_out(o, cur, trail);
        if (cur.never) PBT_CHECK(took < 12, "%s: the call took %.1f s with a timeout of %u ms", trail.c_str(), took, k.timeout_ms);
        if (cur.plan.stall && cur.good) PBT_CHECK(took < 12, "%s: the call waits for a connection left open: %.1f s", trail.c_str(), took);
        if (cur.good) { good++; if (cur.plan.cuts.size() > 1) split++; }
    }
    double t0 = mono();
    mcp_client_destroy(cl);
    PBT_CHECK(mono() - t0 < 12, "%s: ending the client took %.1f s", trail.c_str(), mono() - t0);
    sv.shut();
    c.nontrivial(good && split);
    c.note("%s", trail.c_str());
}

static void crowd(Case& c) {
    Server sv;
    sv.open();
    int threads = (int)c.range(2, 5), each = (int)c.range(1, 5);
    std::vector<size_t> cut(16);
    for (auto& x : cut) x = c.range(1, 60);
    int mode = (int)c.draw(3);
    std::vector<int> held(7);
    for (auto& h : held) h = c.chance(1, 3) ? (int)c.range(1, 3000) : 0;
    std::atomic<size_t> nth{0};
    sv.answer = [&](const std::string& rq) -> Plan {
        if (is_get(rq)) return quiet_stream();
        J q;
        if (jparse(body_of(rq), q) != 1 || !q.get("id") || !q.get("params")) return Plan{};
        J r = J::obj();
        r.o["jsonrpc"] = J::str("2.0");
        r.o["id"] = *q.get("id");
        r.o["result"] = *q.get("params");
        std::string b = jdump(r);
        usleep((unsigned)held[nth++ % held.size()]);
        Plan p;
        p.cuts = cut;
        p.wire = mode == 0 ? fmt("HTTP/1.1 200 OK\r\nContent-Length: %zu\r\n\r\n", b.size()) + b : mode == 1 ? fmt("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%zx\r\n", b.size()) + b + "\r\n0\r\n\r\n" : "HTTP/1.1 200 OK\r\n\r\n" + b;
        return p;
    };
    mcp_transport_t* tr = mcp_transport_http_client_create(sv.host.c_str(), sv.port);
    PBT_CHECK(tr != nullptr, "no transport");
    mcp_client_config_t cc;
    memset(&cc, 0, sizeof cc);
    cc.request_timeout_ms = 10000;
    mcp_client_t* cl = mcp_client_create(&cc, tr);
    PBT_CHECK(cl != nullptr, "no client");
    std::mutex m;
    std::string wrong;
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < each; i++) {
            std::string p = fmt("{\"who\":\"%d.%d\"}", t, i);
            Out o;
            o.rc = mcp_client_send_request(cl, "m", p.c_str(), &o.result, &o.code, &o.msg);
            J a, b;
            jparse(p, a);
            std::lock_guard<std::mutex> g(m);
            if (o.rc != 0 || !o.result || jparse(o.result, b) != 1 || !(a == b)) wrong += fmt("call %s gets %s (%d); ", p.c_str(), o.result ? o.result : o.msg ? o.msg : "nothing", (int)o.code);
            free(o.result);
            free(o.msg);
        }
    });
    for (auto& t : ts) t.join();
    PBT_CHECK(wrong.empty(), "%s", wrong.c_str());
    mcp_client_destroy(cl);
    sv.shut();
    c.nontrivial(threads * each > 3);
    c.note("%d threads, %d calls each", threads, each);
}

struct Seen {
    std::mutex mu;
    std::vector<std::string> messages;
};
static char* on_message(void* u, const void* d, size_t n, int* err) {
    Seen* s = (Seen*)u;
    *err = 0;
    std::lock_guard<std::mutex> g(s->mu);
    s->messages.emplace_back((const char*)d, n);
    return nullptr;
}
static void on_error(void*, int) {}

static void events(Case& c) {
    Server sv;
    sv.open();
    Seen seen;
    bool has_key = c.flip();
    std::string key = api_key(c);
    if (key.size() > 300) key.resize(300);
    int rounds = (int)c.range(1, 3);
    struct Round { Plan plan; std::vector<std::string> want; std::string last; bool has_last; };
    std::vector<Round> rs;
    std::string trail, last;
    bool has_last = false;
    size_t total = 0, pieced = 0;
    for (int r = 0; r < rounds; r++) {
        Round q;
        std::string s, nl = c.pick(std::vector<std::string>{"\n", "\n", "\r\n"});
        q.last = last;
        q.has_last = has_last;
        int n = (int)c.draw(7);
        auto field = [&](const std::string& name, const std::string& v) { return name + (c.flip() ? ": " : ":") + v + nl; };
        for (int i = 0; i < n; i++) {
            if (c.chance(1, 5)) s += ": comment" + nl + (c.flip() ? nl : "");
            if (c.chance(1, 8)) s += nl;
            std::vector<std::string> lines;
            if (c.flip()) { last = c.chance(1, 4) ? token(c, 1, 200) : fmt("%d", (int)c.draw(1000)); has_last = true; lines.push_back(field("id", last)); }
            if (c.flip()) lines.push_back(field("event", token(c, 1, 10)));
            if (c.chance(1, 6)) lines.push_back(field(c.pick(std::vector<std::string>{"retry", "dat", "data2", "Data", "ids"}), "77"));
            if (c.chance(1, 8)) lines.push_back(":data: x" + nl);
            std::string all;
            size_t nd = c.chance(1, 3) ? c.range(1, 4) : 1, at = 0;
            for (size_t j = 0; j < nd; j++) {
                std::string d = c.chance(1, 3) ? "x" + c.printable(30) : "{\"n\":" + fmt("%d", i) + "}";
                if (c.chance(1, 10)) d += std::string(c.range(500, 9000), 'd');
                all += (j ? "\n" : "") + d;
                at = c.range(at, lines.size());
                lines.insert(lines.begin() + (long)at, field("data", d));
                at++;
            }
            for (auto& l : lines) s += l;
            s += nl;
            q.want.push_back(all);
        }
        if (c.chance(1, 3)) s += field("id", "unseen") + field("data", "cut off"); // never ends
        std::string w = "HTTP/1.1 200 OK\r\n" + any_case(c, "Content-Type") + ": text/event-stream\r\n";
        if (c.chance(1, 3)) w += c.pick(std::vector<std::string>{"Cache-Control: no-cache\r\n", "X-Data: data: x\r\n", "data: x\r\n"});
        w += "\r\n";
        q.plan.wire = w + s;
        q.plan.cuts = pieces(c, q.plan.wire.size());
        q.plan.stall = r == rounds - 1 && c.flip();
        q.plan.reset = false;
        if (q.plan.cuts.size() > 1 && n) pieced++;
        total += q.want.size();
        trail += fmt("%s%d events%s", r ? "; " : "", n, q.plan.stall ? ", left open" : "");
        rs.push_back(q);
    }
    std::vector<std::string> gets;
    sv.answer = [&](const std::string& rq) -> Plan {
        if (is_get(rq)) {
            gets.push_back(rq);
            return gets.size() <= rs.size() ? rs[gets.size() - 1].plan : quiet_stream();
        }
        return Plan{"HTTP/1.1 200 OK\r\nContent-Length: 8\r\n\r\n{\"ok\":1}", {}, false, false};
    };
    mcp_http_client_config_t k;
    memset(&k, 0, sizeof k);
    k.host = sv.host.c_str();
    k.port = sv.port;
    k.timeout_ms = 30000;
    k.api_key = has_key ? key.c_str() : nullptr;
    mcp_transport_t* tr = mcp_transport_http_client_create_with_config(&k);
    PBT_CHECK(tr != nullptr, "no transport");
    PBT_CHECK(mcp_transport_start(tr, on_message, &seen, on_error) == 0, "the transport does not start");
    bool early = c.chance(1, 8); // stopped at any time
    if (early) usleep((unsigned)c.draw(20000));
    else {
        if (c.chance(1, 3)) {
            std::string rq = "{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"m\"}";
            PBT_CHECK(mcp_transport_send(tr, rq.data(), rq.size()) == 0, "%s: a request beside the stream fails", trail.c_str());
            char* d = nullptr;
            size_t n = 0;
            PBT_CHECK(mcp_transport_receive(tr, &d, &n, 1000) == 0 && d && std::string(d, n) == "{\"ok\":1}", "%s: the reply beside the stream is %s", trail.c_str(), d ? show(d).c_str() : "missing");
            free(d);
        }
        double quiet = mono() + 10;
        size_t have = 0, before = 0;
        for (;;) {
            bool resumed;
            { std::lock_guard<std::mutex> g(sv.mu); resumed = gets.size() > rs.size() || (rs.back().plan.stall && gets.size() == rs.size()); }
            { std::lock_guard<std::mutex> g(seen.mu); have = seen.messages.size(); }
            if (have >= total && resumed) break;
            if (have != before) { before = have; quiet = mono() + 10; }
            if (mono() > quiet) break;
            usleep(500);
        }
    }
    double t0 = mono();
    PBT_CHECK(mcp_transport_stop(tr) == 0, "%s: stop fails", trail.c_str());
    PBT_CHECK(mono() - t0 < 12, "%s: stopping took %.1f s", trail.c_str(), mono() - t0);
    mcp_transport_destroy(tr);
    sv.shut();
    std::vector<std::string> want;
    for (auto& r : rs) for (auto& w : r.want) want.push_back(w);
    for (size_t i = 0; i < std::min(want.size(), seen.messages.size()); i++)
        PBT_CHECK(want[i] == seen.messages[i], "%s: event %zu is %s instead of %s", trail.c_str(), i + 1, show(seen.messages[i]).c_str(), show(want[i]).c_str());
    PBT_CHECK(seen.messages.size() <= want.size(), "%s: %zu events came instead of %zu", trail.c_str(), seen.messages.size(), want.size());
    if (!early) {
        PBT_CHECK(seen.messages.size() == want.size(), "%s: %zu events came instead of %zu", trail.c_str(), seen.messages.size(), want.size());
        PBT_CHECK(gets.size() >= rs.size() + (rs.back().plan.stall ? 0 : 1), "%s: the client asked for the stream %zu times", trail.c_str(), gets.size());
    }
    for (size_t i = 0; i < gets.size() && i <= rs.size(); i++) {
        std::string v, wantid = i < rs.size() ? rs[i].last : last;
        bool should = i < rs.size() ? rs[i].has_last : has_last;
        PBT_CHECK(gets[i].compare(0, 21, "GET /events HTTP/1.1\r") == 0, "%s: the stream is asked for by %s", trail.c_str(), show(gets[i]).c_str());
        PBT_CHECK(header(gets[i], "Accept", v) && v == "text/event-stream", "%s: Accept is %s", trail.c_str(), show(v).c_str());
        v = "";
        PBT_CHECK(has_key ? header(gets[i], "Authorization", v) && v == "Bearer " + key : !header(gets[i], "Authorization", v), "%s: Authorization is %s", trail.c_str(), show(v).c_str());
        v = "";
        bool has = header(gets[i], "Last-Event-ID", v);
        PBT_CHECK(has == should && (!has || v == wantid), "%s: attempt %zu resumes after %s instead of %s", trail.c_str(), i + 1, has ? show(v).c_str() : "nothing", should ? show(wantid).c_str() : "nothing");
    }
    c.nontrivial(total && pieced && !early);
    c.note("%s", trail.c_str());
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P43";
    o.rule = "calls: at least one reply in several pieces handed on; events: at least one event of a stream in several pieces delivered; crowd: more than 3 calls";
    o.tests = {
        {"calls", tidy<calls>, 1200, 16000, 60, 40, 3},
        {"events", tidy<events>, 800, 10000, 60, 40, 3},
        {"crowd", tidy<crowd>, 200, 3000, 60, 20, 3},
    };
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
