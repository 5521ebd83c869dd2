// TECHNIQUE: property-based testing: generated comma-separated lists (spaces, empty entries, stars anywhere, prefixes of one another) against generated origins close to the entries; requests with generated Origin, session and last-event headers and CORS settings over real loopback connections to several transports of one process, one after another; oracle: reference matcher and header rules
// NOTE: A list without any entry restricts nothing. Entries are trimmed of spaces and tabs. An Origin of 256 or more characters is refused. An empty Origin header counts as absent. Header values are sent without leading or trailing blanks.
#include "pbt.hpp"
#include "mcp.hpp"
#include "http.hpp"
#include "sse.hpp"
#include <thread>
extern "C" {
#include "mcp_sthttp_transport.h"
int p22_allowed(const char* list, const char* const* origins, int n, int* out);
}
#include <libwebsockets.h>
using namespace pbt;

static std::vector<std::string> entries(const std::string& list) {
    std::vector<std::string> out;
    size_t p = 0;
    for (;;) {
        size_t q = list.find(',', p);
        std::string e = list.substr(p, q == std::string::npos ? q : q - p);
        while (!e.empty() && (e[0] == ' ' || e[0] == '\t')) e.erase(0, 1);
        while (!e.empty() && (e.back() == ' ' || e.back() == '\t')) e.pop_back();
        if (!e.empty()) out.push_back(e);
        if (q == std::string::npos) break;
        p = q + 1;
    }
    return out;
}
static bool allowed(const std::vector<std::string>& es, const std::string& o) {
    if (es.empty()) return true;
    for (auto& e : es) {
        if (o == e) return true;
        if (e.back() == '*' && o.compare(0, e.size() - 1, e, 0, e.size() - 1) == 0) return true;
    }
    return false;
}
static std::string gen_origin(Case& c) {
    static const char* hosts[] = {"localhost", "example.com", "a.b", "evil.com", "api.example.com", "example.com.evil.com", "127.0.0.1", "[::1]", "Example.com"};
    std::string s = c.chance(4, 5) ? (c.flip() ? "http://" : "https://") : c.chance(1, 2) ? "null" : "";
    if (s == "null") return s;
    s += hosts[c.draw(9)];
    if (c.chance(1, 3)) s += fmt(":%u", (unsigned)c.pick(std::vector<int>{80, 443, 3000, 30001, 8080, 8}));
    if (c.chance(1, 30)) s += std::string(c.range(150, 260), 'x');
    return s;
}
static std::string gen_list(Case& c, std::vector<std::string>& used) {
    std::string l;
    int n = (int)c.weighted({1, 3, 3, 2, 2, 1});
    for (int i = 0; i < n; i++) {
        if (i) l += ",";
        if (c.chance(1, 10)) { if (c.flip()) l += " \t"; continue; } // an empty entry
        std::string e = gen_origin(c);
        switch (c.weighted({6, 3, 1, 1})) {
        case 1: e = e.substr(0, c.draw(e.size() + 1)) + "*"; break;
        case 2: e.insert(c.draw(e.size() + 1), "*"); break;
        case 3: e = "*"; break;
        default: break;
        }
        used.push_back(e);
        if (c.chance(1, 3)) e = std::string(c.range(1, 3), c.flip() ? ' ' : '\t') + e;
        if (c.chance(1, 3)) e += std::string(c.range(1, 3), c.flip() ? ' ' : '\t');
        l += e;
    }
    if (c.chance(1, 12)) l = "," + l;
    if (c.chance(1, 12)) l += ",";
    return l;
}
static std::string near(Case& c, const std::vector<std::string>& used) {
    if (used.empty() || c.chance(1, 3)) return gen_origin(c);
    std::string e = c.pick(used);
    if (e.size() && e.back() == '*' && c.chance(3, 4)) e.pop_back();
    switch (c.draw(8)) {
    case 0: e += c.ident(1, 4); break;
    case 1: if (!e.empty()) e.pop_back(); break;
    case 2: if (!e.empty()) e.erase(0, 1); break;
    case 3: for (auto& ch : e) if (c.chance(1, 8)) ch = (char)toupper((unsigned char)ch); break;
    case 4: e += fmt(":%u", (unsigned)c.draw(65536)); break;
    case 5: e += ".evil.com"; break;
    default: break;
    }
    while (!e.empty() && (e[0] == ' ' || e[0] == '\t')) e.erase(0, 1);
    while (!e.empty() && (e.back() == ' ' || e.back() == '\t')) e.pop_back();
    return e;
}

static void lists(Case& c) {
    std::vector<std::string> used;
    std::string l = gen_list(c, used);
    auto es = entries(l);
    std::vector<std::string> os;
    for (int i = 0; i < 12; i++) os.push_back(near(c, used));
    std::vector<const char*> ps;
    for (auto& o : os) ps.push_back(o.c_str());
    std::vector<int> got(os.size());
    PBT_CHECK(p22_allowed(l.c_str(), ps.data(), (int)ps.size(), got.data()) == 0, "the list %s is not accepted", esc(l).c_str());
    int yes = 0, no = 0;
    for (size_t i = 0; i < os.size(); i++) {
        if (os[i].empty()) continue;
        bool want = allowed(es, os[i]);
        (want ? yes : no)++;
        PBT_CHECK((got[i] != 0) == want, "list %s, origin %s: %s, expected %s", esc(l).c_str(), esc(os[i]).c_str(), got[i] ? "accepted" : "refused", want ? "accepted" : "refused");
    }
    c.nontrivial(yes && no);
    c.note("list %s, %d origins accepted, %d refused, one is %s", esc(l).c_str(), yes, no, esc(os[0]).c_str());
}

static char* on_message(void*, const void*, size_t, int* err) { *err = 0; return strdup("{\"ok\":1}"); }
static mcp_transport_t* start(mcp_sthttp_config_t& cfg, std::string& host) {
    static unsigned serial = 0;
    host = own_host();
    for (int t = 0; t < 50; t++) {
        cfg.host = host.c_str();
        cfg.port = (uint16_t)(22000 + serial++ % 9000);
        mcp_transport_t* tr = mcp_transport_sthttp_create(&cfg);
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, on_message, nullptr, nullptr) == 0) return tr;
        mcp_transport_destroy(tr);
    }
    fail("the transport does not start");
    return nullptr;
}
struct Server {
    mcp_sthttp_config_t cfg;
    std::string host, list, co, cm, ch;
    std::vector<std::string> used, es;
    mcp_transport_t* tr = nullptr;
};
struct Probe {
    size_t server;
    std::string rq, what;
    bool sse = false, preflight = false;
    bool accept = true;
    std::string sid;           // header sent
    bool has_sid = false, sid_ok = false;
    std::string lid;
    bool has_lid = false;
    std::unique_ptr<HttpClient> h;
    HttpReply r;
};
static std::string gen_value(Case& c, size_t limit, bool& ok, bool session) {
    std::string s;
    size_t n;
    switch (c.weighted({5, 3})) {
    case 0: n = c.range(1, 40); break;
    default: n = limit - 3 + c.draw(6); // around the limit
    }
    bool odd = c.chance(1, 3);
    for (size_t i = 0; i < n; i++) {
        if (session) s += (char)(0x21 + c.draw(0x7f - 0x21));
        else s += "abcXYZ0189-_"[c.draw(12)];
    }
    ok = n < limit;
    if (odd && n > 2) {
        static const char* bad_s[] = {" ", "\t", "\x80", "\xc3\xa9", "\xff"};
        static const char* bad_l[] = {" ", ".", ":", "/", "\"", "\x80", "+", "@", "[", "`", "{"};
        s.insert(1 + c.draw(n - 2), session ? bad_s[c.draw(5)] : bad_l[c.draw(11)]);
        ok = false;
    }
    return s;
}
static void requests(Case& c) {
    std::vector<Server> sv((size_t)c.range(1, 3));
    // settings of the second transport may be those of the first, cut elsewhere
    std::string all = "http://" + c.ident(1, 6) + "GET, POST" + "Content-Type, X-" + c.ident(1, 8);
    std::string trail;
    for (auto& s : sv) {
        memset(&s.cfg, 0, sizeof s.cfg);
        s.list = gen_list(c, s.used);
        s.es = entries(s.list);
        s.cfg.validate_origin = c.chance(7, 8);
        s.cfg.allowed_origins = s.list.c_str();
        s.cfg.enable_sessions = c.flip();
        s.cfg.enable_cors = c.chance(3, 4);
        size_t a = 1 + c.draw(all.size() - 2), b = a + 1 + c.draw(all.size() - a - 1);
        auto trim = [](std::string x) { while (!x.empty() && x.back() == ' ') x.pop_back(); while (!x.empty() && x[0] == ' ') x.erase(0, 1); return x; };
        s.co = trim(all.substr(0, a)); s.cm = trim(all.substr(a, b - a)); s.ch = trim(all.substr(b));
        if (s.cm.empty()) s.cm = "GET";
        if (s.ch.empty()) s.ch = "X";
        s.cfg.cors_allow_origin = s.co.c_str();
        s.cfg.cors_allow_methods = s.cm.c_str();
        s.cfg.cors_allow_headers = s.ch.c_str();
        s.cfg.cors_max_age = c.chance(3, 4) ? 600 : (int)c.range(1, 5000);
        s.cfg.enable_sse_resumability = true;
        trail += fmt("[list %s%s, cors %s|%s|%s] ", esc(s.list).c_str(), s.cfg.validate_origin ? "" : " (unchecked)", s.co.c_str(), s.cm.c_str(), s.ch.c_str());
    }
    std::vector<Probe> ps((size_t)c.range(6, 14));
    int refused = 0, taken = 0;
    for (auto& p : ps) {
        p.server = c.draw(sv.size());
        auto& s = sv[p.server];
        std::string hs;
        bool has_origin = c.chance(3, 4);
        std::string o = near(c, s.used);
        if (o.empty()) has_origin = false;
        if (c.chance(1, 10)) { o = o.substr(0, 20); o += std::string(c.range(220, 300), 'y'); has_origin = true; }
        if (has_origin) {
            hs += "Origin: " + o + "\r\n";
            if (s.cfg.validate_origin) p.accept = o.size() < 256 && allowed(s.es, o);
        }
        if (c.chance(1, 2)) {
            p.has_sid = true;
            p.sid = gen_value(c, 128, p.sid_ok, true);
            hs += (c.flip() ? "Mcp-Session-Id: " : "mcp-session-id: ") + p.sid + "\r\n";
        }
        int kind = (int)c.weighted({6, 3, 2});
        if (kind == 0) p.rq = "POST /mcp HTTP/1.1\r\nHost: x\r\n" + hs + "Content-Length: 2\r\n\r\n{}";
        else if (kind == 1) { p.sse = true; p.rq = "GET /mcp HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n" + hs + "\r\n"; }
        else { p.preflight = true; p.rq = "OPTIONS /mcp HTTP/1.1\r\nHost: x\r\n" + hs + "\r\n"; }
        p.what = esc(p.rq);
        if (!p.preflight) (p.accept ? taken : refused)++;
    }
    // one after another: the library underneath does not serve two at once from threads of their own
    for (size_t at = 0; at < sv.size(); at++) {
    sv[at].tr = start(sv[at].cfg, sv[at].host);
    for (auto& p : ps) if (p.server == at) {
        p.h.reset(new HttpClient);
        PBT_CHECK(p.h->open(sv[p.server].host, sv[p.server].cfg.port), "no connection");
        p.h->feed(p.rq);
    }
    for (auto& p : ps) if (p.server == at) {
        auto& s = sv[p.server];
        const char* T = trail.c_str();
        const char* W = p.what.c_str();
        PBT_CHECK(p.h->wait_head(p.r), "%s: request %s gets no response", T, W);
        if (p.preflight) {
            PBT_CHECK(p.r.status == 200, "%s: %s gets status %d", T, W, p.r.status);
            if (s.cfg.enable_cors) {
                PBT_CHECK(p.r.get("access-control-allow-origin") == s.co && p.r.get("access-control-allow-methods") == s.cm && p.r.get("access-control-allow-headers") == s.ch &&
                          p.r.get("access-control-max-age") == fmt("%d", s.cfg.cors_max_age),
                          "%s: %s is answered with origin %s, methods %s, headers %s, age %s", T, W, p.r.get("access-control-allow-origin").c_str(), p.r.get("access-control-allow-methods").c_str(), p.r.get("access-control-allow-headers").c_str(), p.r.get("access-control-max-age").c_str());
            } else PBT_CHECK(!p.r.has("access-control-allow-origin"), "%s: %s: CORS headers though they are off", T, W);
            continue;
        }
        PBT_CHECK(p.accept ? p.r.status == 200 : (p.r.status >= 400 && p.r.status < 500), "%s: server %zu: %s gets status %d, expected it to be %s", T, p.server, W, p.r.status, p.accept ? "accepted" : "refused");
        if (!p.accept) continue;
        if (p.has_sid && p.sid_ok) PBT_CHECK(p.r.get("mcp-session-id") == p.sid, "%s: %s is answered for session %s", T, W, esc(p.r.get("mcp-session-id")).c_str());
        else PBT_CHECK(!p.r.has("mcp-session-id"), "%s: %s is answered for session %s", T, W, esc(p.r.get("mcp-session-id")).c_str());
        if (p.sse && s.cfg.enable_cors)
            PBT_CHECK(p.r.get("access-control-allow-origin") == s.co, "%s: %s: allowed origin header %s, expected %s", T, W, p.r.get("access-control-allow-origin").c_str(), s.co.c_str());
    }
    for (auto& p : ps) if (p.server == at) p.h->close_now();
    mcp_transport_stop(sv[at].tr);
    }
    for (auto& s : sv) mcp_transport_destroy(s.tr);
    c.nontrivial(taken && refused);
    if (sv.size() > 1) c.label("several transports");
    c.note("%s%zu requests, %d accepted, %d refused, first %s", trail.c_str(), ps.size(), taken, refused, ps[0].what.c_str());
}

// a resuming stream is served from exactly the id it gave, or from the start when the id is not acceptable
static void resume(Case& c) {
    mcp_sthttp_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_sse_resumability = true;
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    int n = (int)c.range(3, 12);
    HttpClient first; // sees every event, so that all are stored before anyone resumes
    PBT_CHECK(first.open(host, cfg.port), "no connection");
    first.feed("GET /mcp HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n\r\n");
    PBT_CHECK(first.until([&] { return first.in.find("event: connection") != std::string::npos; }, 15), "no connection event");
    for (int i = 1; i <= n; i++) {
        std::string d = fmt("event %d", i);
        PBT_CHECK(mcp_transport_sthttp_send_with_session(tr, d.data(), d.size(), nullptr) == 0, "sending fails");
    }
    PBT_CHECK(first.until([&] { return first.in.find(fmt("event %d\n", n)) != std::string::npos; }, 15), "event %d does not reach a stream", n);
    std::vector<Probe> ps((size_t)c.range(3, 8));
    std::vector<int> from(ps.size());
    for (size_t i = 0; i < ps.size(); i++) {
        auto& p = ps[i];
        int k = (int)c.range(1, (unsigned)n);
        std::string id = fmt("%d", k);
        bool ok = true;
        from[i] = k + 1;
        switch (c.draw(4)) {
        case 0: id += c.pick(std::vector<std::string>{" x", ".0", "+", "/", "\xc3\xa9", ":"}); ok = false; break;
        case 1: { id = "z" + gen_value(c, 63, ok, false); from[i] = 1; break; }
        case 2: id = std::string(c.range(64, 90), '0') + id; ok = false; break;
        default: break;
        }
        if (!ok) from[i] = n + 1; // not an id: the stream starts with what comes next
        p.rq = "GET /mcp HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\nLast-Event-ID: " + id + "\r\n\r\n";
        p.h.reset(new HttpClient);
        PBT_CHECK(p.h->open(host, cfg.port), "no connection");
        p.h->feed(p.rq);
        c.label(ok ? "acceptable id" : "unacceptable id");
    }
    for (size_t i = 0; i < ps.size(); i++) {
        auto& p = ps[i];
        PBT_CHECK(p.h->wait_head(p.r) && p.r.status == 200, "%s gets status %d", esc(p.rq).c_str(), p.r.status);
        std::vector<SseEvent> ev;
        bool there = p.h->until([&] { ev = sse_read(p.h->in); for (auto& e : ev) if (e.type == "connection") return true; return false; }, 15);
        PBT_CHECK(there, "%s: no connection event", esc(p.rq).c_str());
        std::vector<int> got;
        for (auto& e : ev) if (e.type == "message") got.push_back(atoi(e.id.c_str()));
        std::vector<int> want;
        for (int k = from[i]; k <= n; k++) want.push_back(k);
        PBT_CHECK(got == want, "%d events sent; %s receives %zu events starting with %d, expected %zu starting with %d", n, esc(p.rq).c_str(), got.size(), got.empty() ? 0 : got[0], want.size(), want.empty() ? 0 : want[0]);
    }
    for (auto& p : ps) p.h->close_now();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(true);
    c.note("%d events, first request %s", n, esc(ps[0].rq).c_str());
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P22";
    o.rule = "some origins are accepted and some refused by the same list; or a stream resumes with a generated id";
    o.tests = {
        {"lists", lists, 60000, 600000},
        {"requests", requests, 300, 3000, 60, 10, 5},
        {"resume", resume, 150, 1500, 60, 10, 5},
    };
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    return run(argc, argv, o);
}
