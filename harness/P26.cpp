// TECHNIQUE: property-based testing of the client transport against a scripted server on loopback: generated requests and configurations, generated HTTP responses (length, chunked or up to the close, decoy headers, arbitrary bytes) and event streams, cut into arbitrary pieces, plus damaged and cut-off ones; oracle: the request and the response or events by construction
// NOTE: No TLS. Not covered: automatic reconnection of event streams (configured but not implemented by the code), and answers to a POST in the form of an event stream.
#include "pbt.hpp"
#include "mcp.hpp"
#include "ws.hpp"
#include <algorithm>
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>
extern "C" {
#include "mcp_sthttp_client_transport.h"
#include "mcp_buffer_pool.h"
}
using namespace pbt;

static std::string show(const std::string& s) { return s.size() > 90 ? esc(s.substr(0, 70)) + fmt("...(%zu bytes)", s.size()) : esc(s); }

// ---- the scripted server ----
struct Plan {
    std::string wire;
    std::vector<size_t> cuts; // lengths of the pieces
    bool stall = false;       // leaves the connection open
    bool reset = false;
};
struct Server {
    int fd = -1;
    uint16_t port = 0;
    std::string host;
    std::thread th;
    std::vector<std::thread> kids;
    std::atomic<bool> stopping{false};
    std::mutex mu;
    std::vector<std::string> seen; // whole requests
    std::function<Plan(const std::string&)> answer;
    void open() {
        host = own_host();
        fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        struct sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        inet_pton(AF_INET, host.c_str(), &a.sin_addr);
        PBT_CHECK(bind(fd, (struct sockaddr*)&a, sizeof a) == 0 && listen(fd, 64) == 0, "cannot listen");
        socklen_t l = sizeof a;
        getsockname(fd, (struct sockaddr*)&a, &l);
        port = ntohs(a.sin_port);
        th = std::thread([this] {
            for (;;) {
                struct pollfd p = {fd, POLLIN, 0};
                if (poll(&p, 1, 50) <= 0) {
                    if (stopping) return;
                    continue;
                }
                int k = accept4(fd, nullptr, nullptr, SOCK_CLOEXEC);
                if (k < 0) continue;
                kids.emplace_back([this, k] { serve(k); });
            }
        });
    }
    void serve(int k) {
        int one = 1;
        setsockopt(k, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        std::string in;
        char buf[4096];
        double end = mono() + 20;
        for (;;) {
            size_t e = in.find("\r\n\r\n");
            if (e != std::string::npos) {
                size_t l = 0, at = in.find("\r\nContent-Length:");
                if (at != std::string::npos && at < e) l = strtoul(in.c_str() + at + 17, nullptr, 10);
                if (in.size() >= e + 4 + l) break;
            }
            struct pollfd p = {k, POLLIN, 0};
            if (poll(&p, 1, 100) <= 0) {
                if (stopping || mono() > end) break;
                continue;
            }
            ssize_t n = recv(k, buf, sizeof buf, 0);
            if (n <= 0) break;
            in.append(buf, (size_t)n);
        }
        Plan pl;
        {
            std::lock_guard<std::mutex> g(mu);
            seen.push_back(in);
            pl = answer(in);
        }
        size_t at = 0;
        for (size_t i = 0; i < pl.cuts.size() && at < pl.wire.size(); i++) {
            size_t n = std::min(pl.cuts[i], pl.wire.size() - at);
            if (n && !all(k, pl.wire.data() + at, n)) break;
            at += n;
            if (i < 20) usleep(300);
        }
        if (at < pl.wire.size()) all(k, pl.wire.data() + at, pl.wire.size() - at);
        if (pl.stall) while (!stopping && mono() < end) {
            struct pollfd p = {k, POLLIN, 0};
            if (poll(&p, 1, 50) > 0 && recv(k, buf, sizeof buf, 0) <= 0) break;
        }
        if (pl.reset) {
            struct linger l = {1, 0};
            setsockopt(k, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        } else {
            shutdown(k, SHUT_WR); // what was sent arrives before the close
            while (recv(k, buf, sizeof buf, MSG_DONTWAIT) > 0) {}
        }
        close(k);
    }
    static bool all(int k, const char* p, size_t n) {
        while (n) {
            ssize_t w = send(k, p, n, MSG_NOSIGNAL);
            if (w <= 0) return false;
            p += w;
            n -= (size_t)w;
        }
        return true;
    }
    void shut() {
        stopping = true;
        if (th.joinable()) th.join();
        for (auto& t : kids) if (t.joinable()) t.join();
        kids.clear();
        if (fd >= 0) close(fd);
        fd = -1;
    }
    ~Server() { shut(); }
};

// ---- the client's callbacks ----
struct Seen {
    std::mutex mu;
    std::vector<std::string> messages;
    int errors = 0;
    struct Ev { std::string id, type, data; bool has_data; };
    std::vector<Ev> events;
};
static char* on_message(void* u, const void* d, size_t n, int* err) {
    Seen* s = (Seen*)u;
    *err = 0;
    std::lock_guard<std::mutex> g(s->mu);
    s->messages.emplace_back((const char*)d, n);
    return nullptr;
}
static void on_error(void* u, int) {
    Seen* s = (Seen*)u;
    std::lock_guard<std::mutex> g(s->mu);
    s->errors++;
}
static void on_event(mcp_transport_t*, const char* id, const char* type, const char* data, void* u) {
    Seen* s = (Seen*)u;
    std::lock_guard<std::mutex> g(s->mu);
    s->events.push_back({id ? id : "", type ? type : "", data ? data : "", data != nullptr});
}

// ---- generators ----
static std::string any_case(Case& c, const std::string& s) {
    std::string o = s;
    switch (c.draw(4)) {
    case 0: break;
    case 1: for (auto& ch : o) ch = (char)tolower(ch); break;
    case 2: for (auto& ch : o) ch = (char)toupper(ch); break;
    default: for (auto& ch : o) if (c.flip()) ch = (char)(isupper(ch) ? tolower(ch) : toupper(ch));
    }
    return o;
}
static std::string token(Case& c, size_t lo, size_t hi) {
    static const char* al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~+=";
    std::string s;
    for (size_t i = 0, n = c.range(lo, hi); i < n; i++) s += al[c.draw(68)];
    return s;
}
static std::string chunked(Case& c, const std::string& body) {
    std::string w;
    size_t at = 0;
    for (size_t n : c.cuts(body.size(), 6)) {
        if (!n) continue;
        w += fmt(c.flip() ? "%zx" : "%zX", n);
        if (c.chance(1, 8)) w += ";ext=1";
        w += "\r\n" + body.substr(at, n) + "\r\n";
        at += n;
    }
    w += c.chance(1, 6) ? "000\r\n" : "0\r\n";
    if (c.chance(1, 8)) w += "X-Trailer: 1\r\n";
    return w + "\r\n";
}
static std::vector<size_t> pieces(Case& c, size_t n) {
    if (c.chance(1, 4)) return {n};
    if (n < 400 && c.chance(1, 6)) return std::vector<size_t>(n, 1);
    return c.cuts(n, 12);
}
static std::string body_bytes(Case& c) {
    std::string b;
    switch (c.weighted({4, 2, 2, 1, 1})) {
    case 0: b = "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"" + c.ident(0, 30) + "\"}"; break;
    case 1: b = c.bytes(60); break;
    case 2: b = c.pick(std::vector<std::string>{"HTTP/1.1 500 Bad\r\nContent-Length: 3\r\n\r\nbad", "\r\n\r\n", "0\r\n\r\n", "a\nb", "Mcp-Session-Id: no\r\n"}); break;
    case 3: for (size_t i = 0, n = c.range(900, 12000); i < n; i++) b += (char)('a' + i % 26); break;
    default: break;
    }
    return b;
}
struct Config {
    std::string host, endpoint, agent, key, custom;
    bool has_agent, has_key, has_custom, sessions;
    mcp_sthttp_client_config_t make(uint16_t port, bool events) {
        mcp_sthttp_client_config_t k = MCP_STHTTP_CLIENT_CONFIG_DEFAULT;
        k.host = host.c_str();
        k.port = port;
        k.mcp_endpoint = endpoint.c_str();
        k.user_agent = has_agent ? agent.c_str() : nullptr;
        k.api_key = has_key ? key.c_str() : nullptr;
        k.custom_headers = has_custom ? custom.c_str() : nullptr;
        k.enable_sessions = sessions;
        k.enable_sse_streams = events;
        k.auto_reconnect_sse = false;
        return k;
    }
};
static Config config(Case& c) {
    Config k;
    k.host = own_host();
    k.endpoint = c.chance(1, 3) ? "/" + token(c, 0, c.chance(1, 8) ? 2500 : 12) : "/mcp";
    k.has_agent = c.flip();
    k.agent = token(c, 1, c.chance(1, 8) ? 1500 : 10);
    k.has_key = c.chance(1, 3);
    k.key = token(c, 1, 200);
    k.has_custom = c.chance(1, 3);
    k.custom = "X-One: " + token(c, 1, 300);
    if (k.has_custom && c.flip()) k.custom += "\r\nX-Two: 2";
    k.sessions = c.chance(3, 4);
    return k;
}
// the value of a header of a request, or a line saying why not
static bool header(const std::string& rq, const char* name, std::string& v) {
    size_t e = rq.find("\r\n\r\n");
    std::string key = std::string("\r\n") + name + ": ";
    size_t at = rq.find(key);
    if (at == std::string::npos || at > e) return false;
    v = rq.substr(at + key.size(), rq.find("\r\n", at + 2) - at - key.size());
    return rq.find(key, at + 1) == std::string::npos || rq.find(key, at + 1) > e;
}
static void check_request(const std::string& rq, const char* method, Config& k, uint16_t port, const std::string& session, const std::string* body, const std::string& trail) {
    size_t e = rq.find("\r\n\r\n");
    PBT_CHECK(e != std::string::npos, "%s: the request has no end: %s", trail.c_str(), show(rq).c_str());
    std::string first = fmt("%s %s HTTP/1.1\r\n", method, k.endpoint.c_str());
    PBT_CHECK(rq.compare(0, first.size(), first) == 0, "%s: the request begins with %s", trail.c_str(), show(rq).c_str());
    std::string v;
    PBT_CHECK(header(rq, "Host", v) && v == fmt("%s:%d", k.host.c_str(), port), "%s: Host is %s", trail.c_str(), show(v).c_str());
    PBT_CHECK(!k.has_agent || (header(rq, "User-Agent", v) && v == k.agent), "%s: User-Agent is %s", trail.c_str(), show(v).c_str());
    v = "";
    PBT_CHECK(k.has_key ? header(rq, "Authorization", v) && v == "Bearer " + k.key : !header(rq, "Authorization", v), "%s: Authorization is %s", trail.c_str(), show(v).c_str());
    v = "";
    PBT_CHECK(!k.has_custom || rq.find("\r\n" + k.custom + "\r\n") < e + 2, "%s: the custom headers are missing", trail.c_str());
    bool has = header(rq, "Mcp-Session-Id", v);
    PBT_CHECK(session.empty() ? !has : has && v == session, "%s: the session id sent is %s instead of %s", trail.c_str(), has ? show(v).c_str() : "missing", show(session).c_str());
    if (body) {
        PBT_CHECK(rq.substr(e + 4) == *body, "%s: the body sent is %s instead of %s", trail.c_str(), show(rq.substr(e + 4)).c_str(), show(*body).c_str());
        PBT_CHECK(header(rq, "Content-Length", v) && v == fmt("%zu", body->size()), "%s: Content-Length is %s", trail.c_str(), v.c_str());
    }
}
struct Reply {
    Plan plan;
    std::string body, session; // session: the id given, if any
    int status = 200;
    bool good = true;
    std::string what;
};
static Reply response(Case& c) {
    Reply r;
    r.body = body_bytes(c);
    static const std::vector<int> st = {200, 200, 200, 201, 202, 400, 404, 500};
    r.status = c.pick(st);
    std::string nl = c.chance(1, 8) ? "\n" : "\r\n";
    std::string w = fmt("HTTP/1.%d %d", c.chance(1, 6) ? 0 : 1, r.status);
    if (!c.chance(1, 8)) w += " Some Reason";
    w += nl;
    std::vector<std::string> hs;
    int mode = (int)c.weighted({4, 3, 2}); // length, chunked, up to the close
    if (mode == 0) hs.push_back(any_case(c, "Content-Length") + ":" + std::string(c.draw(3), ' ') + fmt("%zu", r.body.size()));
    if (mode == 1) hs.push_back(any_case(c, "Transfer-Encoding") + ": chunked");
    if (c.flip()) hs.push_back(any_case(c, "Content-Type") + ": application/json");
    if (c.chance(1, 3)) {
        r.session = token(c, 1, c.chance(1, 6) ? 2000 : 40);
        hs.push_back(any_case(c, "Mcp-Session-Id") + (c.flip() ? ": " : ":") + r.session);
    }
    for (int i = 0, n = (int)c.draw(4); i < n; i++)
        hs.push_back(c.pick(std::vector<std::string>{"X-Mcp-Session-Id: decoy", "X-Content-Length: 1", "Server: x:y", "X-Empty:", "Connection: close", "X-Long: " + std::string(3000, 'l'), "Warning: Content-Length: 2", "Warning: Mcp-Session-Id: decoy"}));
    for (size_t i = hs.size(); i > 1; i--) std::swap(hs[i - 1], hs[c.draw(i)]);
    for (auto& h : hs) w += h + nl;
    w += nl;
    size_t head = w.size();
    w += mode == 1 ? chunked(c, r.body) : r.body;
    if (mode == 2 && r.body.empty() && c.flip()) r.status = 204, w.replace(9, 3, "204");
    r.what = fmt("%d %s", r.status, mode == 0 ? "with length" : mode == 1 ? "chunked" : "up to the close");
    switch (c.weighted({12, 2, 2, 1})) {
    case 0: break;
    case 1: { // cut off
        size_t most = mode == 2 ? head - 2 : mode == 1 ? w.size() - 3 : w.size() - 1;
        if (mode == 2 && r.status == 204) most = head - 2;
        w.resize(c.draw(most + 1));
        r.good = false;
        r.plan.reset = c.flip();
        r.what += fmt(", cut off after %zu bytes", w.size());
        break;
    }
    case 2: { // damaged
        static const std::vector<std::pair<const char*, const char*>> bad = {
            {"HTTP/1.1 abc\r\nContent-Length: 0\r\n\r\n", "no status"}, {"HTTX/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "not HTTP"},
            {"200 OK\r\n\r\n", "no version"}, {"HTTP/1.1 200 OK\r\nno colon here\r\nContent-Length: 0\r\n\r\n", "header without colon"},
            {"HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\nabc", "length abc"}, {"HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nabcde", "negative length"},
            {"HTTP/1.1 200 OK\r\nContent-Length: 3x\r\n\r\nabc", "length 3x"}, {"HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\nabc", "length beyond 64 bits"},
            {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nabc\r\n0\r\n\r\n", "chunk size zz"}, {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nabcd\r\n0\r\n\r\n", "chunk longer than its size"},
            {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\na\r\n0\r\n\r\n", "negative chunk size"}, {"\r\n\r\n", "no status line"}, {"HTTP/1.1 0 OK\r\nContent-Length: 0\r\n\r\n", "status 0"},
            {"HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\nabc", "a length that never comes"}, {"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\nabc", "a chunk that never comes"}};
        auto& b = c.pick(bad);
        w = b.first;
        r.good = false;
        r.what = b.second;
        break;
    }
    default: // the connection stays open, or has more on it than the response
        if (mode == 2 && r.status != 204) break;
        if (c.flip()) w += "HTTP/1.1 500 Extra\r\n\r\n";
        r.plan.stall = true;
    }
    r.plan.wire = w;
    r.plan.cuts = pieces(c, w.size());
    if (!r.good) r.session.clear();
    return r;
}
static std::string request_text(Case& c) {
    std::string m = c.chance(1, 4) ? c.text(40) : "{\"jsonrpc\":\"2.0\",\"method\":\"" + c.ident(1, 12) + "\"}";
    if (c.chance(1, 10)) for (size_t i = 0, n = c.range(2000, 100000); i < n; i++) m += (char)('A' + i % 26);
    m.erase(std::remove(m.begin(), m.end(), '\0'), m.end());
    if (m.empty()) m = "x";
    return m;
}

static void requests(Case& c) {
    Config k = config(c);
    Server sv;
    sv.open();
    Seen seen;
    auto cfg = k.make(sv.port, false);
    mcp_transport_t* tr = mcp_transport_sthttp_client_create(&cfg);
    PBT_CHECK(tr != nullptr, "no transport");
    PBT_CHECK(mcp_transport_start(tr, on_message, &seen, on_error) == 0, "the transport does not start");
    int n = (int)c.range(1, 8);
    std::string session, trail;
    size_t good = 0, split = 0;
    mcp_client_connection_stats_t st0;
    for (int i = 0; i < n; i++) {
        std::string text = request_text(c);
        Reply r = response(c);
        trail += (i ? "; " : "") + r.what;
        sv.mu.lock();
        sv.answer = [&r](const std::string&) { return r.plan; };
        sv.seen.clear();
        sv.mu.unlock();
        seen.messages.clear();
        seen.errors = 0;
        mcp_sthttp_client_get_stats(tr, &st0);
        int rc;
        switch (c.draw(3)) {
        case 0: rc = mcp_transport_send(tr, text.data(), text.size()); break;
        case 1: { // as the client library does it: a length, then the text
            uint32_t l = htonl((uint32_t)text.size());
            mcp_buffer_t b[2] = {{&l, 4}, {(void*)text.data(), text.size()}};
            rc = mcp_transport_sendv(tr, b, 2);
            break;
        }
        default: {
            size_t a = c.draw(text.size() + 1), d = a + c.draw(text.size() - a + 1);
            mcp_buffer_t b[3] = {{(void*)text.data(), a}, {(void*)(text.data() + a), d - a}, {(void*)(text.data() + d), text.size() - d}};
            rc = mcp_transport_sendv(tr, b, 3);
        }
        }
        PBT_CHECK(sv.seen.size() == 1, "%s: %zu requests came", trail.c_str(), sv.seen.size());
        check_request(sv.seen[0], "POST", k, sv.port, session, &text, trail);
        if (r.good && k.sessions && !r.session.empty()) session = r.session;
        bool open = r.good && r.body.empty() && r.status >= 400; // an error without a body: reported or not
        if (r.good) {
            PBT_CHECK(rc == 0 || open, "%s: reported as failed", trail.c_str());
            PBT_CHECK(seen.messages.size() == (r.body.empty() ? 0 : 1), "%s: %zu messages handed on", trail.c_str(), seen.messages.size());
            if (!r.body.empty()) PBT_CHECK(seen.messages[0] == r.body, "%s: the message handed on is %s, the response has %s", trail.c_str(), show(seen.messages[0]).c_str(), show(r.body).c_str());
            PBT_CHECK(seen.errors == 0 || open, "%s: an error was reported", trail.c_str());
            good++;
            if (r.plan.cuts.size() > 1) split++;
        } else {
            PBT_CHECK(rc != 0, "%s: reported as success", trail.c_str());
            PBT_CHECK(seen.messages.empty(), "%s: the message %s was handed on", trail.c_str(), show(seen.messages[0]).c_str());
            PBT_CHECK(seen.errors == 1, "%s: %d errors reported", trail.c_str(), seen.errors);
        }
        mcp_client_connection_stats_t st;
        mcp_sthttp_client_get_stats(tr, &st);
        if (!open) PBT_CHECK(st.responses_received - st0.responses_received == (r.good ? 1u : 0u) && st.connection_errors - st0.connection_errors == (r.good ? 0u : 1u), "%s: the statistics count %d responses and %d errors", trail.c_str(), (int)(st.responses_received - st0.responses_received), (int)(st.connection_errors - st0.connection_errors));
        const char* id = mcp_sthttp_client_get_session_id(tr);
        PBT_CHECK(session.empty() ? id == nullptr : id && session == id, "%s: the session id is %s instead of %s", trail.c_str(), id ? show(id).c_str() : "missing", show(session).c_str());
        if (c.chance(1, 12)) {
            sv.mu.lock();
            sv.answer = [](const std::string&) { return Plan{"HTTP/1.1 204 No Content\r\n\r\n", {}, false, false}; };
            sv.seen.clear();
            sv.mu.unlock();
            trail += "; end of session";
            PBT_CHECK(mcp_sthttp_client_terminate_session(tr) == 0, "%s: fails", trail.c_str());
            double end = mono() + 10;
            size_t have = 0;
            while (!session.empty() && !have && mono() < end) { usleep(1000); std::lock_guard<std::mutex> g(sv.mu); have = sv.seen.size(); }
            if (!session.empty()) {
                PBT_CHECK(have == 1, "%s: no request came", trail.c_str());
                check_request(sv.seen[0], "DELETE", k, sv.port, session, nullptr, trail);
            }
            session.clear();
            PBT_CHECK(mcp_sthttp_client_get_session_id(tr) == nullptr, "%s: there is still a session id", trail.c_str());
        }
    }
    if (c.flip()) {
        PBT_CHECK(mcp_transport_stop(tr) == 0, "%s: stop fails", trail.c_str());
        PBT_CHECK(mcp_sthttp_client_get_state(tr) == MCP_CLIENT_STATE_DISCONNECTED, "%s: connected after stop", trail.c_str());
        PBT_CHECK(mcp_transport_send(tr, "x", 1) != 0, "%s: a send after stop succeeds", trail.c_str());
    }
    mcp_transport_destroy(tr);
    sv.shut();
    c.nontrivial(good && split);
    c.note("%s", trail.c_str());
}

static void events(Case& c) {
    Config k = config(c);
    Server sv;
    sv.open();
    Seen seen;
    std::string session;
    int rounds = (int)c.range(1, 3), delivered = 0;
    std::string trail;
    mcp_transport_t* tr = nullptr;
    size_t total = 0, pieced = 0;
    for (int r = 0; r < rounds; r++) {
        // the stream
        std::vector<Seen::Ev> want;
        std::string s;
        std::string nl = c.pick(std::vector<std::string>{"\n", "\n", "\r\n", "\r"});
        int n = (int)c.draw(7);
        auto field = [&](const std::string& name, const std::string& v) { // with one space, or none where the value allows
            return v.empty() && c.chance(1, 4) ? name + nl : name + (v.empty() || v[0] == ' ' || c.flip() ? ": " : ":") + v + nl;
        };
        for (int i = 0; i < n; i++) {
            if (c.chance(1, 5)) s += ": comment" + nl + (c.flip() ? nl : "");
            if (c.chance(1, 8)) s += nl;
            if (c.chance(1, 10)) { s += field("event", "nothing") + nl; } // no data, no event
            Seen::Ev e;
            e.has_data = true;
            std::vector<std::string> lines;
            if (c.flip()) { e.id = c.chance(1, 4) ? token(c, 1, 400) : fmt("%d", (int)c.draw(1000)); lines.push_back(field("id", e.id)); }
            if (c.flip()) { e.type = token(c, 1, c.chance(1, 10) ? 300 : 10); lines.push_back(field("event", e.type)); }
            if (c.chance(1, 6)) lines.push_back(field(c.pick(std::vector<std::string>{"retry", "dat", "data2", "Data", "ids"}), "77"));
            if (c.chance(1, 8)) lines.push_back(":data: x" + nl);
            size_t nd = c.chance(1, 3) ? c.range(1, 4) : 1;
            std::vector<std::string> ds;
            for (size_t j = 0; j < nd; j++) {
                std::string d = c.chance(1, 6) ? "" : c.chance(1, 3) ? c.printable(30) : "{\"n\":" + fmt("%d", i) + "}";
                if (c.chance(1, 8)) d = "  " + d + " ";
                if (c.chance(1, 10)) d += std::string(c.range(500, 9000), 'd');
                ds.push_back(d);
                e.data += (j ? "\n" : "") + d;
            }
            // data lines keep their order, the others may stand anywhere
            size_t at = 0;
            for (auto& d : ds) {
                at = c.range(at, lines.size());
                lines.insert(lines.begin() + (long)at, field("data", d));
                at++;
            }
            for (auto& l : lines) s += l;
            s += nl;
            want.push_back(e);
        }
        if (c.chance(1, 3)) s += field("data", "cut off"); // never ends
        int mode = (int)c.weighted({5, 3, 1}); // up to the close, chunked, length
        int kind = (int)c.weighted({10, 1, 1, 1}); // good, status, type, damaged
        std::string w = kind == 1 ? "HTTP/1.1 404 Not Found\r\n" : kind == 3 ? "HTTP/1.1 nothing\r\n" : "HTTP/1.1 200 OK\r\n";
        if (kind != 2) w += any_case(c, "Content-Type") + ": text/event-stream" + (c.flip() ? "; charset=utf-8" : "") + "\r\n";
        else if (c.flip()) w += "Content-Type: text/html\r\n";
        if (mode == 1) w += "Transfer-Encoding: chunked\r\n";
        if (mode == 2) w += fmt("Content-Length: %zu\r\n", s.size());
        w += "\r\n";
        w += mode == 1 ? chunked(c, s) : s;
        if (kind) want.clear();
        Plan pl;
        pl.wire = w;
        pl.cuts = pieces(c, w.size());
        pl.stall = mode == 0 && c.chance(1, 3);
        if (pl.cuts.size() > 1 && !want.empty()) pieced++;
        trail += fmt("%s%zu events%s%s%s", r ? "; " : "", want.size(), mode == 1 ? ", chunked" : mode == 2 ? ", with length" : "", kind == 1 ? ", refused" : kind == 2 ? ", wrong type" : kind == 3 ? ", damaged" : "", nl == "\r" ? ", CR" : nl == "\n" ? "" : ", CRLF");
        sv.mu.lock();
        sv.answer = [pl](const std::string& rq) {
            if (rq.compare(0, 4, "GET ") == 0) return pl;
            return Plan{"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok", {}, false, false};
        };
        sv.seen.clear();
        sv.mu.unlock();
        { std::lock_guard<std::mutex> g(seen.mu); seen.events.clear(); seen.messages.clear(); }
        if (!tr) {
            auto cfg = k.make(sv.port, true);
            tr = mcp_transport_sthttp_client_create(&cfg);
            PBT_CHECK(tr != nullptr, "no transport");
            mcp_sthttp_client_set_sse_callback(tr, on_event, &seen);
            PBT_CHECK(mcp_transport_start(tr, on_message, &seen, on_error) == 0, "the transport does not start");
        } else {
            int rc = mcp_sthttp_client_reconnect_sse(tr);
            PBT_CHECK((rc == 0) == (kind == 0), "%s: reconnecting returns %d", trail.c_str(), rc);
        }
        bool post = c.chance(1, 3);
        if (post) PBT_CHECK(mcp_transport_send(tr, "x", 1) == 0, "%s: a request beside the stream fails", trail.c_str());
        bool streaming = kind == 0 && pl.stall;
        double quiet = mono() + 10;
        size_t last = 0;
        for (;;) {
            size_t have;
            { std::lock_guard<std::mutex> g(seen.mu); have = seen.events.size(); }
            if (have != last) { last = have; quiet = mono() + 10; }
            auto state = mcp_sthttp_client_get_state(tr);
            if (have >= want.size() && (streaming || state == MCP_CLIENT_STATE_CONNECTED)) {
                if (streaming) PBT_CHECK(state == MCP_CLIENT_STATE_SSE_CONNECTED, "%s: the state is %d while the stream is open", trail.c_str(), (int)state);
                break;
            }
            if (mono() > quiet) break;
            usleep(500);
        }
        std::lock_guard<std::mutex> g(seen.mu);
        for (size_t i = 0; i < std::min(want.size(), seen.events.size()); i++) {
            auto &a = want[i], &b = seen.events[i];
            PBT_CHECK(a.id == b.id && a.type == b.type && a.data == b.data && b.has_data, "%s: event %zu is id %s, type %s, data %s instead of id %s, type %s, data %s", trail.c_str(), i + 1, show(b.id).c_str(), show(b.type).c_str(), show(b.data).c_str(), show(a.id).c_str(), show(a.type).c_str(), show(a.data).c_str());
        }
        PBT_CHECK(seen.events.size() == want.size(), "%s: %zu events came instead of %zu", trail.c_str(), seen.events.size(), want.size());
        if (!streaming) PBT_CHECK(mcp_sthttp_client_get_state(tr) == MCP_CLIENT_STATE_CONNECTED, "%s: the state is %d after the end of the stream", trail.c_str(), (int)mcp_sthttp_client_get_state(tr));
        if (post) PBT_CHECK(seen.messages.size() == 1 && seen.messages[0] == "ok", "%s: the reply of a request beside the stream is not handed on", trail.c_str());
        total += want.size();
        delivered += (int)want.size();
        std::lock_guard<std::mutex> g2(sv.mu);
        for (auto& rq : sv.seen) {
            bool get = rq.compare(0, 4, "GET ") == 0;
            check_request(rq, get ? "GET" : "POST", k, sv.port, session, nullptr, trail);
            std::string v;
            if (get) PBT_CHECK(header(rq, "Accept", v) && v == "text/event-stream", "%s: Accept is %s", trail.c_str(), show(v).c_str());
        }
    }
    mcp_client_connection_stats_t st;
    mcp_sthttp_client_get_stats(tr, &st);
    PBT_CHECK(st.sse_events_received == total, "%s: the statistics count %d events instead of %zu", trail.c_str(), (int)st.sse_events_received, total);
    if (c.flip()) {
        PBT_CHECK(mcp_transport_stop(tr) == 0, "%s: stop fails", trail.c_str());
        PBT_CHECK(mcp_sthttp_client_get_state(tr) == MCP_CLIENT_STATE_DISCONNECTED, "%s: connected after stop", trail.c_str());
    }
    mcp_transport_destroy(tr);
    sv.shut();
    c.nontrivial(delivered > 0 && pieced);
    c.note("%s", trail.c_str());
}

// several threads send at once, while the server keeps changing the session
static void crowd(Case& c) {
    Config k = config(c);
    k.sessions = true;
    Server sv;
    sv.open();
    Seen seen;
    int threads = (int)c.range(2, 6), each = (int)c.range(1, 6);
    std::vector<size_t> cut(16);
    for (auto& x : cut) x = c.range(1, 60);
    std::atomic<int> serial{0};
    sv.answer = [&](const std::string& rq) {
        Plan p;
        std::string body = "re " + rq.substr(rq.find("\r\n\r\n") + 4);
        p.wire = fmt("HTTP/1.1 200 OK\r\nMcp-Session-Id: s%d%s\r\nContent-Length: %zu\r\n\r\n", serial.fetch_add(1), std::string((size_t)serial % 50, 'x').c_str(), body.size()) + body;
        p.cuts = cut;
        return p;
    };
    auto cfg = k.make(sv.port, false);
    mcp_transport_t* tr = mcp_transport_sthttp_client_create(&cfg);
    PBT_CHECK(tr != nullptr, "no transport");
    PBT_CHECK(mcp_transport_start(tr, on_message, &seen, on_error) == 0, "the transport does not start");
    std::atomic<int> failed{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < each; i++) {
            std::string m = fmt("m%d.%d", t, i);
            if (mcp_transport_send(tr, m.data(), m.size()) != 0) failed++;
        }
    });
    for (auto& t : ts) t.join();
    PBT_CHECK(failed == 0, "%d of %d sends failed", failed.load(), threads * each);
    std::vector<std::string> want, got = seen.messages;
    for (int t = 0; t < threads; t++) for (int i = 0; i < each; i++) want.push_back(fmt("re m%d.%d", t, i));
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    PBT_CHECK(want == got, "%zu replies handed on for %zu messages, or not theirs", got.size(), want.size());
    mcp_transport_destroy(tr);
    sv.shut();
    c.nontrivial(threads * each > 3);
    c.note("%d threads, %d messages each", threads, each);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P26";
    o.rule = "requests: at least one response in several pieces handed on; events: at least one event of a stream in several pieces delivered; crowd: more than 3 messages";
    o.tests = {
        {"requests", requests, 1500, 20000, 60, 40, 3},
        {"events", events, 1200, 16000, 90, 40, 3},
        {"crowd", crowd, 200, 3000, 60, 20, 3},
    };
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
