// TECHNIQUE: stateful property-based testing over real loopback connections: generated request scripts (POST bodies of any size and splitting, keep-alive, requests with no reply, failing handlers, wrong paths and methods) on several connections at once, and generated histories of event streams that connect, drop and resume while events are sent; oracle: reference list of handler calls, replies and events
// NOTE: Bodies without NUL bytes (the handler interface passes text). A stream counts as connected once its connection event has arrived. Resuming is checked with an id this server sent and with enough capacity or an id no longer retained (then everything retained comes).
#include "tidy.hpp"
#include "pbt.hpp"
#include "mcp.hpp"
#include "http.hpp"
#include "sse.hpp"
#include <algorithm>
#include <mutex>
#include <thread>
extern "C" {
#include "mcp_sthttp_transport.h"
}
#include <libwebsockets.h>
using namespace pbt;

struct World {
    std::mutex m;
    std::vector<std::string> calls;
    std::map<std::string, std::pair<int, std::string>> plan; // body -> kind, reply
};
static World* g_w;
enum { REPLY, NOTHING, ERROR };

static char* on_message(void*, const void* data, size_t size, int* err) {
    std::string s((const char*)data, size);
    std::lock_guard<std::mutex> l(g_w->m);
    g_w->calls.push_back(s);
    *err = 0;
    auto it = g_w->plan.find(s);
    if (it == g_w->plan.end()) return strdup("UNPLANNED");
    if (it->second.first == NOTHING) return nullptr;
    if (it->second.first == ERROR) { *err = -32603; return nullptr; }
    return strdup(it->second.second.c_str());
}
static mcp_transport_t* start(mcp_sthttp_config_t& cfg, std::string& host) {
    static unsigned serial = 0;
    host = own_host();
    for (int t = 0; t < 50; t++) {
        cfg.host = host.c_str();
        cfg.port = (uint16_t)(22000 + serial++ % 9000);
        mcp_transport_t* tr = mcp_transport_sthttp_create(&cfg);
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, on_message, nullptr, nullptr) == 0) return tr;
        mcp_transport_destroy(tr);
    }
    fail("the transport does not start");
    return nullptr;
}
static std::string show(const std::string& s) { return s.size() > 80 ? esc(s.substr(0, 60)) + fmt("...(%zu bytes)", s.size()) : esc(s); }

struct Rq { std::string bytes, body, want; int status; bool any_body = false, handled = false; std::string header, value; };

static std::string gen_text(Case& c, size_t max) {
    size_t n;
    switch (c.weighted({5, 3, 2})) {
    case 0: n = c.draw(64); break;
    case 1: { static const size_t near[] = {500, 1000, 1023, 1024, 1025, 2048, 4000, 4095, 4096, 4097, 8192}; n = near[c.draw(11)] + c.draw(3); break; }
    default: n = c.draw(max);
    }
    std::string s(n, 0);
    unsigned long long x = c.draw(1u << 30) + 1;
    bool wild = c.chance(1, 3);
    for (auto& ch : s) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        unsigned v = (unsigned)(x >> 40);
        ch = wild ? (char)(1 + v % 255) : (char)(32 + v % 95);
    }
    return s;
}
static Rq gen_request(Case& c, World& w, int conn, int k, bool legacy) {
    Rq r;
    std::string path = "/mcp";
    switch (c.weighted({12, 3, 2, 1, 1, 1, 1})) {
    default: case 0: r.status = 200; break;
    case 1: r.status = 202; break;
    case 2: r.status = 500; break;
    case 3: r.status = 404; path = "/other" + c.ident(0, 6); break;
    case 4: r.status = 405; break; // another method
    case 5: r.status = 400; break; // no body
    case 6: r.status = 404; path = "/mcp2"; break;
    }
    std::string extra;
    if (c.chance(1, 4)) extra += "X-Padding: " + std::string(c.draw(300), 'p') + "\r\n";
    if (c.chance(1, 3)) extra += c.flip() ? "Accept: application/json\r\n" : "Accept: application/json, text/event-stream\r\n";
    if (r.status <= 202 || r.status == 500 || (r.status == 404 && c.flip())) {
        r.body = fmt("{\"c\":%d,\"k\":%d,", conn, k) + gen_text(c, 70000);
        r.handled = r.status != 404;
        if (r.handled) {
            std::string reply = r.status == 200 ? fmt("reply to %d/%d ", conn, k) + gen_text(c, 120000) : "";
            w.plan[r.body] = {r.status == 200 ? REPLY : r.status == 202 ? NOTHING : ERROR, reply};
            r.want = reply;
            if (legacy && c.chance(1, 4)) path = "/call_tool";
            if (c.chance(1, 3)) {
                std::string sid;
                size_t n = c.chance(1, 3) ? c.range(90, 127) : c.range(1, 40);
                while (sid.size() < n) sid += (char)(0x21 + c.draw(0x7f - 0x21));
                extra += "Mcp-Session-Id: " + sid + "\r\n";
                if (r.status == 200) { r.header = "mcp-session-id"; r.value = sid; }
            }
        } else r.any_body = true;
        if (r.status == 500) r.any_body = true;
        r.bytes = fmt("POST %s HTTP/1.1\r\nHost: x\r\n%sContent-Length: %zu\r\n\r\n", path.c_str(), extra.c_str(), r.body.size()) + r.body;
    } else {
        r.any_body = true;
        if (r.status == 405) { r.status = 0; r.bytes = fmt("%s /mcp HTTP/1.1\r\nHost: x\r\n%s\r\n", c.flip() ? "DELETE" : "OPTIONS", extra.c_str()); }
        else if (r.status == 400) r.bytes = fmt("POST /mcp HTTP/1.1\r\nHost: x\r\n%sContent-Length: 0\r\n\r\n", extra.c_str());
        else r.bytes = fmt("GET %s HTTP/1.1\r\nHost: x\r\n%s\r\n", path.c_str(), extra.c_str());
    }
    return r;
}

static void posts(Case& c) {
    World w;
    g_w = &w;
    mcp_sthttp_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_sessions = c.flip();
    cfg.enable_cors = c.flip();
    cfg.enable_legacy_endpoints = c.flip();
    std::string host;
    int conns = (int)c.range(1, 4);
    std::vector<std::vector<Rq>> script((size_t)conns);
    std::vector<std::vector<size_t>> cuts_of;
    size_t total = 0, split = 0;
    std::vector<std::string> want_calls;
    std::vector<std::vector<std::vector<std::string>>> pieces((size_t)conns);
    std::vector<std::vector<unsigned>> pauses((size_t)conns);
    for (int i = 0; i < conns; i++) {
        int n = (int)c.range(1, 5);
        for (int k = 0; k < n; k++) {
            Rq r = gen_request(c, w, i, k, cfg.enable_legacy_endpoints);
            if (r.handled) want_calls.push_back(r.body);
            auto lens = c.cuts(r.bytes.size(), c.chance(1, 2) ? 1 : 6);
            std::vector<std::string> ps;
            size_t at = 0;
            for (size_t l : lens) { ps.push_back(r.bytes.substr(at, l)); at += l; }
            if (at < r.bytes.size()) ps.push_back(r.bytes.substr(at));
            if (ps.size() > 1) split++;
            pauses[(size_t)i].push_back((unsigned)c.draw(4));
            pieces[(size_t)i].push_back(ps);
            script[(size_t)i].push_back(r);
            total++;
        }
    }
    mcp_transport_t* tr = start(cfg, host);
    std::vector<std::thread> ts;
    std::vector<std::string> bad((size_t)conns);
    for (int i = 0; i < conns; i++) ts.emplace_back([&, i] {
        HttpClient h;
        auto& b = bad[(size_t)i];
        if (!h.open(host, cfg.port)) { b = "cannot connect"; return; }
        for (size_t k = 0; k < script[(size_t)i].size(); k++) {
            auto& r = script[(size_t)i][k];
            std::string at = fmt("connection %d, request %zu %s: ", i, k, show(r.bytes).c_str());
            if (h.fd < 0 && !h.open(host, cfg.port)) { b = at + "cannot connect again"; return; }
            bool sent = true;
            for (auto& p : pieces[(size_t)i][k]) {
                if (!h.feed(p)) { sent = false; break; }
                if (pieces[(size_t)i][k].size() > 1) usleep(pauses[(size_t)i][k] * 4000);
            }
            HttpReply got;
            std::string how;
            if (!h.reply(got, how)) {
                b = at + (sent ? "" : "(not all could be sent) ") + how;
                return;
            }
            if (r.status ? got.status != r.status : (got.status < 200 || got.status > 499)) { b = at + fmt("status %d, expected %d", got.status, r.status); return; }
            if (!r.any_body && got.body != r.want) { b = at + fmt("reply %s, expected %s", show(got.body).c_str(), show(r.want).c_str()); return; }
            if (!r.header.empty() && got.get(r.header) != r.value) { b = at + fmt("header %s is %s, expected %s", r.header.c_str(), esc(got.get(r.header)).c_str(), esc(r.value).c_str()); return; }
            if (!h.in.empty()) { b = at + "more than one response: " + show(h.in); return; }
            // a request whose body nobody wanted may cost the connection
            if (r.status == 404 && !r.body.empty()) h.close_now();
        }
    });
    for (auto& t : ts) t.join();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    for (auto& b : bad) PBT_CHECK(b.empty(), "%s", b.c_str());
    std::vector<std::string> calls = w.calls;
    std::sort(calls.begin(), calls.end());
    std::sort(want_calls.begin(), want_calls.end());
    if (calls != want_calls) {
        std::string d;
        for (auto& s : calls) if (!std::count(want_calls.begin(), want_calls.end(), s)) d += " extra " + show(s);
        for (auto& s : want_calls) if (!std::count(calls.begin(), calls.end(), s)) d += " missing " + show(s);
        fail("%zu handler calls for %zu bodies:%s", calls.size(), want_calls.size(), d.c_str());
    }
    c.nontrivial(split && total > 1);
    if (conns > 1) c.label("connections at once");
    if (split) c.label("split request");
    c.note("%d connections, %zu requests, %zu of them split, first %s", conns, total, split, show(script[0][0].bytes).c_str());
}

struct Stream {
    HttpClient h;
    bool connected = false;
    std::string text;
    long from = 0;       // the first event it must see
    long last = 0;       // the last id it saw
    size_t seen = 0;
    std::string type0;
};
struct Sent { long id; std::string data; };

// reads what has come; "" or what is wrong with it
static std::string take(Stream& s, const std::vector<Sent>& sent, long& next) {
    s.h.pump();
    s.text += s.h.in;
    s.h.in.clear();
    std::string rest;
    auto ev = sse_read(s.text, &rest);
    s.text = rest;
    for (auto& e : ev) {
        if (e.type == "connection") { s.connected = true; continue; }
        if (e.type != "message") return fmt("an event of type %s", esc(e.type).c_str());
        if (next > (long)sent.size()) return "an event that was not sent: " + show(e.data);
        auto& w = sent[(size_t)next - 1];
        if (e.data != w.data) return fmt("event %ld carries %s, expected %s", next, show(e.data).c_str(), show(w.data).c_str());
        if (!e.has_id) return fmt("event %ld has no id", next);
        long id = atol(e.id.c_str());
        if (id != next) return fmt("event number %ld has id %s", next, e.id.c_str());
        s.last = id;
        next++;
        s.seen++;
    }
    return "";
}
static void streams(Case& c) {
    World w;
    g_w = &w;
    mcp_sthttp_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_sse_resumability = true;
    cfg.max_stored_events = (uint32_t)(c.chance(1, 2) ? c.range(1, 6) : c.range(20, 60));
    cfg.max_sse_clients = (uint32_t)c.range(1, 3);
    cfg.enable_cors = c.flip();
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    struct Slot { std::unique_ptr<Stream> s; long next = 1; long last = 0; };
    std::vector<Slot> slots((size_t)c.range(1, 5));
    std::vector<Sent> sent;
    std::string trail = fmt("%u events retained", cfg.max_stored_events);
    int steps = 4 + (int)c.size() / 8;
    size_t resumed = 0, delivered = 0;
    auto wait_all = [&]() {
        for (size_t i = 0; i < slots.size(); i++) {
            if (!slots[i].s) continue;
            double t0 = mono();
            std::string bad;
            while ((slots[i].next <= (long)sent.size() || !slots[i].s->connected) && bad.empty() && mono() - t0 < 15 && !slots[i].s->h.eof) {
                bad = take(*slots[i].s, sent, slots[i].next);
                if (slots[i].next <= (long)sent.size() || !slots[i].s->connected) { struct pollfd p = {slots[i].s->h.fd, POLLIN, 0}; poll(&p, 1, 5); }
            }
            PBT_CHECK(bad.empty(), "%s; stream %zu receives %s", trail.c_str(), i, bad.c_str());
            PBT_CHECK(!slots[i].s->h.eof || slots[i].next > (long)sent.size(), "%s; stream %zu is closed by the server", trail.c_str(), i);
            PBT_CHECK(slots[i].next > (long)sent.size(), "%s; stream %zu does not receive event %ld %s", trail.c_str(), i, slots[i].next, show(sent[(size_t)slots[i].next - 1].data).c_str());
            slots[i].last = (long)sent.size();
        }
    };
    for (int st = 0; st < steps; st++) {
        size_t i = c.draw(slots.size());
        auto& sl = slots[i];
        switch (c.weighted({5, 4, 2})) {
        case 0: {
            int n = c.chance(1, 4) ? (int)c.range(2, 12) : 1;
            for (int k = 0; k < n; k++) {
                std::string d = fmt("e%zu ", sent.size() + 1);
                switch (c.draw(4)) {
                case 0: d += "two\nlines"; break;
                case 1: for (char ch : gen_text(c, 9000)) if (ch != '\r') d += ch; break;
                default: d += c.printable(30);
                }
                sent.push_back({(long)sent.size() + 1, d});
                trail += fmt("; send %s", show(d).c_str());
                PBT_CHECK(mcp_transport_sthttp_send_with_session(tr, d.data(), d.size(), nullptr) == 0, "%s: sending fails", trail.c_str());
                if (c.chance(1, 2)) wait_all();
            }
            break;
        }
        case 1: {
            if (sl.s) break;
            sl.s.reset(new Stream);
            std::string id;
            bool resume = c.chance(2, 3) && (sl.last > 0 || (!sent.empty() && c.flip()));
            long last = sl.last > 0 ? sl.last : resume ? (long)c.range(1, sent.size()) : 0;
            if (resume && c.chance(1, 8)) last = 0, id = "no-such-id";
            else if (resume) id = fmt("%ld", last);
            long oldest = std::max(1L, (long)sent.size() - (long)cfg.max_stored_events + 1);
            sl.next = !resume ? (long)sent.size() + 1 : last >= oldest ? last + 1 : oldest;
            trail += fmt("; stream %zu connects%s%s", i, resume ? " after " : "", id.c_str());
            PBT_CHECK(sl.s->h.open(host, cfg.port), "%s: no connection", trail.c_str());
            std::string rq = fmt("GET /mcp HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n%s\r\n", resume ? ("Last-Event-ID: " + id + "\r\n").c_str() : "");
            sl.s->h.feed(rq);
            HttpReply r;
            PBT_CHECK(sl.s->h.wait_head(r) && r.status == 200, "%s: status %d", trail.c_str(), r.status);
            PBT_CHECK(r.get("content-type").find("text/event-stream") == 0, "%s: content type %s", trail.c_str(), esc(r.get("content-type")).c_str());
            long before = sl.next;
            wait_all();
            PBT_CHECK(sl.s->connected, "%s: no connection event", trail.c_str());
            if (resume && sl.next > before) resumed++;
            break;
        }
        default:
            if (!sl.s) break;
            wait_all();
            sl.s->h.close_now(c.flip());
            sl.s.reset();
            trail += fmt("; stream %zu drops", i);
            if (c.flip()) usleep(30000);
        }
    }
    wait_all();
    for (auto& sl : slots) if (sl.s) delivered += sl.s->seen;
    usleep(5000);
    for (size_t i = 0; i < slots.size(); i++) if (slots[i].s) {
        std::string bad = take(*slots[i].s, sent, slots[i].next);
        PBT_CHECK(bad.empty(), "%s; stream %zu receives %s", trail.c_str(), i, bad.c_str());
    }
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(delivered > 1);
    if (resumed) c.label("resumed with events missed");
    if (sent.size() > cfg.max_stored_events) c.label("more sent than retained");
    c.note("%s", trail.c_str());
}

// streams that come while events are being sent see a gapless end of the sequence
static void crowd(Case& c) {
    World w;
    g_w = &w;
    mcp_sthttp_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_sse_resumability = true;
    cfg.max_stored_events = 100000;
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    int n = (int)c.range(10, 40), readers = (int)c.range(1, 4), senders = (int)c.range(1, 3);
    unsigned gap = (unsigned)c.draw(3) * 100;
    size_t big = c.chance(1, 2) ? c.range(2000, 12000) : 10;
    bool slow = c.flip();
    std::string filler(big, 'f');
    std::atomic<bool> done{false};
    std::vector<std::string> bad((size_t)readers);
    std::vector<std::thread> ts, ss;
    auto reader = [&](int i) {
        auto& b = bad[(size_t)i];
        long last = 0;
        for (int round = 0; round < 3 && b.empty(); round++) {
            HttpClient h;
            if (!h.open(host, cfg.port)) { b = "cannot connect"; return; }
            h.feed(fmt("GET /mcp HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n%s\r\n", last ? fmt("Last-Event-ID: %ld\r\n", last).c_str() : ""));
            HttpReply r;
            if (!h.wait_head(r) || r.status != 200) { b = fmt("status %d", r.status); return; }
            std::string text;
            double t0 = mono();
            size_t got = 0, quota = round < 2 ? 10 : (size_t)-1;
            long total = (long)n * senders;
            while (got < quota && last < total) {
                if (mono() - t0 > 25) { if (round < 2 && last == 0) break; b = fmt("event %ld does not come (%zu received on this stream)", last + 1, got); return; }
                if (h.eof) { b = fmt("the stream is closed by the server after event %ld", last); return; }
                struct pollfd p = {h.fd, POLLIN, 0};
                poll(&p, 1, 10);
                if (slow) usleep(3000);
                h.pump();
                text += h.in;
                h.in.clear();
                std::string rest;
                for (auto& e : sse_read(text, &rest)) {
                    if (e.type == "connection") continue;
                    long id = atol(e.id.c_str());
                    int s = -1, k = -1;
                    size_t len = 0;
                    if (sscanf(e.data.c_str(), "s%d:%d:%zu:", &s, &k, &len) != 3 || e.data.size() < len || e.data.substr(e.data.size() - len) != filler) { b = fmt("event %ld is damaged: %s", id, show(e.data).c_str()); return; }
                    if (last && id != last + 1) { b = fmt("event %ld follows event %ld", id, last); return; }
                    last = id;
                    got++;
                    t0 = mono();
                }
                text = rest;
                if (done && last == 0 && mono() - t0 > 0.2) break; // came after the last event
            }
        }
    };
    for (int i = 0; i < readers; i++) ts.emplace_back(reader, i);
    std::atomic<int> failed{0};
    for (int s = 0; s < senders; s++) ss.emplace_back([&, s] {
        for (int k = 0; k < n; k++) {
            std::string d = fmt("s%d:%d:%zu:", s, k, big) + filler;
            if (mcp_transport_sthttp_send_with_session(tr, d.data(), d.size(), nullptr) != 0) failed++;
            usleep(gap);
        }
    });
    for (auto& t : ss) t.join();
    done = true;
    for (auto& t : ts) t.join();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    std::string what = fmt("%d senders of %d events of %zu bytes, %d %s streams", senders, n, big, readers, slow ? "slow" : "quick");
    for (auto& b : bad) PBT_CHECK(b.empty(), "%s: %s", what.c_str(), b.c_str());
    PBT_CHECK(failed == 0, "%s: sending failed %d times", what.c_str(), failed.load());
    c.nontrivial(true);
    c.note("%s", what.c_str());
}

// streams stay open and are served for longer than any request timeout
static void patience(Case& c) {
    World w;
    g_w = &w;
    mcp_sthttp_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_sse_resumability = c.flip();
    cfg.send_heartbeats = c.flip();
    cfg.heartbeat_interval_ms = 1000;
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    std::vector<std::unique_ptr<HttpClient>> hs;
    for (int i = 0; i < 3; i++) {
        hs.emplace_back(new HttpClient);
        PBT_CHECK(hs.back()->open(host, cfg.port), "no connection");
        hs.back()->feed("GET /mcp HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n\r\n");
        PBT_CHECK(hs.back()->until([&] { return hs.back()->in.find("event: connection") != std::string::npos; }, 15), "no connection event");
    }
    std::vector<double> when = {0.1 * (double)c.range(0, 100), 17.0, 17.5 + 0.1 * (double)c.draw(10)};
    std::sort(when.begin(), when.end());
    double t0 = mono();
    for (size_t k = 0; k < when.size(); k++) {
        while (mono() - t0 < when[k]) { usleep(20000); for (auto& h : hs) h->pump(); }
        std::string d = fmt("late %zu", k);
        PBT_CHECK(mcp_transport_sthttp_send_with_session(tr, d.data(), d.size(), nullptr) == 0, "after %.1f s: sending to 3 streams fails", when[k]);
        for (size_t i = 0; i < hs.size(); i++)
            PBT_CHECK(hs[i]->until([&] { size_t n = 0; for (auto& e : sse_read(hs[i]->in)) if (e.type == "message") n++; return n == k + 1; }, 15),
                      "a stream open for %.1f s does not receive an event%s", when[k], hs[i]->eof ? ": it was closed by the server" : "");
    }
    for (auto& h : hs) h->close_now();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(true);
    c.note("events after %.1f, %.1f and %.1f s, heartbeats %d", when[0], when[1], when[2], cfg.send_heartbeats);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P40";
    o.rule = "several requests of which at least one is split; or streams that received more than one event";
    o.tests = {
        {"posts", tidy<posts>, 300, 4000, 60, 10, 5},
        {"streams", tidy<streams>, 250, 3000, 120, 10, 5},
        {"crowd", tidy<crowd>, 64, 600, 120, 4, 5},
        {"patience", patience, 8, 32, 120, 1, 2},
    };
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    return run(argc, argv, o);
}
