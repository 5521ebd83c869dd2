// TECHNIQUE: property-based testing over loopback: generated histories of connections, simultaneous connections, disconnections of several kinds, echo exchanges, half-sent messages and restarts against a model of the live clients; oracle: acceptance, replies and the reported counts equal the model after every step
// NOTE: Run with the real libwebsockets and the transport's own event thread, under AddressSanitizer; after each step the counts must reach the model's values (within ten seconds) and a refused client must see its connection end.
#include "ws.hpp"
#include "mcp.hpp"
#include <memory>
extern "C" {
#include "mcp_websocket_transport.h"
#include "mcp_transport.h"
void lws_set_log_level(int level, void (*f)(int, const char*));
}
using namespace pbt;

static char* echo(void*, const void* data, size_t size, int* err) {
    if (err) *err = 0;
    return strdup(("echo:" + std::string((const char*)data, size)).c_str());
}
struct Peer {
    WsClient ws;
    std::string half; // rest of a message sent in part
    std::string text;
    size_t id;
};
struct Model {
    unsigned max = 0, peak = 0, total = 0, rejected = 0;
    std::vector<std::unique_ptr<Peer>> live;
};
static void settle(mcp_transport_t* tr, Model& m, const char* after) {
    uint32_t a = 0, p = 0, t = 0, r = 0;
    double up = 0, t0 = mono();
    unsigned want = (unsigned)m.live.size();
    for (;;) {
        PBT_CHECK(mcp_transport_websocket_server_get_stats(tr, &a, &p, &t, &r, &up) == 0, "no statistics");
        if (a == want && p == m.peak && t == m.total && r == m.rejected) return;
        if (mono() - t0 > 10) break;
        usleep(200);
    }
    fail("after %s: reported active %u peak %u total %u rejected %u; the history has %u %u %u %u (limit %u)", after, a, p, t, r, want, m.peak, m.total, m.rejected, m.max);
}
// whether the server keeps this connection: it answers a message, or it ends the connection
static bool kept(Peer& p, size_t id) {
    std::string probe = fmt("probe %zu", id);
    p.ws.ready(10);
    if (p.ws.upgraded && !p.ws.eof) p.ws.feed(WsClient::frame(1, true, probe, 0x11223344));
    bool ok = p.ws.until([&] { return !p.ws.messages.empty() || p.ws.eof || p.ws.refused; }, 12);
    if (!p.ws.messages.empty()) {
        PBT_CHECK(p.ws.messages.size() == 1 && p.ws.messages[0] == "echo:" + probe, "client %zu: wrong reply %s", id, esc(p.ws.messages[0]).c_str());
        p.ws.messages.clear();
        return true;
    }
    PBT_CHECK(ok || p.ws.eof || p.ws.refused, "client %zu is neither served nor refused", id);
    return false;
}
static void history(Case& c) {
    Model m;
    mcp_websocket_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    m.max = (unsigned)c.pick({1u, 2u, 3u, 4u, 6u, 31u, 32u, 33u, 65u});
    cfg.max_clients = m.max;
    cfg.buffer_pool_size = 4;
    cfg.segment_count = c.pick({0u, 1u, 3u});
    std::string host = own_host();
    static unsigned serial = 0;
    mcp_transport_t* tr = nullptr;
    for (int t = 0; t < 50 && !tr; t++) {
        cfg.host = host.c_str();
        cfg.port = (uint16_t)(22000 + serial++ % 9000);
        cfg.path = "/ws";
        tr = mcp_transport_websocket_server_create(&cfg);
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, echo, nullptr, nullptr) != 0) { mcp_transport_destroy(tr); tr = nullptr; }
    }
    PBT_CHECK(tr != nullptr, "the transport does not start");
    struct Close { mcp_transport_t*& t; ~Close() { mcp_transport_destroy(t); } } closer{tr};
    size_t next = 0, steps = 3 + c.draw(16), refusals = 0, closes = 0, reuse = 0;
    for (size_t s = 0; s < steps; s++) {
        const char* what = "";
        std::string ev;
        switch (c.weighted({6u, 4u, 5u, 4u, 2u, 2u, 1u, 1u})) {
        case 0: { // one connection
            what = "a connection";
            auto p = std::make_unique<Peer>();
            p->id = next++;
            p->ws.open(host, cfg.port);
            bool ok = kept(*p, p->id), want = m.live.size() < m.max;
            PBT_CHECK(ok == want, "connection %zu was %s with %zu of %u clients live", p->id, ok ? "served" : "refused", m.live.size(), m.max);
            if (ok) { m.live.push_back(std::move(p)); m.total++; reuse += closes > 0; }
            else { m.rejected++; refusals++; c.label("refused"); }
            ev = ok ? "connect" : "refused";
            break;
        }
        case 1: { // several at once
            what = "simultaneous connections";
            size_t n = m.max > 6 && c.chance(1, 2) ? m.max - m.live.size() + c.draw(3) : 2 + c.draw(5), got = 0, room = m.max - m.live.size();
            std::vector<std::unique_ptr<Peer>> ps;
            for (size_t i = 0; i < n; i++) {
                ps.push_back(std::make_unique<Peer>());
                ps.back()->id = next++;
                ps.back()->ws.open(host, cfg.port);
            }
            for (auto& p : ps) if (kept(*p, p->id)) { got++; m.live.push_back(std::move(p)); }
            PBT_CHECK(got == std::min(n, room), "%zu of %zu simultaneous connections were served with room for %zu of %u", got, n, room, m.max);
            m.total += (unsigned)got;
            m.rejected += (unsigned)(n - got);
            refusals += n - got;
            if (n > got) c.label("refused");
            c.label("simultaneous");
            ev = fmt("connect %zu at once", n);
            break;
        }
        case 2: { // disconnections, several kinds
            what = "disconnections";
            size_t n = m.live.empty() ? 0 : 1 + c.draw(std::min<size_t>(m.live.size(), c.chance(1, 6) ? 100 : 4));
            for (size_t i = 0; i < n; i++) {
                size_t q = c.draw(m.live.size());
                Peer& p = *m.live[q];
                switch (c.draw(4)) {
                case 0: p.ws.close_now(); break;
                case 1: p.ws.close_now(true); c.label("reset"); break;
                case 2: p.ws.feed(WsClient::frame(8, true, std::string("\x03\xe8", 2), 5)); p.ws.until([&] { return p.ws.eof; }, 5); p.ws.close_now(); c.label("close frame"); break;
                default: p.ws.feed(WsClient::frame(1, false, "never finished", 9)); p.ws.close_now(); c.label("left in a message"); break;
                }
                m.live.erase(m.live.begin() + (long)q);
                closes++;
            }
            ev = fmt("leave %zu", n);
            break;
        }
        case 3: case 4: { // exchange: part of a message now, the rest later
            what = "messages";
            for (auto& p : m.live) {
                if (!c.chance(1, m.live.size() > 6 ? 4 : 2)) continue;
                if (p->half.empty()) {
                    p->text = fmt("%zu.%zu ", p->id, s) + std::string(c.chance(1, 4) ? 5000 + c.draw(3000) : c.draw(60), (char)('a' + p->id % 26));
                    size_t cut = 1 + c.draw(p->text.size() - 1);
                    p->half = p->text.substr(cut);
                    PBT_CHECK(p->ws.feed(WsClient::frame(1, false, p->text.substr(0, cut), 77)), "live client %zu was disconnected", p->id);
                } else {
                    PBT_CHECK(p->ws.feed(WsClient::frame(0, true, p->half, 78)), "live client %zu was disconnected", p->id);
                    p->half.clear();
                    p->ws.until([&] { return !p->ws.messages.empty(); }, 12);
                    PBT_CHECK(p->ws.messages.size() == 1 && p->ws.messages[0] == "echo:" + p->text, "client %zu: %s", p->id, p->ws.messages.empty() ? "no reply" : "wrong reply");
                    p->ws.messages.clear();
                    c.label("exchange");
                }
            }
            ev = "messages";
            break;
        }
        case 5: { // connections that never become WebSocket clients
            what = "a connection without an upgrade";
            if (m.live.size() >= m.max) { ev = "-"; break; }
            int fd = dial(host, cfg.port);
            PBT_CHECK(fd >= 0, "could not connect");
            if (c.flip()) { const char* rq = "GET /ws HTTP/1.1\r\nHos"; if (send(fd, rq, strlen(rq), MSG_NOSIGNAL) < 0) {} }
            usleep(500);
            close(fd);
            c.label("no upgrade");
            ev = "no upgrade";
            break;
        }
        case 6: { // restart
            what = "a restart";
            PBT_CHECK(mcp_transport_stop(tr) == 0, "stop fails");
            for (auto& p : m.live) PBT_CHECK(p->ws.until([&] { return p->ws.eof; }, 10) || p->ws.eof, "client %zu still connected after stop", p->id);
            m.live.clear();
            uint32_t a = 1;
            mcp_transport_websocket_server_get_stats(tr, &a, nullptr, nullptr, nullptr, nullptr);
            PBT_CHECK(a == 0, "%u clients reported after stop", a);
            PBT_CHECK(mcp_transport_start(tr, echo, nullptr, nullptr) == 0, "restart fails");
            m.peak = m.total = m.rejected = 0;
            c.label("restart");
            ev = "restart";
            break;
        }
        default: { // everyone leaves
            what = "everyone leaving";
            closes += m.live.size();
            m.live.clear();
            ev = "all leave";
        }
        }
        if (m.live.size() > m.peak) m.peak = (unsigned)m.live.size();
        settle(tr, m, what);
        for (auto& p : m.live) { p->ws.pump(); PBT_CHECK(!p->ws.eof, "after %s: live client %zu was disconnected", what, p->id); }
        c.note("%s; ", ev.c_str());
    }
    c.nontrivial(refusals && closes && m.total >= 2);
    c.note("(limit %u)", m.max);
    (void)reuse;
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P18";
    o.rule = "at least one refused connection, one disconnection and two accepted connections";
    o.assumptions = {"a connection counts once its upgrade is complete", "counts start at zero when the transport is started", "limits up to 65 clients"};
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    o.tests = {{"history", history, 900, 10000, 120, 60, 10}};
    return run(argc, argv, o);
}
