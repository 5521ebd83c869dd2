// TECHNIQUE: property-based testing over loopback: a raw WebSocket client sends generated text messages in generated fragments, with control frames between them and generated TCP segmentation, from interleaved clients and with generated buffer settings; oracle: exact messages delivered and exact replies received per client
// NOTE: Run with the real libwebsockets and the transport's own event thread, under AddressSanitizer. Messages are valid UTF-8 as the protocol demands. A four-byte length before a message, as the bundled client sends it, is dropped by the server.
#include "ws.hpp"
#include "mcp.hpp"
#include "jval.hpp"
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
extern "C" {
#include "mcp_websocket_transport.h"
#include "mcp_transport.h"
void lws_set_log_level(int level, void (*f)(int, const char*));
}
using namespace pbt;

struct Want { std::string text, reply; bool has_reply; };
struct Conn {
    WsClient ws;
    std::vector<Want> want;
    std::vector<std::string> chunks; // bytes to send, in pieces
    size_t at = 0, delivered = 0, pings = 0;
    int end = 0; // 0 stays; 1 leaves in the middle of a message
};
struct World {
    std::mutex m;
    std::vector<Conn> conns;
    std::string wrong;
};
static World* g_w;
static char* on_message(void*, const void* data, size_t size, int* err) {
    World* w = g_w;
    if (err) *err = 0;
    std::lock_guard<std::mutex> g(w->m);
    auto bad = [&](const std::string& s) { if (w->wrong.empty()) w->wrong = s; return (char*)nullptr; };
    std::string s((const char*)data, size);
    if (((const char*)data)[size] != 0) bad("the message is not followed by a terminator");
    unsigned ci, seq;
    if (sscanf(s.c_str(), "%u/%u/", &ci, &seq) != 2 || ci >= w->conns.size() || seq >= w->conns[ci].want.size()) return bad(fmt("delivered a message of %zu bytes nobody sent: ", s.size()) + esc(s.substr(0, 80)));
    Conn& k = w->conns[ci];
    Want& x = k.want[seq];
    if (s != x.text) return bad(fmt("client %u message %u of %zu bytes was delivered as %zu bytes; first difference at %zu", ci, seq, x.text.size(), s.size(),
        (size_t)(std::mismatch(s.begin(), s.begin() + (long)std::min(s.size(), x.text.size()), x.text.begin()).first - s.begin())));
    if (seq != k.delivered) return bad(fmt("client %u: message %u delivered when %zu was due", ci, seq, k.delivered));
    k.delivered++;
    return x.has_reply ? strdup(x.reply.c_str()) : nullptr;
}
static std::string text(Case& c, size_t n) {
    std::string s;
    unsigned x = (unsigned)c.draw(9000);
    bool wide = c.chance(1, 3);
    for (size_t i = 0; s.size() < n; i++) {
        if (wide && i % 5 == 0) s += (i % 2) ? "\xc3\xa4" : "\xe2\x82\xac";
        else s += (char)(32 + (x + i * 7 + i / 90) % 95);
    }
    return s;
}
static size_t length(Case& c) {
    switch (c.weighted({6u, 4u, 6u, 3u, 1u})) {
    case 0: return c.draw(120);
    case 1: return c.draw(4000);
    case 2: { // around the sizes of buffers
        size_t b = c.pick({(size_t)4096, (size_t)8192, (size_t)12288, (size_t)20480, (size_t)100, (size_t)6144});
        long d = (long)c.draw(9) - 4;
        return (size_t)std::max(0l, (long)b + d);
    }
    case 3: return c.draw(60000);
    default: return c.draw(600000);
    }
}
static void gen(Case& c, unsigned ci, Conn& k, size_t n) {
    std::string bytes;
    for (size_t i = 0; i < n; i++) {
        Want w;
        size_t len = length(c);
        std::string head = fmt("%u/%zu/", ci, i);
        w.text = head + text(c, len > head.size() ? len - head.size() : 0);
        w.has_reply = !c.chance(1, 8);
        if (w.has_reply) w.reply = fmt("re %u %zu ", ci, i) + text(c, c.chance(1, 6) ? length(c) : c.draw(200));
        std::string wire = w.text;
        if (c.chance(1, 6)) { // the bundled client's length prefix
            uint32_t L = (uint32_t)wire.size();
            std::string p;
            for (int b = 3; b >= 0; b--) p += (char)(L >> (8 * b));
            bool ascii = true;
            for (char ch : p) ascii &= (unsigned char)ch < 128;
            if (ascii) { wire = p + wire; c.label("length prefix"); }
        }
        bool cut = k.end == 1 && i + 1 == n;
        // fragments
        size_t parts = c.chance(1, 2) ? 1 : 2 + c.draw(6);
        std::vector<size_t> e;
        for (size_t q = 0; q + 1 < parts && wire.size() > 1; q++) e.push_back(1 + c.draw(wire.size() - 1));
        e.push_back(wire.size());
        std::sort(e.begin(), e.end());
        e.erase(std::unique(e.begin(), e.end()), e.end());
        if (c.chance(1, 8)) { // empty fragments: at the start, in the middle, at the end
            size_t x = c.pick({(size_t)0, e[c.draw(e.size())], wire.size()});
            e.insert(std::lower_bound(e.begin(), e.end(), x), x);
            c.label("empty fragment");
        }
        size_t at = 0;
        for (size_t q = 0; q < e.size(); q++) {
            std::string f = WsClient::frame(q ? 0 : 1, q + 1 == e.size(), wire.substr(at, e[q] - at), (uint32_t)c.draw(1u << 30));
            at = e[q];
            if (cut && q + 1 == e.size()) { f.resize(c.draw(f.size())); bytes += f; break; }
            bytes += f;
            if (c.chance(1, 6)) { bytes += WsClient::frame(9, true, std::string(c.draw(20), 'p'), 7); k.pings++; c.label("ping"); }
        }
        if (e.size() > 1) c.label("fragmented");
        if (w.text.size() > 4096) c.label("over 4096 bytes");
        if (!cut) k.want.push_back(w);
    }
    size_t pieces = 1 + c.small(0, 10), at = 0;
    std::vector<size_t> e;
    for (size_t q = 0; q + 1 < pieces && bytes.size() > 1; q++) e.push_back(1 + c.draw(bytes.size() - 1));
    e.push_back(bytes.size());
    std::sort(e.begin(), e.end());
    for (size_t x : e) if (x > at) { k.chunks.push_back(bytes.substr(at, x - at)); at = x; }
}
static mcp_transport_t* start(mcp_websocket_config_t& cfg, std::string& host) {
    static unsigned serial = 0;
    host = own_host();
    for (int t = 0; t < 50; t++) {
        cfg.host = host.c_str();
        cfg.port = (uint16_t)(22000 + serial++ % 9000);
        cfg.path = "/ws";
        mcp_transport_t* tr = mcp_transport_websocket_server_create(&cfg);
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, on_message, nullptr, nullptr) == 0) return tr;
        mcp_transport_destroy(tr);
    }
    fail("the transport does not start");
    return nullptr;
}
static void messages(Case& c) {
    World w;
    g_w = &w;
    mcp_websocket_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.buffer_size = c.pick({0u, 4096u, 4096u, 8192u, 12288u, 5000u, 100u, 65536u});
    cfg.buffer_pool_size = c.pick({0u, 1u, 1u, 2u, 3u});
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    struct Close { mcp_transport_t*& t; World& w; ~Close() { if (t) mcp_transport_destroy(t); } } closer{tr, w};
    size_t rounds = 1 + c.draw(2), pieces = 0, total = 0, big = 0;
    for (size_t r = 0; r < rounds; r++) {
        size_t nc = 1 + c.draw(4);
        { std::lock_guard<std::mutex> g(w.m); w.conns.clear(); w.conns.resize(nc); }
        for (size_t i = 0; i < nc; i++) {
            Conn& k = w.conns[i];
            k.end = c.chance(1, 6);
            if (k.end) c.label("leaves in the middle of a message");
            gen(c, (unsigned)i, k, c.small(0, 5) + (k.end ? 1 : 0));
            total += k.want.size();
            for (auto& x : k.want) big += x.text.size() > 4096;
            k.ws.open(host, cfg.port);
            PBT_CHECK(k.ws.ready(12), "client %zu of %zu was not accepted", i, nc);
        }
        for (;;) {
            std::vector<size_t> live;
            for (size_t i = 0; i < nc; i++) if (w.conns[i].at < w.conns[i].chunks.size()) live.push_back(i);
            if (live.empty()) break;
            size_t ki = live[c.draw(live.size())];
            Conn& k = w.conns[ki];
            if (!k.ws.feed(k.chunks[k.at++])) {
                std::lock_guard<std::mutex> g(w.m);
                PBT_CHECK(w.wrong.empty(), "%s", w.wrong.c_str());
                fail("client %zu: the server closed the connection or stopped reading (%zu of %zu messages delivered)", ki, k.delivered, k.want.size());
            }
            pieces++;
            if (c.chance(1, 4)) for (auto& o : w.conns) o.ws.pump();
            if (c.chance(1, 10)) usleep(200);
        }
        for (size_t i = 0; i < nc; i++) {
            Conn& k = w.conns[i];
            size_t want = 0;
            for (auto& x : k.want) want += x.has_reply;
            bool ok = k.ws.until([&] { std::lock_guard<std::mutex> g(w.m); return !w.wrong.empty() || (k.delivered == k.want.size() && k.ws.messages.size() >= want && k.ws.pongs >= (k.pings ? 1u : 0u)); }, 12);
            std::lock_guard<std::mutex> g(w.m);
            PBT_CHECK(w.wrong.empty(), "%s", w.wrong.c_str());
            PBT_CHECK(ok, "client %zu: %zu of %zu messages delivered, %zu of %zu replies received, connection %s", i, k.delivered, k.want.size(), k.ws.messages.size(), want, k.ws.eof ? "closed" : "open");
            std::vector<std::string> exp;
            for (auto& x : k.want) if (x.has_reply) exp.push_back(x.reply);
            for (size_t q = 0; q < std::min(exp.size(), k.ws.messages.size()); q++)
                PBT_CHECK(exp[q] == k.ws.messages[q], "client %zu: reply %zu is %zu bytes %s instead of %zu bytes %s", i, q, k.ws.messages[q].size(), esc(k.ws.messages[q].substr(0, 40)).c_str(), exp[q].size(), esc(exp[q].substr(0, 40)).c_str());
            PBT_CHECK(exp.size() == k.ws.messages.size() && !k.ws.odd, "client %zu received %zu messages instead of %zu", i, k.ws.messages.size(), exp.size());
            k.ws.close_now(k.end == 1);
        }
    }
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    tr = nullptr;
    PBT_CHECK(w.wrong.empty(), "%s", w.wrong.c_str());
    c.nontrivial(total >= 2 && (big || pieces >= 4));
    c.note("%zu messages, %zu over 4096 bytes, pool of %u x %u", total, big, cfg.buffer_pool_size, cfg.buffer_size);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P17";
    o.rule = "two or more messages, one of them over 4096 bytes or four or more pieces of input";
    o.assumptions = {"messages are non-empty valid UTF-8 text up to 600 kB", "no TLS"};
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    o.tests = {{"messages", messages, 1600, 20000, 60, 100, 10}};
    return run(argc, argv, o);
}
