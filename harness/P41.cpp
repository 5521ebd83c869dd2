// P41: The TCP client transport carries whole messages both ways, across reconnections.
// TECHNIQUE: model-based sequences against a scripted peer on real sockets: senders in parallel, arbitrary segmentation, connection losses and outages; the streams seen by the peer and the messages seen by the callback are compared with what was sent
// NOTE: the time limits are only there to tell a transport that never recovers from one that does
#include <fcntl.h>
#include "mcp.hpp"
#include "tidy.hpp"
#include "ws.hpp"
#include <deque>
#include <mutex>
#include <poll.h>
extern "C" {
#include "mcp_transport.h"
#include "mcp_tcp_client_transport.h"
#include "mcp_types.h"
}
using namespace pbt;

static const double kWait = 20;
static std::string frame(const std::string& m) {
    uint32_t n = htonl((uint32_t)m.size());
    return std::string((const char*)&n, 4) + m;
}

struct Inbox { // what the client's callback saw
    std::mutex mu;
    std::vector<std::string> got;
    std::string broken;
    int errors = 0;
};
static char* on_message(void* ud, const void* data, size_t size, int* code) {
    Inbox* in = (Inbox*)ud;
    std::lock_guard<std::mutex> g(in->mu);
    if (((const char*)data)[size] != 0 && in->broken.empty()) in->broken = "a message is not terminated";
    in->got.emplace_back((const char*)data, size);
    if (code) *code = 0;
    return nullptr;
}
static void on_error(void* ud, int) {
    Inbox* in = (Inbox*)ud;
    std::lock_guard<std::mutex> g(in->mu);
    in->errors++;
}

struct Peer { // the server end, driven by the test
    std::string host;
    uint16_t port = 0;
    int lfd = -1, fd = -1;
    std::string in;
    std::deque<std::string> frames;
    bool eof = false;
    void open() {
        lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        struct sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        inet_pton(AF_INET, host.c_str(), &a.sin_addr);
        a.sin_port = htons(port);
        socklen_t n = sizeof a;
        if (bind(lfd, (struct sockaddr*)&a, n) != 0 || listen(lfd, 16) != 0) { perror("peer"); _exit(3); }
        getsockname(lfd, (struct sockaddr*)&a, &n);
        port = ntohs(a.sin_port);
    }
    void shut() { if (lfd >= 0) ::close(lfd); lfd = -1; }
    bool accept_one(double secs) {
        struct pollfd p = {lfd, POLLIN, 0};
        if (poll(&p, 1, (int)(secs * 1000)) <= 0) return false;
        int f = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
        if (f < 0) return false;
        if (fd >= 0) ::close(fd);
        fd = f;
        in.clear();
        frames.clear();
        eof = false;
        return true;
    }
    void drop(bool reset) {
        if (fd < 0) return;
        if (reset) {
            struct linger l = {1, 0};
            setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        }
        ::close(fd);
        fd = -1;
    }
    void pump(double secs) { // reads what is there, waiting for at least something
        struct pollfd p = {fd, POLLIN, 0};
        if (fd < 0 || poll(&p, 1, (int)(secs * 1000)) <= 0) return;
        char buf[65536];
        ssize_t r = recv(fd, buf, sizeof buf, MSG_DONTWAIT);
        if (r <= 0) { eof = true; return; }
        in.append(buf, (size_t)r);
        for (;;) {
            if (in.size() < 4) return;
            uint32_t n;
            memcpy(&n, in.data(), 4);
            n = ntohl(n);
            PBT_CHECK(n <= 1u << 21, "the peer reads a frame of %u bytes: the stream is out of step", n);
            if (in.size() < 4 + (size_t)n) return;
            frames.push_back(in.substr(4, n));
            in.erase(0, 4 + (size_t)n);
        }
    }
    bool next(std::string& m, double secs) {
        double end = mono() + secs;
        for (;;) {
            while (!frames.empty()) {
                m = frames.front();
                frames.pop_front();
                if (m.find("\"method\":\"ping\"") != std::string::npos && m.find("\"id\":0") != std::string::npos) continue; // the transport's own greeting
                return true;
            }
            if (eof || mono() >= end) return false;
            pump(std::min(0.2, end - mono() + 0.001));
        }
    }
    bool put(const std::string& s) {
        size_t o = 0;
        while (o < s.size()) {
            ssize_t r = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
            if (r <= 0) return false;
            o += (size_t)r;
        }
        return true;
    }
    ~Peer() { shut(); if (fd >= 0) ::close(fd); }
};

static int cl_send(mcp_transport_t* t, const std::string& m, unsigned how) {
    std::string f = frame(m);
    if (how == 0) return mcp_transport_send(t, f.data(), f.size());
    mcp_buffer_t b[3];
    size_t n = 0;
    uint32_t len = htonl((uint32_t)m.size());
    b[n].data = &len; b[n++].size = 4;
    if (how == 2 && m.size() > 1) {
        b[n].data = m.data(); b[n++].size = m.size() / 2;
        b[n].data = m.data() + m.size() / 2; b[n++].size = m.size() - m.size() / 2;
    } else {
        b[n].data = m.data(); b[n++].size = m.size();
    }
    return mcp_transport_sendv(t, b, n);
}
static std::string payload(Case& c, int serial) {
    size_t n = c.chance(1, 12) ? (size_t)c.range(1000, 200000) : (size_t)c.small(0, 60);
    std::string s = fmt("m%d:", serial);
    if (n > 300) { std::string u = c.text(40) + "."; while (s.size() < n) s += u; } else s += c.text(n);
    return s;
}

static void connected(mcp_transport_t* t, const char* what) {
    double end = mono() + kWait;
    while (mcp_tcp_client_get_connection_state(t) != MCP_CONNECTION_STATE_CONNECTED) {
        PBT_CHECK(mono() < end, "%s: the state stays at %d on a live connection", what, (int)mcp_tcp_client_get_connection_state(t));
        usleep(500);
    }
}

static void history_case(Case& c) {
    Peer peer;
    peer.host = own_host();
    peer.open();
    Inbox in;
    mcp_reconnect_config_t rc;
    memset(&rc, 0, sizeof rc);
    rc.enable_reconnect = !c.chance(1, 5);
    rc.max_reconnect_attempts = 0;
    rc.initial_reconnect_delay_ms = (uint32_t)c.small(1, 10);
    rc.max_reconnect_delay_ms = (uint32_t)c.small(1, 20);
    rc.backoff_factor = c.pick({1.0f, 1.5f, 2.0f});
    rc.randomize_delay = c.flip();
    const mcp_reconnect_config_t rc0 = rc;
    bool late = rc.enable_reconnect && c.chance(1, 6); // nobody listens at first
    if (late) peer.shut();
    mcp_transport_t* t = mcp_tcp_client_create_reconnect(peer.host.c_str(), peer.port, &rc);
    PBT_CHECK(t != nullptr, "no transport");
    struct Gone { mcp_transport_t* t; ~Gone() { if (t) mcp_transport_destroy(t); } } gone{t};
    c.note("%sreconnect, first delay %u ms%s", rc.enable_reconnect ? "" : "no ", rc.initial_reconnect_delay_ms, late ? ", the server is not up yet" : "");
    PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
    int serial = 0, losses = 0;
    size_t sent = 0, heard = 0;
    size_t expect = 0; // messages the callback must have seen
    std::vector<std::string> toclient;
    auto check_inbox = [&](bool wait) {
        double end = mono() + kWait;
        for (;;) {
            {
                std::lock_guard<std::mutex> g(in.mu);
                PBT_CHECK(in.broken.empty(), "%s", in.broken.c_str());
                PBT_CHECK(in.got.size() <= expect, "the callback saw %zu messages, %zu were sent; the last is %s", in.got.size(), expect, esc(in.got.back(), 80).c_str());
                for (size_t i = heard; i < in.got.size(); i++, heard++)
                    PBT_CHECK(in.got[i] == toclient[i], "message %zu reached the callback as %s instead of %s", i, esc(in.got[i], 100).c_str(), esc(toclient[i], 100).c_str());
                if (heard == expect || !wait) return;
            }
            PBT_CHECK(mono() < end, "the callback saw %zu of %zu messages", heard, expect);
            usleep(200);
        }
    };
    auto recover = [&](const char* what) { // until a message gets through
        double end = mono() + kWait;
        std::vector<std::string> probes;
        bool linked = peer.fd >= 0;
        for (;;) {
            PBT_CHECK(mono() < end, "%s: no message got through for %.0f s (%s)", what, kWait, linked ? "connected" : "never connected");
            if (peer.accept_one(linked ? 0 : 0.05)) linked = true;
            std::string m = fmt("p%d:", serial++) + c.text(40);
            if (cl_send(t, m, (unsigned)c.draw(3)) != 0) { usleep(2000); continue; }
            probes.push_back(m);
            if (!linked) continue;
            std::string g;
            size_t at = 0;
            while (peer.next(g, 0.25)) {
                while (at < probes.size() && probes[at] != g) at++;
                PBT_CHECK(at < probes.size(), "%s: the peer received %s, which was not sent (or not in this order)", what, esc(g, 100).c_str());
                at++;
                if (g == m) { connected(t, what); return; }
            }
        }
    };
    if (late) {
        usleep((useconds_t)c.draw(8000));
        if (c.flip()) { int r = cl_send(t, "x", 0); PBT_CHECK(r != 0, "a message was accepted while nobody listened"); }
        peer.open();
        recover("server came up late");
    } else {
        PBT_CHECK(peer.accept_one(kWait), "the client did not connect");
    }
    size_t n = (size_t)c.range(1, 10);
    bool alive = true;
    for (size_t i = 0; i < n && alive; i++) {
        switch (c.weighted({8, 4, 8, 6, 2})) {
        case 0: { // one sender
            size_t k = (size_t)c.range(1, 6);
            c.note("send %zu", k);
            for (size_t j = 0; j < k;) { // several messages in flight, but no more than the buffers hold
                std::vector<std::string> ms;
                size_t bytes = 0;
                for (; j < k && bytes < 1000; j++) {
                    ms.push_back(payload(c, serial++));
                    bytes += ms.back().size();
                    PBT_CHECK(cl_send(t, ms.back(), (unsigned)c.draw(3)) == 0, "send of %zu bytes refused on a live connection", ms.back().size());
                }
                for (auto& m : ms) {
                    std::string g;
                    PBT_CHECK(peer.next(g, kWait), "the peer is missing %s", esc(m, 80).c_str());
                    PBT_CHECK(g == m, "the peer received %s instead of %s", esc(g, 100).c_str(), esc(m, 100).c_str());
                }
            }
            sent += k;
            break;
        }
        case 1: { // several senders
            size_t th = (size_t)c.range(2, 4), k = (size_t)c.range(1, 8);
            std::vector<std::vector<std::string>> ms(th);
            std::vector<std::vector<unsigned>> how(th);
            for (size_t a = 0; a < th; a++) for (size_t b = 0; b < k; b++) { ms[a].push_back(fmt("t%zu-", a) + payload(c, serial++)); how[a].push_back((unsigned)c.draw(3)); }
            c.note("%zu senders of %zu", th, k);
            std::atomic<int> bad{0};
            std::vector<std::thread> ts;
            for (size_t a = 0; a < th; a++) ts.emplace_back([&, a] { for (size_t b = 0; b < k; b++) if (cl_send(t, ms[a][b], how[a][b]) != 0) bad++; });
            std::vector<size_t> at(th);
            std::string wrong;
            {
                for (size_t x = 0; x < th * k; x++) {
                    std::string g;
                    if (!peer.next(g, kWait)) { wrong = fmt("the peer received %zu of %zu messages", x, th * k); break; }
                    size_t a = g.size() > 1 && g[0] == 't' ? (size_t)(g[1] - '0') : 99;
                    if (a >= th || at[a] >= k || ms[a][at[a]] != g) { wrong = fmt("the peer received %s, not the next message of any sender", esc(g, 100).c_str()); break; }
                    at[a]++;
                }
            }
            PBT_CHECK(wrong.empty(), "%s", wrong.c_str());
            for (auto& x : ts) x.join();
            PBT_CHECK(bad == 0, "%d sends refused on a live connection", bad.load());
            sent += th * k;
            break;
        }
        case 2: { // the peer sends, in pieces
            size_t k = (size_t)c.range(1, 5);
            std::string all;
            for (size_t j = 0; j < k; j++) { toclient.push_back("s" + payload(c, serial++)); all += frame(toclient.back()); }
            expect += k;
            auto cuts = c.cuts(all.size(), 8);
            c.note("receive %zu in %zu pieces", k, cuts.size());
            size_t o = 0;
            int one = 1;
            setsockopt(peer.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            for (size_t len : cuts) {
                PBT_CHECK(peer.put(all.substr(o, len)), "the client closed the connection while it was being sent messages");
                o += len;
                if (c.chance(1, 4)) usleep((useconds_t)c.draw(400));
            }
            check_inbox(true);
            break;
        }
        case 4: { // stop and start again
            c.note("restart");
            double t0 = mono();
            PBT_CHECK(mcp_transport_stop(t) == 0, "stop failed");
            PBT_CHECK(mono() - t0 < kWait, "stopping took %.1f s", mono() - t0);
            PBT_CHECK(cl_send(t, "x", 0) != 0, "a stopped transport accepts messages");
            std::string g;
            PBT_CHECK(!peer.next(g, kWait) && peer.eof, "the connection stays open after the stop");
            rc.enable_reconnect = rc0.enable_reconnect;
            PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "starting again failed");
            PBT_CHECK(peer.accept_one(kWait), "the client did not connect again");
            { std::lock_guard<std::mutex> l(in.mu); in.errors = 0; }
            break;
        }
        default: { // loss
            bool cut = c.flip(), reset = c.flip(), outage = c.flip();
            if (cut) { std::string f = frame("never complete"); PBT_CHECK(peer.put(f.substr(0, (size_t)c.range(1, (long)f.size() - 1))), "the client closed the connection"); }
            c.note("loss%s%s%s", cut ? ", in mid-message" : "", reset ? ", reset" : "", outage ? ", outage" : "");
            losses++;
            if (outage) peer.shut();
            peer.drop(reset);
            if (!rc.enable_reconnect) {
                double end = mono() + kWait;
                while (cl_send(t, "x", 0) == 0) { PBT_CHECK(mono() < end, "sends succeed although the server is gone"); usleep(500); }
                {
                    double e2 = mono() + kWait;
                    for (;;) {
                        { std::lock_guard<std::mutex> g(in.mu); if (in.errors) break; }
                        PBT_CHECK(mono() < e2, "the loss of the connection was not reported");
                        usleep(200);
                    }
                }
                if (outage) peer.open();
                PBT_CHECK(!peer.accept_one(0.02), "the client reconnected although reconnection is off");
                PBT_CHECK(mcp_tcp_client_get_connection_state(t) != MCP_CONNECTION_STATE_CONNECTED, "the state is still connected");
                if (c.flip()) { // by hand
                    c.note("reconnect by hand");
                    PBT_CHECK(mcp_tcp_client_reconnect(t) == 0, "reconnecting by hand failed");
                    rc.enable_reconnect = true; // as the call does
                    recover("after reconnecting by hand");
                    break;
                }
                alive = false;
                break;
            }
            if (c.flip()) usleep((useconds_t)c.draw(6000));
            if (outage) {
                size_t k = (size_t)c.small(0, 3);
                for (size_t j = 0; j < k; j++) cl_send(t, fmt("lost%d", serial++), (unsigned)c.draw(3));
                usleep((useconds_t)c.draw(20000));
                peer.open();
            }
            check_inbox(false);
            recover("after a loss");
            break;
        }
        }
        check_inbox(false);
    }
    // the end: at any time, also while it tries to reconnect
    bool down = alive && c.chance(1, 3);
    if (down) { peer.shut(); peer.drop(c.flip()); usleep((useconds_t)c.draw(3000)); if (c.flip()) cl_send(t, "x", 0); }
    double t0 = mono();
    if (c.flip()) mcp_transport_stop(t);
    mcp_transport_destroy(t);
    gone.t = nullptr;
    PBT_CHECK(mono() - t0 < kWait, "stopping took %.1f s", mono() - t0);
    check_inbox(false);
    PBT_CHECK(heard == expect, "the callback saw %zu of %zu messages", heard, expect);
    if (alive && !down) {
        std::string g;
        PBT_CHECK(!peer.next(g, kWait), "the peer received %s, which was not sent", esc(g, 80).c_str());
        PBT_CHECK(peer.eof, "the connection stays open after the transport is gone");
        PBT_CHECK(peer.in.empty(), "%zu bytes of an incomplete message at the end of the stream", peer.in.size());
    }
    c.nontrivial(sent + heard > 0 && losses > 0);
}

// Several senders that go on while the connection is lost again and again.
static void storm_case(Case& c) {
    Peer peer;
    peer.host = own_host();
    peer.open();
    Inbox in;
    mcp_reconnect_config_t rc;
    memset(&rc, 0, sizeof rc);
    rc.enable_reconnect = true;
    rc.initial_reconnect_delay_ms = (uint32_t)c.small(1, 4);
    rc.max_reconnect_delay_ms = 5;
    rc.backoff_factor = 1.0f;
    mcp_transport_t* t = mcp_tcp_client_create_reconnect(peer.host.c_str(), peer.port, &rc);
    PBT_CHECK(t != nullptr && mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
    struct Gone { mcp_transport_t* t; ~Gone() { if (t) mcp_transport_destroy(t); } } gone{t};
    size_t th = (size_t)c.range(2, 4), rounds = (size_t)c.range(1, 5);
    struct Round { size_t frames; bool reset; unsigned pause; };
    std::vector<Round> rs;
    for (size_t i = 0; i < rounds; i++) rs.push_back({(size_t)c.draw(40), c.flip(), (unsigned)c.draw(3000)});
    std::vector<size_t> big;
    for (size_t i = 0; i < th; i++) big.push_back(c.chance(1, 4) ? (size_t)c.range(1000, 30000) : (size_t)c.small(0, 100));
    c.note("%zu senders, %zu losses", th, rounds);
    std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    for (size_t a = 0; a < th; a++)
        ts.emplace_back([&, a] {
            for (int k = 0; !stop; k++)
                if (cl_send(t, fmt("%zu %d ", a, k) + std::string(big[a], (char)('a' + a)), (unsigned)(k % 3)) != 0) usleep(300);
        });
    std::vector<long> last(th, -1);
    size_t total = 0;
    std::string wrong;
    auto take = [&](const std::string& g) {
        size_t a = 0;
        long k = 0;
        int used = 0;
        if (sscanf(g.c_str(), "%zu %ld %n", &a, &k, &used) != 2 || a >= th || g != fmt("%zu %ld ", a, k) + std::string(big[a], (char)('a' + a))) wrong = "the peer received " + esc(g, 100) + ", which was not sent";
        else if (k <= last[a]) wrong = fmt("message %ld of sender %zu arrived after message %ld", k, a, last[a]);
        else last[a] = k;
        total++;
    };
    {
        for (size_t i = 0; i <= rounds && wrong.empty(); i++) {
            if (!peer.accept_one(kWait)) { wrong = fmt("the client did not connect after loss %zu", i); break; }
            size_t want = i < rounds ? rs[i].frames : 20;
            double end = mono() + kWait;
            for (size_t k = 0; k < want && wrong.empty();) {
                std::string g;
                if (peer.next(g, 0.2)) { take(g); k++; continue; }
                if (peer.eof && !peer.accept_one(0.2)) continue;
                if (mono() > end) wrong = fmt("only %zu messages arrived after loss %zu", k, i);
            }
            if (i == rounds) break;
            usleep(rs[i].pause);
            peer.drop(rs[i].reset);
        }
    }
    PBT_CHECK(wrong.empty(), "%s", wrong.c_str());
    stop = true;
    std::vector<char> done(th);
    std::thread drain;
    for (auto& x : ts) {
        drain = std::thread([&] { x.join(); done[0] = 1; });
        while (!done[0] && wrong.empty()) { // keep reading, a sender may be blocked
            std::string g;
            if (peer.fd >= 0 && peer.next(g, 0.01)) take(g); else usleep(200);
        }
        drain.join();
        done[0] = 0;
    }
    PBT_CHECK(wrong.empty(), "%s", wrong.c_str());
    connected(t, "after the storm");
    c.nontrivial(total >= 20);
}

// Stopping while a reconnection is due only in a minute.
static void prompt_stop_case(Case& c) {
    Peer peer;
    peer.host = own_host();
    peer.open();
    Inbox in;
    mcp_reconnect_config_t rc;
    memset(&rc, 0, sizeof rc);
    rc.enable_reconnect = true;
    rc.initial_reconnect_delay_ms = 60000;
    rc.max_reconnect_delay_ms = 60000;
    rc.backoff_factor = 1.0f;
    rc.max_reconnect_attempts = (int)c.draw(3);
    mcp_transport_t* t = mcp_tcp_client_create_reconnect(peer.host.c_str(), peer.port, &rc);
    PBT_CHECK(t != nullptr, "no transport");
    bool never = c.flip();
    if (never) peer.shut();
    PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
    if (!never) {
        PBT_CHECK(peer.accept_one(kWait), "the client did not connect");
        peer.shut();
        peer.drop(c.flip());
        usleep((useconds_t)c.draw(5000));
    }
    size_t k = (size_t)c.small(0, 3);
    for (size_t i = 0; i < k; i++) cl_send(t, "x", 0);
    usleep((useconds_t)c.draw(3000));
    c.note("%s, %zu sends, stop", never ? "never connected" : "connection lost", k);
    double t0 = mono();
    if (c.flip()) mcp_transport_stop(t);
    mcp_transport_destroy(t);
    PBT_CHECK(mono() - t0 < kWait, "stopping took %.1f s", mono() - t0);
    c.nontrivial(k > 0 || never);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P41";
    o.rule = "history: at least one loss of the connection and at least one message; storm: at least twenty messages arrived; stop: a reconnection was pending";
    o.tests = {
        {"history", tidy<history_case>, 3000, 30000, 120, 25},
        {"storm", tidy<storm_case>, 1500, 15000, 120, 25},
        {"stop", tidy<prompt_stop_case>, 400, 4000, 120, 25},
    };
    o.assumptions = {"messages accepted in the moment a connection is lost may be lost with it; no others"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
