// P44: The pooled TCP client gives every call the reply to it, and no broken connection a second use.
// TECHNIQUE: model-based sequences against a scripted server on real sockets: generated calls by parallel callers, generated segmentation and failures of the replies, silence, outages, stops and restarts; the requests seen by the server, the replies seen by the callback and the result of every call are compared with the script
// NOTE: the server answers a request with one message or fails to; unasked-for messages are not part of the claim. Time limits are only there to tell a call that ends from one that never does
#include "tidy.hpp"
#include "mcp.hpp"
#include "ws.hpp"
#include <atomic>
#include <cstdarg>
#include <netinet/tcp.h>
#include <map>
#include <mutex>
#include <poll.h>
#include <set>
#include <thread>
extern "C" {
#include "mcp_transport.h"
#include "mcp_tcp_pool_transport.h"
#include "mcp_types.h"
void __real_mcp_sleep_ms(unsigned int ms);
void __wrap_mcp_sleep_ms(unsigned int ms) { __real_mcp_sleep_ms(ms > 5 ? 5 : ms); } // rounds of pool upkeep
}
// LINK: -Wl,--wrap=mcp_sleep_ms
using namespace pbt;

static const double kWait = 20;
__attribute__((format(printf, 1, 2))) static std::string strf(const char* f, ...) {
    char b[200];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static std::string frame(const std::string& m) {
    uint32_t n = htonl((uint32_t)m.size());
    return std::string((const char*)&n, 4) + m;
}

enum Kind { OK, CLOSE, RESET, CUT_HEAD, CUT_BODY, EMPTY, HUGE_LEN, SILENT, STALL };
static const char* kNames[] = {"reply", "close", "reset", "cut in the length", "cut in the body", "empty", "huge length", "silence", "stall"};
struct Plan {
    Kind kind = OK;
    std::string request, reply;
    std::vector<size_t> cuts;
    int delay_ms = 0;
    bool close_after = false; // answers, then closes
};

struct Server {
    std::string host;
    uint16_t port = 0;
    int lfd = -1;
    std::mutex mu;
    std::map<int, Plan> plans;
    std::map<int, int> seen;      // serial -> times its request arrived
    std::map<int, int> on;        // serial -> connection it came by
    std::set<int> spoilt;         // connections on which an exchange failed
    std::map<int, int> live;      // connection -> descriptor
    std::string broken;
    int next_conn = 0, peak = 0, accepted = 0;
    std::atomic<bool> quit{false};
    std::thread acc;
    std::vector<std::thread> workers;
    void fault(const std::string& s) { if (broken.empty()) broken = s; }
    void open() {
        quit = false;
        lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        struct sockaddr_in a;
        memset(&a, 0, sizeof a);
        a.sin_family = AF_INET;
        inet_pton(AF_INET, host.c_str(), &a.sin_addr);
        a.sin_port = htons(port);
        socklen_t n = sizeof a;
        if (bind(lfd, (struct sockaddr*)&a, n) != 0 || listen(lfd, 64) != 0) { perror("server"); _exit(3); }
        getsockname(lfd, (struct sockaddr*)&a, &n);
        port = ntohs(a.sin_port);
        acc = std::thread([this] {
            while (!quit) {
                struct pollfd p = {lfd, POLLIN, 0};
                if (poll(&p, 1, 20) <= 0) continue;
                int f = accept4(lfd, nullptr, nullptr, SOCK_CLOEXEC);
                if (f < 0) continue;
                std::lock_guard<std::mutex> g(mu);
                int id = next_conn++;
                live[id] = f;
                accepted++;
                peak = std::max(peak, (int)live.size());
                workers.emplace_back([this, id, f] { serve(id, f); });
            }
        });
    }
    void shut() {
        quit = true;
        if (acc.joinable()) acc.join();
        if (lfd >= 0) ::close(lfd);
        lfd = -1;
        for (auto& w : workers) w.join();
        workers.clear();
    }
    int alive() { std::lock_guard<std::mutex> g(mu); return (int)live.size(); }
    bool ended(int f, double secs) { // the client closed it
        double end = mono() + secs;
        while (mono() < end && !quit) {
            struct pollfd p = {f, POLLIN, 0};
            if (poll(&p, 1, 20) > 0) return true;
        }
        return false;
    }
    static bool put(int f, const char* d, size_t n) {
        while (n) {
            ssize_t r = ::send(f, d, n, MSG_NOSIGNAL);
            if (r <= 0) return false;
            d += r;
            n -= (size_t)r;
        }
        return true;
    }
    bool answer(int f, const Plan& p) { // false: the connection is over
        std::string out = frame(p.reply);
        if (p.delay_ms) usleep((useconds_t)p.delay_ms * 1000);
        switch (p.kind) {
        case CLOSE: return false;
        case RESET: {
            struct linger l = {1, 0};
            setsockopt(f, SOL_SOCKET, SO_LINGER, &l, sizeof l);
            return false;
        }
        case CUT_HEAD: put(f, out.data(), std::min<size_t>(out.size() - 1, 1 + p.reply.size() % 3)); return false;
        case CUT_BODY: put(f, out.data(), 4 + (p.reply.size() - 1) * (p.cuts.empty() ? 1 : p.cuts[0] % 3) / 2); return false;
        case EMPTY: put(f, "\0\0\0\0", 4); return true;
        case HUGE_LEN: put(f, "\x7f\xff\xff\xff", 4); put(f, p.reply.data(), p.reply.size()); return true;
        case SILENT: return true;
        case STALL: put(f, out.data(), p.cuts.empty() ? 2 : std::min<size_t>(p.cuts[0] % out.size(), out.size() - 1)); return true;
        case OK: break;
        }
        size_t at = 0;
        std::vector<size_t> cuts = p.cuts;
        cuts.push_back(out.size());
        for (size_t e : cuts) {
            e = std::min(e, out.size());
            if (e <= at) continue;
            if (!put(f, out.data() + at, e - at)) return false;
            at = e;
            if (at < out.size()) usleep(300);
        }
        return !p.close_after;
    }
    void serve(int id, int f) {
        std::string in;
        int one = 1;
        setsockopt(f, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        while (!quit) {
            struct pollfd p = {f, POLLIN, 0};
            if (poll(&p, 1, 20) <= 0) continue;
            char buf[65536];
            ssize_t r = recv(f, buf, sizeof buf, MSG_DONTWAIT);
            if (r <= 0) break;
            in.append(buf, (size_t)r);
            bool over = false;
            while (in.size() >= 4 && !over) {
                uint32_t n;
                memcpy(&n, in.data(), 4);
                n = ntohl(n);
                if (n > 1u << 22) {
                    std::lock_guard<std::mutex> g(mu);
                    fault("the server reads a message of " + std::to_string(n) + " bytes: the stream is out of step");
                    over = true;
                    break;
                }
                if (in.size() < 4 + (size_t)n) break;
                std::string m = in.substr(4, n);
                in.erase(0, 4 + (size_t)n);
                Plan plan;
                {
                    std::lock_guard<std::mutex> g(mu);
                    int serial = atoi(m.c_str());
                    auto it = plans.find(serial);
                    if (it == plans.end() || it->second.request != m) { fault("a request arrived that was not sent: " + m.substr(0, 60)); over = true; break; }
                    if (seen[serial]++) fault("request " + std::to_string(serial) + " arrived twice");
                    if (spoilt.count(id)) fault("request " + std::to_string(serial) + " came by a connection on which a call had failed");
                    on[serial] = id;
                    plan = it->second;
                    if (plan.kind != OK) spoilt.insert(id);
                    if (!in.empty()) fault("a second request came before the first was answered");
                }
                if (!answer(f, plan)) over = true;
            }
            if (over) break;
        }
        std::lock_guard<std::mutex> g(mu);
        live.erase(id);
        ::close(f);
    }
    ~Server() { shut(); }
};

struct Inbox {
    std::mutex mu;
    std::map<int, int> got;
    Server* srv = nullptr;
    std::string broken;
    int errors = 0;
    bool echo = false;
};
static char* on_message(void* ud, const void* data, size_t size, int* code) {
    Inbox* in = (Inbox*)ud;
    std::string m((const char*)data, size);
    int serial = atoi(m.c_str());
    std::string want;
    bool known = false;
    {
        std::lock_guard<std::mutex> g(in->srv->mu);
        auto it = in->srv->plans.find(serial);
        if (it != in->srv->plans.end() && it->second.kind == OK) { want = it->second.reply; known = true; }
    }
    std::lock_guard<std::mutex> g(in->mu);
    if (in->broken.empty()) {
        if (!known) in->broken = "the callback was given a message that is no reply: " + m.substr(0, 60);
        else if (m != want) in->broken = strf("the reply to %d is not what was sent (%zu bytes for %zu)", serial, m.size(), want.size());
        else if (((const char*)data)[size] != 0) in->broken = "a reply is not terminated";
    }
    in->got[serial]++;
    if (code) *code = in->echo ? 7 : 0;
    return in->echo ? strdup("ignored") : nullptr;
}
static void on_error(void* ud, int) {
    Inbox* in = (Inbox*)ud;
    std::lock_guard<std::mutex> g(in->mu);
    in->errors++;
}

static std::string body(Case& c, int serial) {
    std::string s = strf("%d:", serial);
    switch (c.weighted({5, 3, 1})) {
    case 0: return s + c.text((size_t)c.small(0, 40));
    case 1: return s + c.bytes((size_t)c.small(1, 3000));
    default: return s + std::string((size_t)c.small(1, 300000), (char)('a' + serial % 26));
    }
}
static std::vector<size_t> places(Case& c, size_t total) { // where to cut, sometimes nowhere twice
    std::vector<size_t> v;
    size_t at = 0;
    for (size_t n : c.cuts(total, 5)) {
        if (c.chance(1, 6)) v.push_back(at);
        v.push_back(at += n);
    }
    return v;
}
struct Call {
    int serial;
    unsigned how;
    std::vector<size_t> cuts;
    std::string request;
    int status = 99;
    double took = 0;
};
static int do_send(mcp_transport_t* t, const Call& k) {
    std::string f = frame(k.request);
    if (k.how == 0) return mcp_transport_send(t, f.data(), f.size());
    std::vector<mcp_buffer_t> bufs;
    size_t at = 0;
    std::vector<size_t> cuts = k.cuts;
    if (k.how == 1) cuts = {4};
    cuts.push_back(f.size());
    for (size_t e : cuts) {
        e = std::min(e, f.size());
        if (e < at) continue;
        mcp_buffer_t b;
        memset(&b, 0, sizeof b);
        b.data = f.data() + at;
        b.size = e - at;
        bufs.push_back(b);
        at = e;
    }
    return mcp_transport_sendv(t, bufs.data(), bufs.size());
}
static Call make_call(Case& c, Server& s, int serial, Kind kind, bool closes = false) {
    Call k;
    k.serial = serial;
    k.how = (unsigned)c.range(0, 2);
    k.request = body(c, serial);
    size_t total = k.request.size() + 4;
    k.cuts = places(c, total);
    Plan p;
    p.kind = kind;
    p.request = k.request;
    p.reply = body(c, serial);
    p.cuts = places(c, p.reply.size() + 4);
    if (kind != OK && c.chance(1, 2)) p.cuts = {(size_t)c.range(0, 6)};
    p.delay_ms = c.chance(1, 6) ? (int)c.range(1, 6) : 0;
    p.close_after = closes && kind == OK && c.chance(1, 4);
    std::lock_guard<std::mutex> g(s.mu);
    s.plans[serial] = p;
    return k;
}
static void run_call(mcp_transport_t* t, Call& k) {
    double t0 = mono();
    k.status = do_send(t, k);
    k.took = mono() - t0;
}
static void settle(Server& s, Inbox& in) {
    std::lock_guard<std::mutex> g(s.mu);
    PBT_CHECK(s.broken.empty(), "%s", s.broken.c_str());
    std::lock_guard<std::mutex> h(in.mu);
    PBT_CHECK(in.broken.empty(), "%s", in.broken.c_str());
}
// after the call ended: what it reports, what the server saw, what the callback saw
static void judge(Server& s, Inbox& in, const Call& k) {
    std::lock_guard<std::mutex> g(s.mu);
    std::lock_guard<std::mutex> h(in.mu);
    const Plan& p = s.plans[k.serial];
    int got = in.got.count(k.serial) ? in.got[k.serial] : 0, seen = s.seen.count(k.serial) ? s.seen[k.serial] : 0;
    if (p.kind == OK) {
        PBT_CHECK(k.status == 0, "call %d was answered, but is reported as failed (%d, %.1f s; the server saw it %d times)", k.serial, k.status, k.took, seen);
        PBT_CHECK(seen == 1, "call %d succeeded, the server saw its request %d times", k.serial, seen);
        PBT_CHECK(got == 1, "call %d succeeded, its reply was handed over %d times", k.serial, got);
    } else {
        PBT_CHECK(k.status != 0, "call %d (%s) is reported as successful", k.serial, kNames[p.kind]);
        PBT_CHECK(got == 0, "call %d (%s) had a reply handed over", k.serial, kNames[p.kind]);
    }
}
static mcp_transport_t* make(Case& c, Server& s, Inbox& in, size_t minc, size_t maxc, int timeout_ms) {
    in.srv = &s;
    in.echo = c.chance(1, 4);
    mcp_transport_t* t = mcp_tcp_pool_transport_create(s.host.c_str(), s.port, minc, maxc, c.chance(1, 2) ? 0 : 60000, 10000, timeout_ms);
    PBT_CHECK(t != nullptr, "no transport");
    return t;
}
static void finish(mcp_transport_t* t, Server& s) {
    double t0 = mono();
    mcp_transport_destroy(t);
    PBT_CHECK(mono() - t0 < kWait, "destroying the transport took %.1f s", mono() - t0);
    double end = mono() + kWait;
    while (s.alive() && mono() < end) usleep(500);
    PBT_CHECK(s.alive() == 0, "%d connections are still open after the transport was destroyed", s.alive());
}

// parallel callers, every way a reply can fail short of silence
static void callers(Case& c) {
    Server s;
    s.host = own_host();
    s.open();
    Inbox in;
    size_t maxc = (size_t)c.range(1, 4), minc = (size_t)c.range(0, (int64_t)maxc);
    mcp_transport_t* t = make(c, s, in, minc, maxc, 60000);
    PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
    int n = (int)c.range(1, 5), serial = 1, bad = 0, good = 0;
    bool closes = c.chance(1, 4); // a connection closed behind an answer may fail the next call, not more
    std::vector<std::vector<Call>> work((size_t)n);
    for (auto& w : work) {
        int calls = (int)c.small(1, 6);
        for (int i = 0; i < calls; i++) {
            Kind kind = c.chance(3, 4) ? OK : (Kind)c.range(CLOSE, HUGE_LEN);
            (kind == OK ? good : bad)++;
            w.push_back(make_call(c, s, serial++, kind, closes));
        }
    }
    c.note("%d callers, %d good and %d failing calls, %zu to %zu connections", n, good, bad, minc, maxc);
    std::atomic<int> left{n};
    std::vector<std::thread> th;
    for (auto& w : work) th.emplace_back([&] { for (auto& k : w) run_call(t, k); left--; });
    double end = mono() + 60;
    while (left && mono() < end) usleep(300);
    PBT_CHECK(left == 0, "%d callers have not got their calls back after a minute", left.load());
    for (auto& x : th) x.join();
    settle(s, in);
    int closing = 0, missed = 0;
    for (auto& w : work) for (auto& k : w) {
        const Plan& p = s.plans[k.serial];
        if (p.close_after) closing++;
        if (closes && p.kind == OK && k.status != 0 && !s.seen.count(k.serial)) missed++;
        else judge(s, in, k);
    }
    PBT_CHECK(missed <= closing, "%d calls failed after %d closed connections", missed, closing);
    bad += missed;
    PBT_CHECK(in.errors == bad, "%d calls failed, %d errors were reported", bad, in.errors);
    PBT_CHECK((size_t)s.peak <= maxc + (size_t)(bad + closing), "%d connections were open at once, at most %zu may be", s.peak, maxc);
    if (!bad && !closing) {
        PBT_CHECK((size_t)s.peak <= maxc, "%d connections were open at once, at most %zu may be", s.peak, maxc);
        PBT_CHECK((size_t)s.accepted <= maxc, "%d connections were made although none was lost (at most %zu)", s.accepted, maxc);
    }
    finish(t, s);
    settle(s, in);
    if (good + bad >= 4 && (n > 1 || bad)) c.nontrivial();
}

// one caller: stops, restarts, outages
static void history(Case& c) {
    Server s;
    s.host = own_host();
    s.open();
    Inbox in;
    size_t maxc = (size_t)c.range(1, 3), minc = (size_t)c.range(0, (int64_t)maxc);
    mcp_transport_t* t = make(c, s, in, minc, maxc, 250);
    bool running = false, up = true;
    int steps = (int)c.range(3, 12), serial = 1, fails = 0, refused = 0, turns = 0;
    bool dirty = false; // some pooled connection may be dead without the transport knowing
    for (int i = 0; i < steps; i++) {
        switch (c.weighted({8, 2, 2, 1})) {
        case 0: {
            Kind kind = c.chance(2, 3) ? OK : (Kind)c.range(CLOSE, HUGE_LEN);
            Call k = make_call(c, s, serial++, kind, true);
            if (kind == OK && up && running && !dirty) {
                // the time limit is short here: on a loaded machine an answered call may miss it
                run_call(t, k);
                if (k.status != 0 && k.took < 0.2) judge(s, in, k);
                if (k.status == 0) judge(s, in, k); else fails++;
                dirty = s.plans[k.serial].close_after;
            } else {
                run_call(t, k);
                std::unique_lock<std::mutex> g(s.mu);
                int seen = s.seen.count(k.serial) ? s.seen[k.serial] : 0;
                g.unlock();
                if (!running) {
                    PBT_CHECK(k.status != 0, "a call succeeded while the transport was stopped");
                    usleep(1000);
                    PBT_CHECK(seen == 0, "a call made while the transport was stopped reached the server");
                    refused++;
                } else {
                    if (!up) PBT_CHECK(k.status != 0, "a call succeeded without a server");
                    if (k.status == 0 || kind != OK) judge(s, in, k);
                    if (k.status != 0) fails++;
                    if (up && dirty && k.status == 0) dirty = maxc > 1 || s.plans[k.serial].close_after;
                }
            }
            PBT_CHECK(k.took < kWait, "a call took %.1f s with a time limit of 0.25 s", k.took);
            c.note("call %d: %s%s%s -> %d", k.serial, kNames[kind], up ? "" : " (no server)", running ? "" : " (stopped)", k.status);
            PBT_CHECK(in.errors == fails, "%d calls failed, %d errors were reported", fails, in.errors);
            break;
        }
        case 1:
            if (running) PBT_CHECK(mcp_transport_stop(t) == 0, "stop failed");
            else PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
            running = !running;
            turns++;
            c.note("%s", running ? "start" : "stop");
            break;
        case 2:
            if (!up) break;
            s.shut();
            up = false;
            dirty = true;
            c.note("the server goes away");
            break;
        default:
            if (up) break;
            s.open();
            up = true;
            c.note("the server is back");
        }
        settle(s, in);
    }
    // with the server there, calls work again
    if (!up) s.open();
    if (!running) PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
    double end = mono() + kWait;
    bool ok = false;
    while (!ok && mono() < end) {
        Call k = make_call(c, s, serial++, OK);
        run_call(t, k);
        ok = k.status == 0;
        if (ok) judge(s, in, k);
    }
    PBT_CHECK(ok, "no call succeeds although the server is there");
    settle(s, in);
    finish(t, s);
    if (fails && (turns > 1 || serial > 4)) c.nontrivial();
}

// a server that does not answer, or not to the end
static void silence(Case& c) {
    Server s;
    s.host = own_host();
    s.open();
    Inbox in;
    size_t maxc = (size_t)c.range(1, 2);
    mcp_transport_t* t = make(c, s, in, (size_t)c.range(0, (int64_t)maxc), maxc, 120);
    PBT_CHECK(mcp_transport_start(t, on_message, &in, on_error) == 0, "start failed");
    int n = (int)c.range(1, 4), serial = 1, quiet = 0;
    for (int i = 0; i < n; i++) {
        Kind kind = i == 0 || c.chance(1, 2) ? (c.chance(1, 2) ? SILENT : STALL) : OK;
        Call k = make_call(c, s, serial++, kind);
        std::atomic<bool> done{false};
        std::thread th([&] { run_call(t, k); done = true; });
        double end = mono() + kWait;
        while (!done && mono() < end) usleep(300);
        PBT_CHECK(done, "a call (%s) with a time limit of 0.12 s has not come back after %.0f s", kNames[kind], kWait);
        th.join();
        c.note("%s -> %d in %.2f s", kNames[kind], k.status, k.took);
        if (kind != OK || k.status == 0) judge(s, in, k);
        else PBT_CHECK(k.took > 0.1, "call %d was answered, but is reported as failed", k.serial);
        if (kind != OK) quiet++;
        if (kind != OK) PBT_CHECK(k.took > 0.05, "a call with a time limit of 0.12 s was given up after %.3f s", k.took);
        settle(s, in);
    }
    finish(t, s);
    settle(s, in);
    if (quiet && n > 1) c.nontrivial();
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P44";
    o.rule = "callers: at least four calls, by several callers or with a failing one; history: a failed call among at least four calls or several starts and stops; silence: an unanswered call and another one";
    o.tests = {
        {"callers", tidy<callers>, 3000, 15000, 150, 25},
        {"history", tidy<history>, 300, 3000, 150, 25},
        {"silence", tidy<silence>, 120, 1200, 150, 25},
    };
    o.assumptions = {"a server answers a request with at most one message", "a peer keeps reading what it is sent"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
