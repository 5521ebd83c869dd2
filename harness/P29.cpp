// TECHNIQUE: stateful property-based testing: generated histories of get, release, peer close, refused connects, idle expiry (virtual clock) and maintenance rounds (released one at a time) against a loopback listener, plus generated concurrent users and waiters; oracle: model of lent and idle connections checked against the process's real descriptors and the reported counts
// NOTE: Callers return what they were lent, once, and return everything before destroying the pool. With health checks off the pool may lend a connection whose peer has closed it. Which good idle connection is lent first is not constrained. Lateness is only counted beyond ten seconds.
// LINK: -Wl,--wrap=mcp_sleep_ms -Wl,--wrap=connect -Wl,--wrap=close
#include "pbt.hpp"
#include "mcp.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <map>
#include <set>
#include <thread>
extern "C" {
#include "mcp_connection_pool.h"
}
using namespace pbt;

static double mono() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}

// ---- link-time seams ----
static const int kFds = 1024;
static std::atomic<int> g_port{0};      // the listener of the running case
static std::atomic<int> g_open{0};      // connections the pool has open or is opening to it
static std::atomic<int> g_peak{0};
static std::atomic<bool> g_conn[kFds];  // descriptor is such a connection
static std::atomic<int> g_mode{0};      // maintenance naps: 0 real, 1 one round per tick, 2 a few milliseconds
static std::atomic<long> g_ticks{0}, g_seen{0};
static std::atomic<bool> g_go{false};
static std::atomic<bool> g_pause_open{false}, g_pause_close{false}, g_paused{false};
static void pause_here(std::atomic<bool>& which) {
    if (!which.exchange(false)) return;
    g_paused = true;
    usleep(4000);
}
extern "C" {
void __real_mcp_sleep_ms(unsigned int ms);
int __real_connect(int fd, const struct sockaddr* a, socklen_t l);
int __real_close(int fd);
void __wrap_mcp_sleep_ms(unsigned int ms) {
    if (g_mode == 1) {
        long at = ++g_seen; // a round has ended
        while (!g_go && g_ticks < at) usleep(100);
        return;
    }
    if (g_mode == 2 && ms >= 100) ms = 1;
    __real_mcp_sleep_ms(ms);
}
int __wrap_connect(int fd, const struct sockaddr* a, socklen_t l) {
    bool mine = a && a->sa_family == AF_INET && g_port && ntohs(((const struct sockaddr_in*)a)->sin_port) == g_port && fd >= 0 && fd < kFds;
    if (mine && !g_conn[fd].exchange(true)) {
        int n = ++g_open, p = g_peak;
        while (n > p && !g_peak.compare_exchange_weak(p, n)) {}
    }
    if (mine) pause_here(g_pause_open);
    return __real_connect(fd, a, l);
}
int __wrap_close(int fd) {
    if (fd >= 0 && fd < kFds && g_conn[fd].exchange(false)) {
        pause_here(g_pause_close);
        --g_open;
    }
    return __real_close(fd);
}
}

// ---- the peer ----
struct Peer {
    int lfd = -1, port = 0;
    std::string host;
    std::map<int, int> ends; // peer port -> accepted descriptor
    std::set<int> gone;      // peer ports we have closed
    void listen_() {
        lfd = socket(AF_INET, SOCK_STREAM, 0);
        int one = 1;
        setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
        struct sockaddr_in a = {};
        a.sin_family = AF_INET;
        inet_pton(AF_INET, host.c_str(), &a.sin_addr);
        a.sin_port = htons((uint16_t)port);
        if (bind(lfd, (struct sockaddr*)&a, sizeof a) != 0 || listen(lfd, 256) != 0) { fprintf(stderr, "P29: cannot listen\n"); _exit(3); }
        socklen_t l = sizeof a;
        getsockname(lfd, (struct sockaddr*)&a, &l);
        port = ntohs(a.sin_port);
        fcntl(lfd, F_SETFL, O_NONBLOCK);
    }
    Peer() {
        host = fmt("127.%d.%d.%d", 1 + (getpid() >> 16) % 200, (getpid() >> 8) & 255, 1 + (getpid() & 255) % 254);
        listen_();
        for (auto& f : g_conn) f = false;
        g_open = 0;
        g_peak = 0;
        g_port = port;
    }
    ~Peer() {
        if (lfd >= 0) __real_close(lfd);
        for (auto& e : ends) __real_close(e.second);
        g_port = 0;
    }
    void accept_all() {
        if (lfd < 0) return;
        for (;;) {
            struct sockaddr_in a;
            socklen_t l = sizeof a;
            int fd = accept(lfd, (struct sockaddr*)&a, &l);
            if (fd < 0) return;
            int p = ntohs(a.sin_port);
            if (ends.count(p)) __real_close(ends[p]);
            ends[p] = fd;
            gone.erase(p);
        }
    }
    void down() { accept_all(); __real_close(lfd); lfd = -1; }
    // Half-closes: the pool's end sees end-of-stream
    void hang_up(int p) {
        if (ends.count(p)) { shutdown(ends[p], SHUT_WR); gone.insert(p); }
    }
};
static int local_port(int fd) {
    struct sockaddr_in a;
    socklen_t l = sizeof a;
    if (getsockname(fd, (struct sockaddr*)&a, &l) != 0 || a.sin_family != AF_INET) return -1;
    return ntohs(a.sin_port);
}
// The process's open connections to the peer: local port -> descriptor
static std::map<int, int> open_connections(const Peer& s) {
    std::map<int, int> r;
    for (int fd = 3; fd < kFds; ++fd) {
        struct sockaddr_in a;
        socklen_t l = sizeof a;
        if (getpeername(fd, (struct sockaddr*)&a, &l) != 0 || a.sin_family != AF_INET || ntohs(a.sin_port) != s.port) continue;
        int p = local_port(fd);
        if (p > 0) r[p] = fd;
    }
    return r;
}
static bool usable(Peer& s, int fd, int p, std::string& why) {
    s.accept_all();
    auto it = s.ends.find(p);
    if (it == s.ends.end()) { why = "the peer never saw it"; return false; }
    static unsigned char tag = 0;
    unsigned char out = ++tag, in = 0;
    if (send(fd, &out, 1, MSG_NOSIGNAL) != 1) { why = fmt("send fails: %s", strerror(errno)); return false; }
    struct pollfd pf = {it->second, POLLIN, 0};
    poll(&pf, 1, 10000);
    if (recv(it->second, &in, 1, MSG_DONTWAIT) != 1 || in != out) { why = "a byte sent on it does not arrive"; return false; }
    if (!s.gone.count(p)) {
        unsigned char b = (unsigned char)~out;
        if (send(it->second, &b, 1, MSG_NOSIGNAL) != 1) { why = "the peer cannot send on it"; return false; }
        struct pollfd pc = {fd, POLLIN, 0};
        poll(&pc, 1, 10000);
        if (recv(fd, &in, 1, MSG_DONTWAIT) != 1 || in != b) { why = "a byte sent by the peer does not arrive"; return false; }
    }
    return true;
}

static void t_history(Case& c) {
    vt::freeze(1700000000);
    g_mode = 1;
    g_ticks = 0;
    g_seen = 0;
    g_go = false;
    Peer s;
    size_t max = (size_t)c.range(1, 6), min = c.chance(1, 2) ? 0 : (size_t)c.range(0, (int)max);
    int idle_s = c.chance(1, 2) ? 0 : c.range(2, 20), hc_s = c.chance(1, 2) ? 0 : c.range(1, 6);
    bool hc = hc_s > 0, up = true;
    bool start_down = c.chance(1, 12);
    if (start_down) { s.down(); up = false; }
    c.note("max=%zu min=%zu idle_timeout=%ds health_interval=%ds%s", max, min, idle_s, hc_s, start_down ? " listener down" : "");
    mcp_connection_pool_t* pool = mcp_connection_pool_create(s.host.c_str(), s.port, min, max, idle_s * 1000, 2000, hc_s * 1000, 30000);
    PBT_CHECK(pool, "the pool is not created");
    bool maint = idle_s > 0 || min > 0;
    auto settled = [&] { // the maintenance thread is waiting for the next tick
        if (!maint) return;
        double t0 = mono();
        while (g_seen <= g_ticks && mono() - t0 < 20) usleep(50);
        PBT_CHECK(g_seen > g_ticks, "the maintenance thread does not finish its round");
    };
    settled();
    struct Lent { int fd, port; };
    std::vector<Lent> lent;
    std::map<int, int64_t> since; // idle since, by local port
    std::map<int, int> ids;
    int next_id = 0;
    auto id = [&](int p) { if (!ids.count(p)) ids[p] = ++next_id; return ids[p]; };
    auto is_lent = [&](int p) { return std::any_of(lent.begin(), lent.end(), [&](const Lent& l) { return l.port == p; }); };
    auto idle_now = [&] {
        std::map<int, int> r;
        for (auto& o : open_connections(s)) if (!is_lent(o.first)) r[o.first] = o.second;
        return r;
    };
    auto check = [&](const char* after) {
        s.accept_all();
        auto open = open_connections(s);
        PBT_CHECK(open.size() <= max, "after %s: %zu connections are open, the maximum is %zu", after, open.size(), max);
        for (auto& l : lent) PBT_CHECK(open.count(l.port) && open[l.port] == l.fd, "after %s: connection #%d is lent but has been closed", after, id(l.port));
        size_t total = 99, idle = 99, active = 99;
        PBT_CHECK(mcp_connection_pool_get_stats(pool, &total, &idle, &active, nullptr, nullptr) == 0, "no statistics");
        PBT_CHECK(active == lent.size() && total == open.size() && idle == open.size() - lent.size(),
                  "after %s: the pool reports total %zu, idle %zu, active %zu; really open %zu, idle %zu, lent %zu", after, total, idle, active, open.size(), open.size() - lent.size(), lent.size());
        for (auto& o : open) if (!is_lent(o.first) && !since.count(o.first)) since[o.first] = vt::now() ;
        for (auto it = since.begin(); it != since.end();) if (!open.count(it->first)) it = since.erase(it); else ++it;
    };
    check("create");
    if (up) PBT_CHECK(open_connections(s).size() == min, "%zu connections were opened in advance instead of %zu", open_connections(s).size(), min);
    int n = c.small(1, 40), interesting = 0;
    for (int i = 0; i < n; ++i) {
        switch (c.weighted({10u, 9u, 3u, 2u, 3u, 4u, 1u})) {
        case 0: { // get
            auto idle = idle_now();
            std::set<int> good;
            bool dead = false;
            for (auto& o : idle) {
                bool old = idle_s > 0 && vt::now() - since[o.first] > idle_s, hung = s.gone.count(o.first) > 0;
                if (!old && !(hc && hung)) good.insert(o.first);
                else dead = true;
            }
            int timeout = c.chance(1, 8) ? c.range(1, 5) : 0;
            double t0 = mono();
            int fd = (int)mcp_connection_pool_get(pool, timeout);
            double took = mono() - t0;
            int p = fd >= 0 ? local_port(fd) : -1;
            c.note("get(%d) with %zu good idle of %zu, %zu lent -> %s%d", timeout, good.size(), idle.size(), lent.size(), fd < 0 ? "none " : "#", fd < 0 ? fd : id(p));
            PBT_CHECK(took < 10.0 + 0.001 * timeout, "get(%d) took %.1f s", timeout, took);
            if (fd < 0) {
                PBT_CHECK(good.empty(), "get fails although %zu good connections are idle", good.size());
                PBT_CHECK(!(up && lent.size() < max), "get fails although only %zu of %zu connections are lent", lent.size(), max);
                ++interesting;
            } else {
                PBT_CHECK(p > 0 && open_connections(s).count(p), "get lends descriptor %d, which is not an open connection", fd);
                PBT_CHECK(!is_lent(p), "get lends connection #%d, which is already lent", id(p));
                PBT_CHECK(lent.size() < max, "get lends a connection while %zu of %zu are lent", lent.size(), max);
                if (idle.count(p)) {
                    PBT_CHECK(good.count(p), "get lends connection #%d, which %s", id(p), hc && s.gone.count(p) ? "its peer has closed" : "has been idle too long");
                    if (dead) { c.label("skips a dead idle connection"); ++interesting; }
                    else c.label("reuses");
                } else {
                    PBT_CHECK(good.empty(), "get opens a new connection although %zu good ones are idle", good.size());
                    if (dead) { c.label("replaces a dead idle connection"); ++interesting; }
                    s.gone.erase(p);
                    c.label("opens");
                }
                std::string why;
                if (!usable(s, fd, p, why)) pbt::fail("connection #%d is lent but not usable: %s", id(p), why.c_str());
                lent.push_back({fd, p});
                since.erase(p);
            }
            check("get");
            break;
        }
        case 1: { // release
            if (lent.empty()) break;
            size_t k = c.draw(lent.size());
            Lent l = lent[k];
            bool ok = !c.chance(1, 4);
            c.note("release #%d %s", id(l.port), ok ? "good" : "bad");
            lent.erase(lent.begin() + (long)k);
            PBT_CHECK(mcp_connection_pool_release(pool, l.fd, ok) == 0, "release of connection #%d fails", id(l.port));
            auto open = open_connections(s);
            if (ok) PBT_CHECK(open.count(l.port), "connection #%d was returned good and has been closed", id(l.port));
            else PBT_CHECK(!open.count(l.port), "connection #%d was returned bad and is still open", id(l.port));
            since[l.port] = vt::now();
            check("release");
            if (!ok) ++interesting;
            break;
        }
        case 2: { // the peer hangs up
            auto open = open_connections(s);
            if (open.empty()) break;
            auto it = open.begin();
            std::advance(it, (long)c.draw(open.size()));
            s.accept_all();
            c.note("peer closes #%d (%s)", id(it->first), is_lent(it->first) ? "lent" : "idle");
            s.hang_up(it->first);
            break;
        }
        case 3:
            if (up) { c.note("listener down"); s.down(); }
            else { c.note("listener up"); s.listen_(); }
            up = !up;
            break;
        case 4: {
            int64_t d = c.range(1, idle_s > 0 && c.flip() ? idle_s + 2 : 3);
            c.note("%llds pass", (long long)d);
            vt::advance(d);
            break;
        }
        case 5: { // a maintenance round
            if (!maint) break;
            auto idle = idle_now();
            ++g_ticks;
            settled();
            auto open = open_connections(s);
            size_t removed = 0;
            for (auto& o : idle) {
                bool old = idle_s > 0 && vt::now() - since[o.first] > idle_s;
                if (old) PBT_CHECK(!open.count(o.first), "connection #%d has been idle for %llds, the limit is %ds, and is kept", id(o.first), (long long)(vt::now() - since[o.first]), idle_s);
                else if (!s.gone.count(o.first)) PBT_CHECK(open.count(o.first), "maintenance closes connection #%d, which is good", id(o.first));
                if (!open.count(o.first)) ++removed;
            }
            if (up) PBT_CHECK(open.size() >= min, "after maintenance %zu connections are open, the minimum is %zu", open.size(), min);
            c.note("maintenance: %zu of %zu idle closed, %zu open", removed, idle.size(), open.size());
            if (removed) { c.label("maintenance closes"); ++interesting; }
            check("maintenance");
            break;
        }
        case 6:
            check("nothing");
            break;
        }
    }
    for (auto& l : lent) mcp_connection_pool_release(pool, l.fd, true);
    g_go = true;
    mcp_connection_pool_destroy(pool);
    auto left = open_connections(s);
    PBT_CHECK(left.empty(), "%zu connections are left open by destroy", left.size());
    vt::off();
    c.nontrivial(interesting >= 2);
}

// Waiters on a full pool: one return, one waiter served; nobody gives up early.
static void t_waiters(Case& c) {
    vt::off();
    g_mode = 2;
    Peer s;
    size_t max = (size_t)c.range(1, 3);
    bool hc = c.chance(1, 3);
    size_t min = c.chance(1, 3) ? (size_t)c.range(0, (int)max) : 0;
    mcp_connection_pool_t* pool = mcp_connection_pool_create(s.host.c_str(), s.port, min, max, 0, 2000, hc ? 1000 : 0, 30000);
    PBT_CHECK(pool, "the pool is not created");
    std::vector<int> held;
    for (size_t i = 0; i < max; ++i) {
        int fd = (int)mcp_connection_pool_get(pool, 2000);
        PBT_CHECK(fd >= 0, "get fails with %zu of %zu lent", i, max);
        held.push_back(fd);
    }
    int n = c.range(1, 5);
    struct W { int timeout; std::atomic<int> fd{-2}; double took = 0; };
    std::vector<std::unique_ptr<W>> w;
    std::vector<std::thread> th;
    int patient = 0;
    for (int i = 0; i < n; ++i) {
        w.push_back(std::make_unique<W>());
        bool pat = c.chance(3, 4);
        w[i]->timeout = pat ? (c.flip() ? -1 : 60000) : c.range(1, 40);
        patient += pat;
    }
    c.note("max=%zu min=%zu health=%d, %d waiters of whom %d stay", max, min, hc, n, patient);
    for (int i = 0; i < n; ++i) th.emplace_back([&, i] {
        double t0 = mono();
        int fd = (int)mcp_connection_pool_get(pool, w[i]->timeout);
        w[i]->took = mono() - t0;
        w[i]->fd = fd;
    });
    bool rush = c.flip();
    if (!rush) { // the impatient ones go first
        double t0 = mono();
        auto done = [&] { return std::all_of(w.begin(), w.end(), [](const std::unique_ptr<W>& x) { return x->timeout < 0 || x->timeout >= 60000 || x->fd != -2; }); };
        while (!done() && mono() - t0 < 15) usleep(200);
        if (!done()) fail("a caller with a short timeout is still waiting after 15 s");
        if (c.flip()) usleep(2000);
    }
    std::set<int> used;
    auto served = [&] { return (int)std::count_if(w.begin(), w.end(), [](const std::unique_ptr<W>& x) { return x->fd >= 0; }); };
    auto gave_up = [&] { return (int)std::count_if(w.begin(), w.end(), [](const std::unique_ptr<W>& x) { return x->fd == -1; }); };
    auto waiting = [&] { return n - served() - gave_up(); };
    int before = 0;
    std::vector<bool> taken((size_t)n, false);
    while (waiting() > 0) {
        // return something: a connection held by us or by a served waiter
        int k = held.empty() ? -1 : (int)c.draw(held.size());
        if (k < 0) fail("no connection is lent while %d callers wait", waiting());
        int fd = held[(size_t)k];
        held.erase(held.begin() + k);
        bool ok = !c.chance(1, 3);
        c.note("return %s with %d waiting", ok ? "good" : "bad", waiting());
        mcp_connection_pool_release(pool, fd, ok);
        double t0 = mono();
        while (served() == before && waiting() > 0 && mono() - t0 < 20) usleep(50);
        if (served() == before && waiting() > 0) fail("a connection was returned (%s) 20 s ago and %d callers still wait", ok ? "good" : "bad", waiting());
        for (int i = 0; i < n; ++i) if (w[i]->fd >= 0 && !taken[(size_t)i]) { taken[(size_t)i] = true; held.push_back(w[i]->fd); }
        std::set<int> uniq(held.begin(), held.end());
        if (uniq.size() != held.size()) fail("one descriptor is lent twice");
        if (held.size() > max) fail("%zu connections are lent, the maximum is %zu", held.size(), max);
        for (int h : held) if (fcntl(h, F_GETFD) == -1) fail("a lent descriptor is closed");
        before = served();
    }
    for (auto& t : th) t.join();
    for (int i = 0; i < n; ++i) {
        int fd = w[i]->fd;
        if (fd >= 0 && !taken[(size_t)i]) held.push_back(fd);
        if (fd >= 0) continue;
        PBT_CHECK(w[i]->timeout > 0 && w[i]->timeout < 60000, "a caller that waits %s fails", w[i]->timeout < 0 ? "without limit" : "up to 60 s");
        PBT_CHECK(w[i]->took >= w[i]->timeout / 1000.0 - 0.003, "a caller with a timeout of %d ms gives up after %.1f ms", w[i]->timeout, w[i]->took * 1000);
        PBT_CHECK(w[i]->took < w[i]->timeout / 1000.0 + 10, "a caller with a timeout of %d ms gives up after %.1f s", w[i]->timeout, w[i]->took);
        c.label("gives up");
    }
    size_t total, idle, active;
    mcp_connection_pool_get_stats(pool, &total, &idle, &active, nullptr, nullptr);
    PBT_CHECK(active == held.size() && total == active + idle, "the pool reports total %zu, idle %zu, active %zu with %zu lent", total, idle, active, held.size());
    PBT_CHECK((size_t)g_peak <= max, "%d connections were open at once, the maximum is %zu", (int)g_peak, max);
    for (int fd : held) mcp_connection_pool_release(pool, fd, true);
    mcp_connection_pool_destroy(pool);
    c.nontrivial(served() > 0);
}

// A caller arrives while maintenance is in the middle of opening or closing a connection.
static void t_arrival(Case& c) {
    vt::freeze(1700000000);
    g_mode = 1;
    g_ticks = 0;
    g_seen = 0;
    g_go = false;
    g_paused = false;
    Peer s;
    bool opening = c.flip();
    size_t max = (size_t)c.range(1, 4);
    size_t min = opening ? max : (size_t)c.range(0, (int)max - 1);
    mcp_connection_pool_t* pool = mcp_connection_pool_create(s.host.c_str(), s.port, min, max, opening ? 0 : 2000, 2000, 0, 1);
    PBT_CHECK(pool, "the pool is not created");
    std::vector<int> held;
    for (size_t i = 0; i < max; ++i) {
        int fd = (int)mcp_connection_pool_get(pool, 0);
        PBT_CHECK(fd >= 0, "get fails with %zu of %zu lent", i, max);
        held.push_back(fd);
    }
    double t0 = mono();
    while (g_seen < 1 && mono() - t0 < 20) usleep(50);
    for (size_t back = (size_t)c.range(1, (int)max); back > 0; --back) {
        mcp_connection_pool_release(pool, held.back(), !opening);
        held.pop_back();
    }
    vt::advance(5);
    (opening ? g_pause_open : g_pause_close) = true;
    ++g_ticks;
    while (!g_paused && mono() - t0 < 20) std::this_thread::yield();
    PBT_CHECK(g_paused, "maintenance does not %s a connection", opening ? "open" : "close");
    vt::off(); // the caller's limit is real time
    int callers = c.range(1, 2);
    c.note("max=%zu min=%zu: %d callers arrive while maintenance is %s", max, min, callers, opening ? "opening" : "closing");
    std::atomic<int> got[2] = {{-2}, {-2}};
    std::vector<std::thread> th;
    for (int i = 0; i < callers; ++i) th.emplace_back([&, i] { got[i] = (int)mcp_connection_pool_get(pool, 15000); });
    auto first = [&] { for (int i = 0; i < callers; ++i) if (got[i] >= 0) return i; return -1; };
    t0 = mono();
    while (first() < 0 && mono() - t0 < 15) usleep(100);
    int f = first();
    if (f < 0) fail("%zu of %zu connections are lent, and a caller has waited for 15 s", held.size(), max);
    mcp_connection_pool_release(pool, got[f], c.flip()); // and the other one is next
    for (auto& t : th) t.join();
    for (int i = 0; i < callers; ++i) {
        PBT_CHECK(got[i] >= 0, "%zu of %zu connections are lent, and a caller got none in 15 s", held.size(), max);
        if (i != f) mcp_connection_pool_release(pool, got[i], true);
    }
    for (int fd : held) mcp_connection_pool_release(pool, fd, true);
    PBT_CHECK((size_t)g_peak <= max, "%d connections were open at once, the maximum is %zu", (int)g_peak, max);
    g_go = true;
    mcp_connection_pool_destroy(pool);
    PBT_CHECK(g_open == 0, "%d connections are left open by destroy", (int)g_open);
    c.nontrivial();
}

// Many users at once, with maintenance running all the time.
static void t_users(Case& c) {
    vt::freeze(1700000000);
    g_mode = 2;
    Peer s;
    size_t max = (size_t)c.range(1, 5), min = c.flip() ? 0 : (size_t)c.range(0, (int)max);
    int idle_s = c.flip() ? 0 : c.range(1, 3);
    bool hc = c.chance(1, 3);
    mcp_connection_pool_t* pool = mcp_connection_pool_create(s.host.c_str(), s.port, min, max, idle_s * 1000, 5000, hc ? 1000 : 0, 30000);
    PBT_CHECK(pool, "the pool is not created");
    int nt = c.range(2, 6), ops = c.range(5, 40);
    c.note("max=%zu min=%zu idle=%ds health=%d, %d users of %d rounds", max, min, idle_s, hc, nt, ops);
    static std::atomic<int> owner[kFds];
    for (auto& o : owner) o = 0;
    std::vector<std::vector<int>> plan((size_t)nt);
    for (auto& p : plan) for (int i = 0; i < ops; ++i) p.push_back((int)c.draw(64));
    std::atomic<bool> stop{false};
    std::atomic<long> lends{0}, none{0};
    bool hang = hc && c.flip(), clock = idle_s > 0;
    std::thread peer([&] {
        unsigned k = 0;
        while (!stop) {
            s.accept_all();
            ++k;
            if (hang && k % 20 == 0 && !s.ends.empty()) {
                auto it = s.ends.begin();
                std::advance(it, (long)(k / 20 % s.ends.size()));
                s.hang_up(it->first);
            }
            if (clock && k % 10 == 0) vt::advance(1);
            usleep(300);
        }
    });
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        for (int op : plan[(size_t)t]) {
            // the virtual clock moves, so a limit in milliseconds means little: wait without one
            int timeout = op % 4 == 0 ? 0 : -1;
            int fd = (int)mcp_connection_pool_get(pool, timeout);
            if (fd < 0) {
                if (timeout < 0) fail("a caller that waits without limit fails");
                ++none;
                continue;
            }
            ++lends;
            if (fd >= kFds || fcntl(fd, F_GETFD) == -1) fail("descriptor %d is lent but closed", fd);
            int was = owner[fd].exchange(t + 1);
            if (was) fail("descriptor %d is lent to user %d and to user %d", fd, was, t + 1);
            if ((size_t)g_peak > max) fail("%d connections are open, the maximum is %zu", (int)g_peak, max);
            if (op & 16) usleep((useconds_t)(op % 7) * 30);
            else if (op & 32) std::this_thread::yield();
            struct sockaddr_in a;
            socklen_t l = sizeof a;
            if (getpeername(fd, (struct sockaddr*)&a, &l) != 0 || ntohs(a.sin_port) != s.port) fail("descriptor %d, while lent, is no connection to the peer any more", fd);
            was = owner[fd].exchange(0);
            if (was != t + 1) fail("descriptor %d, lent to user %d, was lent to another", fd, t + 1);
            mcp_connection_pool_release(pool, fd, op % 5 != 0);
        }
    });
    for (auto& t : th) t.join();
    stop = true;
    peer.join();
    PBT_CHECK((size_t)g_peak <= max, "%d connections were open at once, the maximum is %zu", (int)g_peak, max);
    size_t total, idle, active;
    mcp_connection_pool_get_stats(pool, &total, &idle, &active, nullptr, nullptr);
    PBT_CHECK(active == 0 && total <= max, "with nothing lent the pool reports total %zu, idle %zu, active %zu", total, idle, active);
    double t0 = mono();
    size_t open = 0;
    for (;;) { // maintenance may be between closing and counting
        open = (size_t)g_open;
        mcp_connection_pool_get_stats(pool, &total, &idle, &active, nullptr, nullptr);
        if (total == open && idle == total) break;
        if (mono() - t0 > 15) fail("with nothing lent the pool reports total %zu, idle %zu; %zu are open", total, idle, open);
        usleep(500);
    }
    mcp_connection_pool_destroy(pool);
    PBT_CHECK(g_open == 0, "%d connections are left open by destroy", (int)g_open);
    vt::off();
    c.nontrivial(lends > nt);
    if (none) c.label("refused without waiting");
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P29";
    o.rule = "a history in which at least two of these happened: a get was refused, a dead idle connection was skipped or replaced, a connection was returned bad, or maintenance closed one; a waiting case in which a waiter was served; a run in which users were lent connections";
    o.tests = {{"history", t_history, 12000, 120000, 60, 100},
               {"waiters", t_waiters, 1500, 12000, 60, 50, 10},
               {"arrival", t_arrival, 300, 3000, 60, 50, 5},
               {"users", t_users, 1500, 12000, 60, 50, 20}};
    o.assumptions = {"loopback TCP; the listener's backlog is never full", "callers return what they were lent, once"};
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
