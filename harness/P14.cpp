// TECHNIQUE: property-based testing with fault injection: generated message sequences over a socket pair whose writes and reads are cut, interrupted and delayed at generated points; round trip of messages, and raw byte streams against a reference decoder
// NOTE: After a frame over the allowed size the stream is not usable any more; what a later batch read makes of the rest is not claimed.
// LINK: -Wl,--wrap=writev,--wrap=sendmsg,--wrap=send,--wrap=recv
#include "pbt.hpp"
#include "mcp.hpp"
#include "jval.hpp"
#include <sys/socket.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <atomic>
#include <thread>
extern "C" {
#include "mcp_framing.h"
#include "mcp_socket_utils.h"
}
using namespace pbt;

// ---- what a call on the socket may do: accept part only, be interrupted, or find no room
struct Faults { std::vector<uint8_t> script; size_t at = 0; size_t cap = 0; }; // per thread
static thread_local Faults* tf = nullptr;
static std::atomic<long> g_cut{0}, g_eintr{0};
// 0: nothing; else errno to report; *n reduced
static int disturb(size_t* n) {
    if (!tf || tf->script.empty()) return 0;
    uint8_t b = tf->script[tf->at++ % tf->script.size()];
    if (b >= 250) { g_eintr++; return b >= 253 ? EINTR : EAGAIN; }
    if (b >= 200) return 0;
    size_t c = 1 + (b < 60 ? b % 4 : b < 120 ? b : (size_t)b * b);
    if (c < *n) { *n = c; g_cut++; }
    return 0;
}
extern "C" {
ssize_t __real_send(int, const void*, size_t, int);
ssize_t __real_recv(int, void*, size_t, int);
ssize_t __real_sendmsg(int, const struct msghdr*, int);
ssize_t __real_writev(int, const struct iovec*, int);
ssize_t __wrap_send(int fd, const void* p, size_t n, int fl) {
    size_t m = n;
    if (int e = disturb(&m)) { errno = e; return -1; }
    return __real_send(fd, p, m, fl);
}
ssize_t __wrap_recv(int fd, void* p, size_t n, int fl) {
    size_t m = n;
    if (int e = disturb(&m)) { errno = e; return -1; }
    return __real_recv(fd, p, m, fl);
}
static std::vector<struct iovec> part(const struct iovec* v, size_t cnt, size_t n) {
    std::vector<struct iovec> o;
    for (size_t i = 0; i < cnt && n; i++) {
        struct iovec x = v[i];
        x.iov_len = std::min(x.iov_len, n);
        n -= x.iov_len;
        if (x.iov_len) o.push_back(x);
    }
    return o;
}
ssize_t __wrap_writev(int fd, const struct iovec* v, int cnt) {
    size_t all = 0;
    if (cnt <= 0 || cnt > 1024) { errno = EINVAL; return -1; }
    for (int i = 0; i < cnt; i++) all += v[i].iov_len;
    size_t m = all;
    if (int e = disturb(&m)) { errno = e; return -1; }
    if (m == all) return __real_writev(fd, v, cnt);
    auto o = part(v, (size_t)cnt, m);
    return __real_writev(fd, o.data(), (int)o.size());
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr* h, int fl) {
    size_t all = 0;
    if (h->msg_iovlen > 1024) { errno = EMSGSIZE; return -1; }
    for (size_t i = 0; i < h->msg_iovlen; i++) all += h->msg_iov[i].iov_len;
    size_t m = all;
    if (int e = disturb(&m)) { errno = e; return -1; }
    if (m == all) return __real_sendmsg(fd, h, fl);
    auto o = part(h->msg_iov, h->msg_iovlen, m);
    struct msghdr g = *h;
    g.msg_iov = o.data();
    g.msg_iovlen = o.size();
    return __real_sendmsg(fd, &g, fl);
}
}
static Faults gen_faults(Case& c) {
    Faults f;
    size_t kind = c.draw(4);
    for (size_t i = 0, n = kind == 0 ? 0 : 1 + c.small(0, 40); i < n; i++)
        f.script.push_back(kind == 1 ? (uint8_t)c.draw(60) : kind == 2 ? (uint8_t)c.draw(250) : (uint8_t)c.draw(256));
    if (!f.script.empty() && std::all_of(f.script.begin(), f.script.end(), [](uint8_t b) { return b >= 250; })) f.script[0] = 3;
    return f;
}
struct Pair {
    int a = -1, b = -1;
    Pair() {
        int v[2];
        PBT_CHECK(socketpair(AF_UNIX, SOCK_STREAM, 0, v) == 0, "socketpair failed");
        a = v[0];
        b = v[1];
    }
    void shut(int& f) { if (f >= 0) close(f); f = -1; }
    ~Pair() { shut(a); shut(b); }
};
static std::string gen_msg(Case& c) {
    switch (c.weighted({6, 2, 1, 1, 1})) {
    case 0: return c.bytes(1 + c.small(0, 200));
    case 1: return c.text(80);
    case 2: return "";
    case 3: return c.bytes(8).append(std::string(c.range(0, 9000), (char)c.draw(256)));
    default: { // bytes that look like frames
        std::string s;
        for (size_t i = 0, n = 1 + c.draw(4); i < n; i++) s += std::string("\0\0\0", 3) + (char)c.draw(6) + c.bytes(c.draw(6));
        return s;
    }
    }
}

// Messages written with the framing layer come out the same on the other side.
static void messages(Case& c) {
    std::vector<std::string> ms;
    struct Op { int kind; size_t from, n; };
    std::vector<Op> ops;
    size_t nops = 1 + c.small(0, 8);
    for (size_t i = 0; i < nops; i++) {
        Op o{(int)c.weighted({4, 3, 2, 2}), ms.size(), 1};
        if (o.kind == 1) o.n = c.chance(1, 40) ? c.range(500, 1300) : c.small(0, 12);
        for (size_t k = 0; k < o.n; k++) ms.push_back(o.n > 100 ? c.bytes(c.draw(3)) : gen_msg(c));
        ops.push_back(o);
    }
    Faults fs = gen_faults(c), fr = gen_faults(c);
    size_t total = 0;
    for (auto& m : ms) total += m.size();
    if (total > 3000) for (auto f : {&fs, &fr}) for (auto& b : f->script) if (b < 60 && c.chance(3, 4)) b = (uint8_t)(120 + b);
    bool batch_read = c.flip(), nonblock = c.chance(1, 4);
    uint32_t max = 1;
    for (auto& m : ms) max = std::max(max, (uint32_t)m.size());
    if (c.flip()) max += (uint32_t)c.draw(1000);
    c.note("%zu messages in %zu operations, %zu bytes, %s", ms.size(), nops, total, batch_read ? "read in batches" : "read singly");
    long cut0 = g_cut, ei0 = g_eintr;
    Pair p;
    if (nonblock) mcp_socket_set_non_blocking(p.a);
    // Each scattered or split message is written as its frame in pieces.
    std::vector<std::vector<size_t>> cuts;
    for (auto& o : ops) cuts.push_back(o.kind >= 2 ? c.cuts(ms[o.from].size() + 4, 6) : std::vector<size_t>());
    volatile bool stop = false;
    bool use_flag = c.flip();
    std::thread w([&] {
        tf = &fs;
        for (size_t i = 0; i < ops.size(); i++) {
            const Op& o = ops[i];
            volatile bool* sf = use_flag ? &stop : nullptr;
            if (o.kind == 0) {
                Exact e(ms[o.from]);
                PBT_CHECK(mcp_framing_send_message(p.a, ms[o.from].empty() ? nullptr : (const char*)e, (uint32_t)ms[o.from].size(), sf) == 0, "sending message %zu failed", o.from);
            } else if (o.kind == 1) {
                std::vector<std::unique_ptr<Exact>> keep;
                std::vector<const char*> ptr;
                std::vector<uint32_t> len;
                for (size_t k = 0; k < o.n; k++) {
                    keep.emplace_back(new Exact(ms[o.from + k]));
                    ptr.push_back(ms[o.from + k].empty() ? nullptr : (const char*)*keep.back());
                    len.push_back((uint32_t)ms[o.from + k].size());
                }
                PBT_CHECK(mcp_framing_send_batch(p.a, ptr.data(), len.data(), o.n, sf) == 0, "sending a batch of %zu messages failed", o.n);
            } else {
                uint32_t l = htonl((uint32_t)ms[o.from].size());
                std::string f((char*)&l, 4);
                f += ms[o.from];
                size_t at = 0;
                if (o.kind == 2) {
                    std::vector<std::unique_ptr<Exact>> keep;
                    std::vector<struct iovec> iov;
                    std::vector<mcp_socket_buffer_t> bufs;
                    for (size_t n : cuts[i]) { keep.emplace_back(new Exact(f.substr(at, n))); iov.push_back({(void*)(const char*)*keep.back(), n}); at += n; }
                    if (i % 2) {
                        PBT_CHECK(mcp_socket_send_vectors(p.a, iov.data(), (int)iov.size(), sf) == 0, "a vectored send failed");
                    } else { // with empty buffers in between
                        std::vector<const mcp_socket_buffer_t*> bp;
                        bufs.resize(iov.size() * 2);
                        for (size_t k = 0; k < iov.size(); k++) {
                            bufs[2 * k].buffer = (char*)iov[k].iov_base, bufs[2 * k].size = bufs[2 * k].used = iov[k].iov_len;
                            bufs[2 * k + 1].buffer = nullptr, bufs[2 * k + 1].size = bufs[2 * k + 1].used = 0;
                            bp.push_back(&bufs[2 * k]);
                            if (iov[k].iov_len % 2) bp.push_back(k % 2 ? nullptr : &bufs[2 * k + 1]);
                        }
                        PBT_CHECK(mcp_socket_send_batch(p.a, bp.data(), (int)bp.size(), sf) == 0, "a send of several buffers failed");
                    }
                } else
                    for (size_t n : cuts[i]) { PBT_CHECK(mcp_socket_send_exact(p.a, f.data() + at, n, sf) == 0, "send_exact failed"); at += n; }
            }
        }
        p.shut(p.a);
        tf = nullptr;
    });
    struct Join { std::thread& t; ~Join() { if (t.joinable()) t.join(); } } j{w};
    tf = &fr;
    size_t got = 0;
    size_t step = 1 + c.draw(6);
    while (got < ms.size()) {
        std::vector<char*> d(step, nullptr);
        std::vector<uint32_t> l(step, 77);
        size_t n = 1;
        int rc;
        if (batch_read) rc = mcp_framing_recv_batch(p.b, d.data(), l.data(), step, &n, max, use_flag ? &stop : nullptr);
        else rc = mcp_framing_recv_message(p.b, &d[0], &l[0], max, use_flag ? &stop : nullptr);
        PBT_CHECK(rc == 0 && n >= 1, "receiving message %zu failed", got);
        PBT_CHECK(n <= step && got + n <= ms.size(), "%zu messages from a batch read of at most %zu, %zu were left", n, step, ms.size() - got);
        for (size_t i = 0; i < n; i++, got++) {
            PBT_CHECK(l[i] == ms[got].size(), "message %zu has %u bytes, %zu were sent", got, l[i], ms[got].size());
            PBT_CHECK(!l[i] || !memcmp(d[i], ms[got].data(), l[i]), "message %zu arrived changed", got);
            if (l[i]) PBT_CHECK(d[i][l[i]] == 0, "no terminator after message %zu", got);
            free(d[i]);
        }
    }
    char* d = (char*)1;
    uint32_t l = 77;
    PBT_CHECK(mcp_framing_recv_message(p.b, &d, &l, max, nullptr) != 0 && !d && !l, "a message from a closed connection");
    tf = nullptr;
    w.join();
    c.nontrivial(ms.size() >= 2 && (g_cut != cut0 || g_eintr != ei0));
}

// A raw byte stream is read as exactly its complete, permitted frames, and then as an error.
static void raw(Case& c) {
    std::string s;
    std::vector<std::string> want;
    uint32_t max = (uint32_t)c.pick({1, 16, 100, 1000, 5000});
    bool broken = false;
    for (size_t i = 0, n = c.small(0, 8); i < n && !broken; i++) {
        std::string m = gen_msg(c);
        uint32_t len = (uint32_t)m.size();
        if (c.chance(1, 10)) len = c.pick({max, max + 1, max + 2, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu}), m.resize(std::min<size_t>(len, c.draw(max + 3)), 'x');
        uint32_t nl = htonl(len);
        s += std::string((char*)&nl, 4) + m;
        if (len > max || m.size() < len) broken = true;
        else want.push_back(m);
    }
    if (!broken && c.flip()) { // ends inside a frame
        uint32_t nl = htonl((uint32_t)(1 + c.draw(max)));
        std::string f = std::string((char*)&nl, 4) + c.bytes(ntohl(nl));
        s += f.substr(0, c.draw(f.size()));
    }
    Faults fr = gen_faults(c);
    Pair p;
    auto pieces = c.cuts(s.size(), 5);
    std::thread w([&] {
        size_t at = 0;
        for (size_t n : pieces) {
            size_t e = at + n;
            while (at < e) {
                ssize_t k = __real_send(p.a, s.data() + at, e - at, MSG_NOSIGNAL);
                if (k <= 0) { at = e; break; }
                at += (size_t)k;
            }
        }
        p.shut(p.a);
    });
    struct Join { std::thread& t; int fd; ~Join() { shutdown(fd, SHUT_RDWR); if (t.joinable()) t.join(); } } j{w, p.b};
    bool batch = c.flip();
    size_t step = 1 + c.draw(5), got = 0;
    tf = &fr;
    c.note("%zu frames of %zu bytes in %zu pieces, limit %u%s", want.size(), s.size(), pieces.size(), max, broken ? ", last one broken" : "");
    bool ended = false;
    while (!ended) {
        std::vector<char*> d(step, nullptr);
        std::vector<uint32_t> l(step, 77);
        size_t n = 1;
        int rc;
        if (batch) rc = mcp_framing_recv_batch(p.b, d.data(), l.data(), step, &n, max, nullptr);
        else { d[0] = (char*)1; rc = mcp_framing_recv_message(p.b, &d[0], &l[0], max, nullptr); if (rc) { PBT_CHECK(!d[0] && !l[0], "a failed read left a message behind"); n = 0; } }
        if (rc) { PBT_CHECK(!batch || n == 0, "a failed batch read has messages"); ended = true; }
        PBT_CHECK(got + n <= want.size(), "message %zu was read from a stream with %zu complete messages", got + n, want.size());
        for (size_t i = 0; i < n; i++, got++) {
            PBT_CHECK(l[i] == want[got].size() && (!l[i] || !memcmp(d[i], want[got].data(), l[i])), "message %zu was read differently", got);
            free(d[i]);
        }
        if (broken && got == want.size() && batch) break; // the batch may have ended at the broken frame
    }
    PBT_CHECK(got == want.size(), "%zu of %zu messages were read", got, want.size());
    tf = nullptr;
    c.nontrivial(want.size() >= 1 && s.size() > 8);
    if (broken) c.label("broken");
}

// Sending to a peer that has gone is an error, never a success or the end of the process.
static void gone(Case& c) {
    std::string m = c.bytes(c.small(0, 3000)) + "x";
    size_t n = 1 + c.draw(5);
    int how = (int)c.draw(4);
    Faults fs = gen_faults(c);
    Pair p;
    bool stop_set = c.chance(1, 4);
    volatile bool stop = stop_set;
    if (!stop_set) p.shut(p.b);
    tf = &fs;
    std::vector<const char*> ptr(n, m.data());
    std::vector<uint32_t> len(n, (uint32_t)m.size());
    int rc = 0;
    switch (how) {
    case 0: rc = mcp_framing_send_message(p.a, m.data(), (uint32_t)m.size(), &stop); break;
    case 1: rc = mcp_framing_send_batch(p.a, ptr.data(), len.data(), n, &stop); break;
    case 2: rc = mcp_socket_send_exact(p.a, m.data(), m.size(), &stop); break;
    default: {
        char* d = (char*)1;
        uint32_t l = 9;
        rc = mcp_framing_recv_message(p.a, &d, &l, 1000, &stop);
        PBT_CHECK(!d && !l, "a message out of nothing");
    }
    }
    tf = nullptr;
    static const char* H[] = {"send_message", "send_batch", "send_exact", "recv_message"};
    c.note("%s, %s", H[how], stop_set ? "stop flag set" : "peer gone");
    PBT_CHECK(rc != 0, "%s %s reported success", H[how], stop_set ? "with the stop flag set" : "with the peer gone");
    c.nontrivial();
}

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}
static void waits(Case& c) {
    static const char* E[] = {"nothing happens", "data arrive", "the peer goes", "the stop flag is set"};
    int what = (int)c.weighted({3, 2, 1, 1});
    bool before = c.chance(1, 3); // already so when the wait begins
    int after_ms = (int)c.small(0, 60);
    int limit = what == 0 ? (c.chance(1, 4) ? 0 : (int)c.range(1, 900)) : c.flip() ? -1 : 60000;
    Pair p;
    volatile bool stop = false;
    c.note("%s %s, limit %d ms", E[what], what == 0 ? "" : before ? "at once" : "meanwhile", limit);
    auto happen = [&] {
        char b = 'x';
        if (what == 1 && __real_send(p.b, &b, 1, 0) != 1) _exit(3);
        if (what == 2) p.shut(p.b);
        if (what == 3) stop = true;
    };
    if (before) happen();
    std::thread th([&] { if (!before) { usleep((useconds_t)after_ms * 1000); happen(); } });
    double t0 = now();
    int rc = mcp_socket_wait_readable(p.a, limit, c.flip() || what == 3 ? &stop : nullptr);
    double took = now() - t0;
    th.join();
    PBT_CHECK(took < 15 + (limit > 0 && what == 0 ? limit / 1e3 : 0), "the wait took %.1f s", took);
    if (what == 0) {
        PBT_CHECK(rc == 0, "a wait for a silent socket returned %d", rc);
        PBT_CHECK(took * 1000 >= limit - 20, "a wait of %d ms ended after %.0f ms", limit, took * 1000);
    } else if (what == 1) PBT_CHECK(rc == 1, "data arrived, the wait returned %d", rc);
    else if (what == 2) PBT_CHECK(rc != 0, "the peer went, the wait timed out");
    else PBT_CHECK(rc == -1, "a stopped wait returned %d", rc);
    c.nontrivial(limit != 0);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P14";
    o.rule = "messages: at least two messages and at least one socket call was cut short or interrupted; raw: at least one complete frame; gone: always; waits: with a time limit or an event";
    o.assumptions = {"the socket itself delivers bytes in order and unchanged", "a batch read that ends at a frame over the limit is not followed by further reads"};
    o.worker_init = [] { quiet_logs(); signal(SIGPIPE, SIG_DFL); };
    o.tests = {{"messages", messages, 120000, 2000000}, {"raw", raw, 120000, 2000000}, {"gone", gone, 20000, 200000}, {"waits", waits, 250, 2500}};
    return run(argc, argv, o);
}
