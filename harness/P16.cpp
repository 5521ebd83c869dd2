// TECHNIQUE: property-based testing of the stdio transport in a child process: generated frame sequences in generated pieces on its standard input, with bad lengths and truncation; oracle: reference frame decoder for deliveries, exact frame sequence on standard output
// NOTE: The transport runs in a forked child with pipes as standard input and output. Stopping a transport whose input is open and silent is not claimed to be prompt: the reader is blocked in a read.
// SHIM: srv_shim.c
#include "srv.hpp"
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <mutex>
#include <thread>
extern "C" {
#include "mcp_stdio_transport.h"
#include "mcp_memory_pool.h"
#include "mcp_thread_local.h"
}
using namespace pbt;

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}
static const size_t kMax = 1024 * 1024;
static void frame(std::string& out, const std::string& b) {
    uint32_t n = htonl((uint32_t)b.size());
    out.append((char*)&n, 4);
    out += b;
}
static bool unframe(const std::string& s, std::vector<std::string>* v) {
    size_t i = 0;
    while (i < s.size()) {
        uint32_t n;
        if (s.size() - i < 4) return false;
        memcpy(&n, s.data() + i, 4);
        n = ntohl(n);
        i += 4;
        if (s.size() - i < n) return false;
        v->push_back(s.substr(i, n));
        i += n;
    }
    return true;
}
static void write_all(int fd, const char* p, size_t n) {
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return;
        p += k;
        n -= (size_t)k;
    }
}

// A child process with its own standard input and output, a log pipe back to us and a control pipe to it.
struct Child {
    pid_t pid = -1;
    int in = -1, out = -1, log = -1, ctl = -1;
    std::string got_out, got_log;
    bool out_eof = false, log_eof = false;
    void start(const std::function<int(int log, int ctl)>& body) {
        int a[2], b[2], l[2], k[2];
        PBT_CHECK(pipe2(a, O_CLOEXEC) == 0 && pipe2(b, O_CLOEXEC) == 0 && pipe2(l, O_CLOEXEC) == 0 && pipe2(k, O_CLOEXEC) == 0, "pipe: %s", strerror(errno));
        pid = fork();
        PBT_CHECK(pid >= 0, "fork: %s", strerror(errno));
        if (pid == 0) {
            dup2(a[0], 0);
            dup2(b[1], 1);
            close(a[1]); close(b[0]); close(l[0]); close(k[1]);
            alarm(60);
            int rc = body(l[1], k[0]);
            _exit(rc);
        }
        close(a[0]); close(b[1]); close(l[1]); close(k[0]);
        in = a[1]; out = b[0]; log = l[0]; ctl = k[1];
        fcntl(in, F_SETFL, O_NONBLOCK);
        fcntl(out, F_SETFL, O_NONBLOCK);
        fcntl(log, F_SETFL, O_NONBLOCK);
    }
    void drain(int& fd, std::string& to, bool& eof) {
        static char buf[65536];
        while (fd >= 0) {
            ssize_t n = read(fd, buf, sizeof buf);
            if (n > 0) { to.append(buf, (size_t)n); continue; }
            if (n == 0) { eof = true; close(fd); fd = -1; }
            return;
        }
    }
    void pump() { drain(out, got_out, out_eof); drain(log, got_log, log_eof); }
    // false: the child does not take it
    bool feed(const std::string& s) {
        size_t at = 0;
        double t0 = now();
        while (at < s.size()) {
            ssize_t n = write(in, s.data() + at, s.size() - at);
            if (n > 0) { at += (size_t)n; continue; }
            if (n < 0 && errno == EAGAIN) {
                pump();
                struct pollfd p[2] = {{in, POLLOUT, 0}, {out, POLLIN, 0}};
                poll(p, 2, 20);
                if (now() - t0 > 3) return false;
                continue;
            }
            return false;
        }
        return true;
    }
    void wait_for(const std::function<bool()>& f, double secs) {
        double t0 = now();
        while (!f() && now() - t0 < secs) {
            pump();
            if (f()) return;
            struct pollfd p[2] = {{out, POLLIN, 0}, {log, POLLIN, 0}};
            if (out < 0 && log < 0) { usleep(300); if (out_eof && log_eof) return; }
            else poll(p, 2, 10);
        }
    }
    void close_in() { if (in >= 0) close(in); in = -1; }
    void tell(char c) { write_all(ctl, &c, 1); }
    int finish() { // exit status, or -1
        if (pid <= 0) return -1;
        double t0 = now();
        int st = 0;
        for (;;) {
            pump();
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) { pid = -1; pump(); return st; }
            if (now() - t0 > 15) return -1;
            usleep(200);
        }
    }
    ~Child() {
        if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); }
        for (int fd : {in, out, log, ctl}) if (fd >= 0) close(fd);
    }
};
static std::string status(int st) {
    if (st == -1) return "did not end within 15 s";
    if (WIFSIGNALED(st)) return fmt("ended by signal %d", WTERMSIG(st));
    return fmt("exit code %d", WEXITSTATUS(st));
}

struct Plan {
    std::vector<std::string> msgs; // those that are to be delivered
    std::vector<std::pair<bool, std::string>> replies;
    std::vector<std::string> extra[2]; // sent by two other threads meanwhile
    bool vectored = false, pool = false;
    std::string input;
    bool bad = false, cut = false, after = false;
};
static Plan g_plan;
static int g_log;
static std::atomic<size_t> g_at{0};
static char* on_message(void* ud, const void* data, size_t size, int* err) {
    (void)ud;
    if (err) *err = 0;
    std::string s;
    frame(s, std::string((const char*)data, size));
    write_all(g_log, s.data(), s.size());
    size_t i = g_at++;
    if (((const char*)data)[size] != 0) _exit(77); // not terminated
    if (i >= g_plan.replies.size() || !g_plan.replies[i].first) return nullptr;
    return strdup(g_plan.replies[i].second.c_str());
}
static std::string body_text(Case& c) {
    size_t n;
    switch (c.weighted({10u, 4u, 2u, 1u})) {
    case 0: n = 1 + c.draw(40); break;
    case 1: n = 1 + c.draw(2000); break;
    case 2: n = 60000 + c.draw(12000); break;
    default: n = c.chance(1, 3) ? kMax - c.draw(2) : 1 + c.draw(300000); break;
    }
    std::string s;
    unsigned x = (unsigned)c.draw(100000);
    for (size_t i = 0; i < n; i++) s += (char)((x + i * 13 + i / 97) % 256);
    if (c.flip()) for (auto& ch : s) ch = (char)(32 + (unsigned char)ch % 95);
    return s;
}
static void gen_frames(Case& c, Plan& p) {
    size_t n = c.small(0, 8);
    for (size_t i = 0; i < n; i++) {
        p.msgs.push_back(body_text(c));
        frame(p.input, p.msgs.back());
    }
    switch (c.weighted({4u, 2u, 2u})) {
    case 0: break;
    case 1: {
        uint32_t bl = htonl(c.pick({0u, 0u, (unsigned)kMax + 1, 0x7fffffffu, 0x80000000u, 0xffffffffu}));
        p.input.append((char*)&bl, 4);
        p.bad = true;
        c.label("bad length");
        if (c.chance(2, 3)) {
            p.after = true;
            for (size_t k = 1 + c.draw(3); k--;) frame(p.input, "after " + std::string(c.draw(200), 'a'));
        }
        break;
    }
    default: {
        std::string f;
        frame(f, "cut " + body_text(c).substr(0, 5000));
        f.resize(1 + c.draw(f.size() - 1));
        p.input += f;
        p.cut = true;
        c.label("cut frame");
    }
    }
}
static std::vector<size_t> pieces(Case& c, size_t total) {
    std::vector<size_t> v;
    for (size_t k = c.small(0, 10); k-- && total > 1;) v.push_back(c.chance(1, 3) ? std::min(total - 1, (size_t)1 + c.draw(10)) : 1 + c.draw(total - 1));
    v.push_back(total);
    std::sort(v.begin(), v.end());
    return v;
}

static void serving(Case& c) {
    Plan p;
    gen_frames(c, p);
    for (size_t i = 0; i < p.msgs.size(); i++) {
        std::string r;
        bool has = true;
        switch (c.weighted({8u, 2u, 1u, 2u, 1u})) {
        case 0: r = fmt("reply %zu ", i) + std::string(c.draw(100), 'r'); break;
        case 1: has = false; break;
        case 2: break;
        case 3: r = fmt("reply %zu ", i) + std::string(c.draw(70000), 'R'); break;
        default: r = std::string(c.chance(1, 2) ? kMax : c.chance(1, 2) ? kMax + 1 : 1 + c.draw(400000), 'L'); break;
        }
        p.replies.push_back({has, r});
    }
    if (c.chance(1, 3)) {
        p.vectored = c.flip();
        for (auto& e : p.extra) for (size_t k = c.draw(8), i = 0; i < k; i++) e.push_back(fmt("extra %d %zu ", (int)(&e - p.extra), i) + std::string(c.draw(4000), (char)('0' + (&e - p.extra))));
        c.label("other senders");
    }
    p.pool = c.chance(1, 6);
    int end = (int)c.draw(3); // 0: end of input, then destroy; 1: destroy at once after the input; 2: stop, stop, destroy
    g_plan = p;
    g_at = 0;
    Child ch;
    ch.start([&](int log, int ctl) {
        g_log = log;
        if (g_plan.pool) mcp_memory_pool_system_init(16, 8, 4);
        mcp_transport_t* t = mcp_transport_stdio_create();
        if (!t) return 70;
        if (mcp_transport_start(t, on_message, nullptr, nullptr) != 0) return 71;
        std::vector<std::thread> th;
        for (auto& e : g_plan.extra) if (!e.empty()) th.emplace_back([&e, t] {
            for (auto& s : e) {
                size_t h = s.size() / 2;
                mcp_buffer_t b[3] = {{s.data(), h}, {nullptr, 0}, {s.data() + h, s.size() - h}};
                if ((g_plan.vectored ? mcp_transport_sendv(t, b, 3) : mcp_transport_send(t, s.data(), s.size())) != 0) _exit(72);
            }
        });
        for (auto& x : th) x.join();
        write_all(log, "\xff\xff\xff\xff", 0);
        char cmd = 0;
        if (read(ctl, &cmd, 1) != 1) return 73;
        if (cmd == 's') { mcp_transport_stop(t); mcp_transport_stop(t); }
        mcp_transport_destroy(t);
        return 0;
    });
    auto cuts = pieces(c, p.input.size());
    size_t at = 0;
    bool took = true;
    for (size_t e : cuts) {
        if (e > at) took = took && ch.feed(p.input.substr(at, e - at));
        at = std::max(at, e);
        if (c.chance(1, 6)) { ch.pump(); usleep(100); }
    }
    PBT_CHECK(took || p.after, "the transport stopped reading well-formed input");
    size_t want_log = 0, want_out = 0;
    for (auto& m : p.msgs) want_log += 4 + m.size();
    for (auto& r : p.replies) if (r.first && !r.second.empty() && r.second.size() <= kMax) want_out += 4 + r.second.size();
    for (auto& e : p.extra) for (auto& s : e) want_out += 4 + s.size();
    if (end == 0 || c.flip()) ch.close_in();
    ch.wait_for([&] { return ch.got_log.size() >= want_log && ch.got_out.size() >= want_out; }, 12);
    if (p.after) usleep(1500);
    ch.close_in(); // a blocked reader ends
    ch.tell(end == 2 ? 's' : 'd');
    int st = ch.finish();
    PBT_CHECK(st == 0, "the process with the transport %s", status(st).c_str());
    std::vector<std::string> del, out;
    PBT_CHECK(unframe(ch.got_log, &del), "harness log");
    for (size_t i = 0; i < std::min(del.size(), p.msgs.size()); i++)
        PBT_CHECK(del[i] == p.msgs[i], "message %zu of %zu bytes was delivered as %zu bytes %s", i, p.msgs[i].size(), del[i].size(), esc(del[i].substr(0, 60)).c_str());
    PBT_CHECK(del.size() <= p.msgs.size(), "%zu messages delivered but %zu sent; the first too many is %s", del.size(), p.msgs.size(), esc(del[p.msgs.size()].substr(0, 60)).c_str());
    PBT_CHECK(del.size() == p.msgs.size(), "only %zu of %zu messages were delivered", del.size(), p.msgs.size());
    PBT_CHECK(unframe(ch.got_out, &out), "the output is not a sequence of whole frames (%zu bytes): %s", ch.got_out.size(), esc(ch.got_out.substr(0, 80)).c_str());
    std::vector<std::string> want;
    for (auto& r : p.replies) if (r.first && !r.second.empty() && r.second.size() <= kMax) want.push_back(r.second);
    std::vector<std::string> rep, ex[2];
    for (auto& o : out) {
        if (o.rfind("extra 0", 0) == 0) ex[0].push_back(o);
        else if (o.rfind("extra 1", 0) == 0) ex[1].push_back(o);
        else rep.push_back(o);
    }
    PBT_CHECK(rep == want, "%zu replies on standard output instead of %zu, or others", rep.size(), want.size());
    PBT_CHECK(ex[0] == p.extra[0] && ex[1] == p.extra[1], "messages sent by other threads: %zu and %zu instead of %zu and %zu, or altered", ex[0].size(), ex[1].size(), p.extra[0].size(), p.extra[1].size());
    c.nontrivial(p.msgs.size() >= 2 || (p.msgs.size() && (p.bad || p.cut)));
    c.note("%zu messages%s%s, %zu pieces", p.msgs.size(), p.bad ? ", bad length" : "", p.cut ? ", cut" : "", cuts.size());
}

// ---- used by a client: synchronous receive
static void receiving(Case& c) {
    Plan p;
    gen_frames(c, p);
    if (p.input.size() > 900000) { p = Plan(); frame(p.input, "x"); p.msgs = {"x"}; }
    // groups of whole frames are written before each series of receives
    struct Step { size_t upto; size_t receives; unsigned timeout; bool expect_timeout; };
    std::vector<Step> steps;
    std::vector<size_t> ends;
    size_t e = 0;
    for (auto& m : p.msgs) { e += 4 + m.size(); ends.push_back(e); }
    size_t done = 0;
    while (done < p.msgs.size()) {
        if (c.chance(1, 8)) steps.push_back({0, 0, (unsigned)c.draw(8), true});
        size_t k = 1 + c.draw(p.msgs.size() - done);
        steps.push_back({ends[done + k - 1], k, c.chance(1, 4) ? UINT32_MAX : c.chance(1, 3) ? 0u : 5000u, false});
        done += k;
    }
    Child ch;
    ch.start([&](int log, int ctl) {
        mcp_transport_t* t = mcp_transport_stdio_create();
        if (!t) return 70;
        auto one = [&](unsigned timeout) {
            char* d = nullptr;
            size_t n = 0;
            int rc = mcp_transport_receive(t, &d, &n, timeout);
            std::string s;
            frame(s, rc == 0 ? "M" + std::string(d, n) : fmt("E%d", rc));
            if (rc == 0 && d[n] != 0) _exit(77);
            if (rc != 0 && d) _exit(78);
            free(d);
            write_all(log, s.data(), s.size());
        };
        char cmd = 0;
        for (auto& st : steps) {
            if (read(ctl, &cmd, 1) != 1) return 73;
            if (st.expect_timeout) one(st.timeout);
            for (size_t i = 0; i < st.receives; i++) one(st.timeout);
        }
        if (read(ctl, &cmd, 1) != 1) return 73;
        one(5000);
        mcp_transport_destroy(t);
        return 0;
    });
    fcntl(ch.in, F_SETPIPE_SZ, 1 << 20);
    size_t at = 0, count = 0;
    auto logged = [&] { std::vector<std::string> v; unframe(ch.got_log, &v); return v.size(); };
    for (auto& s : steps) {
        if (s.upto > at) { PBT_CHECK(ch.feed(p.input.substr(at, s.upto - at)), "input not taken"); at = s.upto; }
        ch.tell('g');
        count += s.receives + (s.expect_timeout ? 1 : 0);
        ch.wait_for([&] { return logged() >= count; }, 12);
        PBT_CHECK(logged() >= count, "%zu receives had returned, of %zu, though the frames were there", logged(), count);
    }
    if (p.input.size() > at) ch.feed(p.input.substr(at));
    ch.close_in();
    ch.tell('g');
    int st = ch.finish();
    PBT_CHECK(st == 0, "the process with the transport %s", status(st).c_str());
    std::vector<std::string> got, want;
    PBT_CHECK(unframe(ch.got_log, &got), "harness log");
    size_t m = 0;
    for (auto& s : steps) {
        if (s.expect_timeout) want.push_back("E-2");
        for (size_t i = 0; i < s.receives; i++) want.push_back("M" + p.msgs[m++]);
    }
    want.push_back("E-1");
    for (size_t i = 0; i < std::min(got.size(), want.size()); i++)
        PBT_CHECK(got[i] == want[i], "receive %zu gave %s instead of %s", i, esc(got[i].substr(0, 50)).c_str(), esc(want[i].substr(0, 50)).c_str());
    PBT_CHECK(got.size() == want.size(), "%zu results instead of %zu", got.size(), want.size());
    c.nontrivial(p.msgs.size() >= 2);
    c.note("%zu messages in %zu groups", p.msgs.size(), steps.size());
}

// ---- a server behind it
static void server(Case& c) {
    size_t n = 1 + c.draw(6);
    std::vector<std::string> ids;
    std::string input;
    std::vector<std::string> want;
    for (size_t i = 0; i < n; i++) {
        uint64_t id = 1 + i * 1000 + c.draw(1000);
        std::string tok = c.ident(1, 30);
        frame(input, fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"call_tool\",\"params\":{\"name\":\"even\",\"arguments\":{\"token\":\"%s\"}}}", (unsigned long long)id, tok.c_str()));
        want.push_back(fmt("%llu even|%s", (unsigned long long)id, tok.c_str()));
    }
    Child ch;
    ch.start([&](int log, int ctl) {
        (void)log;
        mcp_server_config_t cfg;
        memset(&cfg, 0, sizeof cfg);
        cfg.name = "s"; cfg.version = "1";
        cfg.max_message_size = 1 << 20;
        mcp_server_capabilities_t cap = {true, true};
        mcp_server_t* s = mcp_server_create(&cfg, &cap);
        if (!s) return 70;
        Srv me;
        mcp_server_set_tool_handler(s, Srv::on_call, &me);
        mcp_tool_t* tool = mcp_tool_create("even", "d");
        if (mcp_server_add_tool(s, tool) != 0) return 71;
        mcp_tool_free(tool);
        mcp_transport_t* t = mcp_transport_stdio_create();
        if (!t || mcp_server_start(s, t) != 0) return 72;
        char cmd = 0;
        if (read(ctl, &cmd, 1) != 1) return 73;
        mcp_server_stop(s);
        mcp_server_destroy(s);
        return 0;
    });
    PBT_CHECK(ch.feed(input), "input not taken");
    auto frames = [&] { std::vector<std::string> v; unframe(ch.got_out, &v); return v.size(); };
    ch.wait_for([&] { return frames() >= n; }, 12);
    ch.close_in();
    ch.tell('g');
    int st = ch.finish();
    std::vector<std::string> out;
    PBT_CHECK(unframe(ch.got_out, &out), "the output is not a sequence of whole frames");
    PBT_CHECK(out.size() == n, "%zu answers to %zu requests", out.size(), n);
    for (size_t i = 0; i < n; i++) {
        J j;
        PBT_CHECK(jparse(out[i], j) == 1, "answer %zu is not JSON: %s", i, esc(out[i]).c_str());
        std::string idtext = want[i].substr(0, want[i].find(' ')), text = want[i].substr(want[i].find(' ') + 1);
        PBT_CHECK(out[i].find("\"id\":" + idtext) != std::string::npos && out[i].find(text) != std::string::npos, "answer %zu is %s, expected %s", i, esc(out[i]).c_str(), want[i].c_str());
    }
    PBT_CHECK(st == 0, "the server process %s", status(st).c_str());
    c.nontrivial();
    c.note("%zu requests", n);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P16";
    o.rule = "serving: two or more messages, or one before a bad or cut frame; receiving: two or more messages; server: every case";
    o.assumptions = {"standard input and output are pipes", "stopping is done after the input has been closed or its frames have been handled"};
    o.worker_init = [] { quiet_logs(); };
    o.tests = {
        {"serving", serving, 8000, 80000, 60, 100, 10},
        {"receiving", receiving, 4000, 40000, 60, 100, 10},
        {"server", server, 400, 4000, 60, 10, 10},
    };
    return run(argc, argv, o);
}
