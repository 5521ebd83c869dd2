// TECHNIQUE: randomised concurrent histories of messages against a stopping server: slow handlers, late, oversized and rate-limited messages; oracle over recorded start and end times of handlers, answers and the stop call
// NOTE: Fake transport, so that messages can be offered at any moment of the stop. Bounds on promptness are generous (10 s against a shutdown timeout of 60 s).
// SHIM: srv_shim.c
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <time.h>
#include <unistd.h>
#include "srv.hpp"
extern "C" {
#include "mcp_thread_local.h"
}
using namespace pbt;

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}
struct World {
    std::mutex m;
    std::condition_variable cv;
    int entered = 0, running = 0;
    bool release = false;
    std::atomic<int> stop_called{0};
    std::atomic<double> stop_seen{1e18};
    static mcp_error_code_t on_call(mcp_server_t*, const char* name, const mcp_json_t*, void* ud, mcp_content_item_t*** content, size_t* n, bool* is_error, char**) {
        World* w = (World*)ud;
        std::string s = name; // hold | wait:<us>:tok
        {
            std::unique_lock<std::mutex> l(w->m);
            w->entered++;
            w->running++;
            w->cv.notify_all();
            if (s[0] == 'h') w->cv.wait(l, [&] { return w->release; });
        }
        if (size_t p = s.find(':'); p != std::string::npos) usleep((unsigned)atoi(s.c_str() + p + 1));
        *is_error = false;
        mk_content({mk_item(MCP_CONTENT_TYPE_TEXT, "", "done " + s)}, content, n);
        std::lock_guard<std::mutex> l(w->m);
        w->running--;
        return MCP_ERROR_NONE;
    }
    static void on_stop(void* ud) { ((World*)ud)->stop_called = 1; }
};
static mcp_server_t* open(World& w, mcp_transport_t** t, uint32_t timeout, size_t maxmsg, size_t rate) {
    mcp_server_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.name = "srv";
    cfg.version = "1";
    cfg.thread_pool_size = 1;
    cfg.task_queue_size = 4;
    cfg.graceful_shutdown_timeout_ms = timeout;
    cfg.max_message_size = maxmsg;
    if (rate) { cfg.rate_limit_window_seconds = 100000; cfg.rate_limit_max_requests = rate; cfg.rate_limit_capacity = 16; }
    mcp_server_capabilities_t cap = {true, true};
    mcp_server_t* s = mcp_server_create(&cfg, &cap);
    PBT_CHECK(s, "server creation failed");
    mcp_server_set_tool_handler(s, World::on_call, &w);
    *t = fake_server_new(World::on_stop, &w);
    PBT_CHECK(mcp_server_start(s, *t) == 0, "server start failed");
    return s;
}
static std::string msg(const std::string& tool, uint64_t id, size_t pad = 0) {
    return fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"call_tool\",\"params\":{\"name\":\"%s\",\"arguments\":{\"p\":\"", (unsigned long long)id, tool.c_str()) +
           std::string(pad, 'p') + "\"}}}";
}
enum Out { Answered, Refused, Oversize, Limited };
static Out ask(mcp_transport_t* t, const std::string& tool, uint64_t id, size_t pad = 0) {
    std::string m = msg(tool, id, pad);
    int err = 0;
    Exact x(m);
    char* r = fake_server_deliver(t, x.p, m.size(), &err);
    if (!r) {
        if (err == MCP_ERROR_SERVER_SHUTTING_DOWN) return Refused;
        if (err == MCP_ERROR_INVALID_REQUEST) return Oversize;
        if (err == MCP_ERROR_TOO_MANY_REQUESTS) return Limited;
        fail("message %llu was neither answered nor refused (error %d)", (unsigned long long)id, err);
    }
    J j;
    int depth;
    if (jparse(r, j, &depth) != 1 || j.t != J::Obj || !j.o.count("id") || j.o["id"].n != (double)id || !j.o.count("result") ||
        std::string(r).find("done " + tool) == std::string::npos)
        fail("accepted message %llu was not answered in full: %s", (unsigned long long)id, esc(r).c_str());
    free(r);
    return Answered;
}

// Threads send while the server is stopped.
static void stopping(Case& c) {
    World w;
    mcp_transport_t* t;
    size_t maxmsg = c.chance(1, 3) ? 4096 : 0;
    mcp_server_t* s = open(w, &t, 60000, maxmsg, 0);
    unsigned nth = (unsigned)c.range(1, 8);
    std::vector<std::vector<int>> scripts(nth);
    for (auto& v : scripts) {
        int k = (int)c.small(1, 12);
        for (int i = 0; i < k; i++) v.push_back(c.chance(1, 5) ? -1 : (int)c.draw(400)); // -1: oversized
    }
    unsigned delay = (unsigned)c.draw(1500);
    bool two_stops = c.chance(1, 6);
    c.note("%u threads, stop after %u us", nth, delay);
    std::atomic<int> ans{0}, ref{0}, over{0};
    std::atomic<bool> stop_ret{false};
    std::vector<std::thread> th;
    for (unsigned i = 0; i < nth; i++)
        th.emplace_back([&, i] {
            mcp_arena_init_current_thread(1 << 16);
            uint64_t id = 1 + i * 1000;
            for (int us : scripts[i]) {
                bool after = w.stop_called.load() != 0; // the stop had been requested before this message
                bool big = us < 0 && maxmsg;
                std::string tool = fmt("wait:%d:t%u", us < 0 ? 0 : us, i);
                Out o = ask(t, tool, id++, big ? 5000 : 0);
                if (after) PBT_CHECK(o == Refused, "a message sent after the stop was requested was not refused");
                if (big) PBT_CHECK(o == Oversize || o == Refused, "an oversized message was not refused");
                else PBT_CHECK(o == Answered || o == Refused, "a message was refused for a wrong reason");
                (o == Answered ? ans : o == Refused ? ref : over)++;
                mcp_arena_reset_current_thread();
            }
            mcp_arena_destroy_current_thread();
        });
    usleep(delay);
    double t0 = now();
    PBT_CHECK(mcp_server_stop(s) == 0, "stop failed");
    double el = now() - t0;
    {
        std::lock_guard<std::mutex> l(w.m);
        PBT_CHECK(w.running == 0, "stop returned while %d accepted messages were still being processed", w.running);
    }
    PBT_CHECK(el < 10, "stop took %.1f s though every message took less than a millisecond", el);
    PBT_CHECK(ask(t, "wait:0:x", 999999) == Refused, "a stopped server accepted a message");
    if (two_stops) PBT_CHECK(mcp_server_stop(s) == 0, "stopping twice failed");
    for (auto& x : th) x.join();
    mcp_server_destroy(s);
    mcp_transport_destroy(t);
    c.nontrivial(ans > 0 && ref > 0);
    if (ans > 0 && ref > 0) c.label("some answered, some refused");
    if (over) c.label("oversized messages");
}

// Messages that are in progress when the stop is requested.
static void in_flight(Case& c) {
    World w;
    mcp_transport_t* t;
    bool over = c.flip(), rate = c.chance(1, 3), hang = c.chance(1, 4);
    unsigned nth = (unsigned)c.range(hang ? 1 : 0, 6);
    unsigned before = (unsigned)c.small(0, 5);
    rate = rate && nth + before > 0; // a limit that lets exactly the wanted messages through
    uint32_t timeout = hang ? (uint32_t)c.range(20, 120) : 60000;
    mcp_server_t* s = open(w, &t, timeout, over ? 4096 : 0, rate ? nth + before : 0);
    mcp_arena_init_current_thread(1 << 16);
    unsigned overs = 0, lim = 0;
    for (unsigned i = 0; i < before; i++) {
        if (over && !rate && c.flip()) { PBT_CHECK(ask(t, "wait:0:b", 10 + i, 5000) == Oversize, "oversized message accepted"); overs++; }
        else PBT_CHECK(ask(t, "wait:0:b", 10 + i) == Answered, "message not answered");
    }
    std::vector<std::thread> th;
    std::vector<unsigned> tail;
    for (unsigned i = 0; i < nth; i++) tail.push_back((unsigned)c.draw(1500));
    for (unsigned i = 0; i < nth; i++)
        th.emplace_back([&, i] {
            mcp_arena_init_current_thread(1 << 16);
            // may outlive the server object: touches nothing of it after the answer
            PBT_CHECK(ask(t, fmt("hold:%u:t%u", tail[i], i), 100 + i) == Answered, "a message accepted before the stop was refused");
            mcp_arena_destroy_current_thread();
        });
    {
        std::unique_lock<std::mutex> l(w.m);
        int want = (int)(before - overs + nth);
        w.cv.wait(l, [&] { return w.entered == want; });
    }
    if (rate)
        for (unsigned i = 0, k = (unsigned)c.small(0, 4); i < k; i++) { Out q = ask(t, "wait:0:r", 500 + i); PBT_CHECK(q == Limited, "message over the limit: outcome %d", (int)q); lim++; }
    if (over && !rate)
        for (unsigned i = 0, k = (unsigned)c.small(0, 3); i < k; i++) { PBT_CHECK(ask(t, "wait:0:r", 600 + i, 5000) == Oversize, "oversized message accepted"); overs++; }
    unsigned rel = (unsigned)c.draw(3000);
    c.note("%u in progress, %u oversized and %u rate-limited refused, timeout %u ms, %s", nth, overs, lim, timeout, hang ? "handlers outlast the timeout" : fmt("released after %u us", rel).c_str());
    std::thread releaser;
    std::atomic<double> released{0};
    if (!hang)
        releaser = std::thread([&] {
            usleep(rel);
            std::lock_guard<std::mutex> l(w.m);
            w.release = true;
            released = now();
            w.cv.notify_all();
        });
    double t0 = now();
    PBT_CHECK(mcp_server_stop(s) == 0, "stop failed");
    double t1 = now();
    if (!hang) {
        {
            std::lock_guard<std::mutex> l(w.m);
            PBT_CHECK(w.running == 0, "stop returned while %d accepted messages were still being processed", w.running);
            if (nth) PBT_CHECK(w.release, "stop returned before the handlers were released");
        }
        PBT_CHECK(t1 - t0 < 10, "stop returned %.1f s after it was requested, though every message was done at once (shutdown timeout 60 s)", t1 - t0);
        // the owner may destroy the server as soon as stop has returned
        mcp_server_destroy(s);
        for (auto& x : th) x.join();
        releaser.join();
    } else {
        PBT_CHECK(t1 - t0 >= timeout / 1000.0 - 0.002, "stop gave up after %.0f ms, its timeout is %u ms", (t1 - t0) * 1000, timeout);
        PBT_CHECK(t1 - t0 < timeout / 1000.0 + 10, "stop took %.1f s with a timeout of %u ms", t1 - t0, timeout);
        PBT_CHECK(ask(t, "wait:0:x", 999999) == Refused, "a stopped server accepted a message");
        { std::lock_guard<std::mutex> l(w.m); w.release = true; w.cv.notify_all(); }
        for (auto& x : th) x.join();
        mcp_server_destroy(s);
    }
    mcp_transport_destroy(t);
    c.nontrivial(nth > 0);
    if (hang) c.label("shutdown timeout");
    if (overs) c.label("oversized messages");
    if (lim) c.label("rate-limited messages");
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P39";
    o.rule = "some messages were answered and some refused during the stop, or messages were in progress when it was requested";
    o.tests = {{"stopping", stopping, 2500, 25000, 40, 50, 40}, {"in_flight", in_flight, 2500, 25000, 40, 50, 20}};
    o.workers = 16;
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
