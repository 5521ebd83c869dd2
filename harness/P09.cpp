// TECHNIQUE: property-based testing: request histories on a virtual clock against a fixed-window reference model, concurrent bursts against the exact allowance, and whole servers configured with each limiter
// NOTE: A window starts with the first request that finds no open window and is over once the window's length has passed.
// SHIM: srv_shim.c
#include <atomic>
#include <thread>
#include "srv.hpp"
extern "C" {
#include "mcp_rate_limiter.h"
#include "mcp_thread_local.h"
}
using namespace pbt;

struct Model {
    int64_t window;
    size_t max;
    struct E { int64_t start; size_t n; };
    std::map<std::string, E> m;
    bool check(const std::string& k, int64_t now) {
        auto it = m.find(k);
        if (it == m.end() || now >= it->second.start + window) { m[k] = {now, 1}; return true; }
        if (it->second.n < max) { it->second.n++; return true; }
        return false;
    }
};
static std::string gen_client(Case& c, size_t n) {
    size_t k = c.draw(n);
    switch (k % 5) {
    case 0: return fmt("10.0.%zu.%zu", k / 250, k % 250);
    case 1: return fmt("c%zu", k);
    case 2: return std::string(k / 5 % 40, 'a'); // one is the prefix of the next
    case 3: return fmt("\xc3\xbc%zu", k);
    default: { // equal djb2 hashes in pairs: "Ab" and "BA"
        std::string s;
        for (int i = 0; i < 4; i++) s += (k >> (i + 1)) & 1 ? "Ab" : "BA";
        return s;
    }
    }
}
static void history(Case& c) {
    Model md;
    md.window = (int64_t)c.pick({1, 2, 10, 60, 3600});
    md.max = c.small(1, 12);
    int64_t t0 = 1700000000 + (int64_t)c.draw(100000);
    vt::freeze(t0);
    mcp_rate_limiter_t* l = mcp_rate_limiter_create((size_t)c.pick({0, 1, 3, 100}), (size_t)md.window, md.max);
    PBT_CHECK(l, "limiter not created");
    size_t clients = (size_t)c.pick({1, 3, 10, 60, 400}), steps = 1 + c.small(0, 60 + c.size() * 6);
    size_t refused = 0, renewed = 0;
    for (size_t i = 0; i < steps; i++) {
        if (c.chance(1, clients > 10 ? 40 : 6)) {
            int64_t d = (int64_t)c.pick({(int)1, (int)md.window - 1, (int)md.window, (int)md.window + 1, (int)(md.window / 2)});
            vt::advance(d);
            c.note("advance %lld", (long long)d);
        }
        std::string k = gen_client(c, clients);
        std::string copy = k;
        bool fresh = md.m.count(k) && vt::now() >= md.m[k].start + md.window;
        bool want = md.check(k, vt::now()), got = mcp_rate_limiter_check(l, copy.c_str());
        copy.assign(copy.size(), '!');
        PBT_CHECK(want == got, "request %zu of client %s at +%lld s was %s; allowance %zu per %lld s, window opened at +%lld s, %zu counted", i, esc(k).c_str(),
                  (long long)(vt::now() - t0), got ? "allowed" : "refused", md.max, (long long)md.window, (long long)(md.m[k].start - t0), md.m[k].n);
        refused += !want;
        renewed += fresh;
    }
    mcp_rate_limiter_destroy(l);
    vt::off();
    c.note("%zu requests of %zu clients, %zu refused", steps, md.m.size(), refused);
    if (refused) c.label("refusals");
    if (renewed) c.label("renewed windows");
    if (md.m.size() > 40) c.label("many clients");
    c.nontrivial(refused && md.m.size() > 1);
}
static void concurrent(Case& c) {
    size_t max = c.small(1, 60), nth = 2 + c.draw(6), clients = 1 + c.draw(40), per = 1 + c.small(0, 60);
    vt::freeze(1700000000);
    mcp_rate_limiter_t* l = mcp_rate_limiter_create(1, 1000000, max);
    std::vector<std::vector<size_t>> script(nth);
    std::vector<size_t> asked(clients);
    for (auto& s : script)
        for (size_t i = 0; i < per; i++) { s.push_back(c.draw(clients)); asked[s.back()]++; }
    std::vector<std::atomic<size_t>> ok(clients);
    std::atomic<size_t> gate{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < nth; i++)
        th.emplace_back([&, i] {
            gate++;
            while (gate.load() < nth) {}
            for (size_t k : script[i])
                if (mcp_rate_limiter_check(l, fmt("client-%zu", k).c_str())) ok[k]++;
        });
    for (auto& t : th) t.join();
    size_t full = 0;
    for (size_t k = 0; k < clients; k++) {
        size_t want = std::min(asked[k], max);
        PBT_CHECK(ok[k].load() == want, "%zu of %zu concurrent requests of a client were allowed, the allowance is %zu", ok[k].load(), asked[k], max);
        full += asked[k] > max;
    }
    mcp_rate_limiter_destroy(l);
    vt::off();
    c.note("%zu threads, %zu clients, allowance %zu, %zu clients over it", nth, clients, max, full);
    c.nontrivial(full > 0);
}
// A whole server: every limiter it can be configured with.
static mcp_error_code_t on_call(mcp_server_t*, const char*, const mcp_json_t*, void* ud, mcp_content_item_t*** content, size_t* n, bool* is_error, char**) {
    ++*(int*)ud;
    *is_error = false;
    mk_content({mk_item(MCP_CONTENT_TYPE_TEXT, "", "x")}, content, n);
    return MCP_ERROR_NONE;
}
static void server(Case& c) {
    int calls = 0;
    mcp_server_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.name = "srv";
    cfg.version = "1";
    cfg.thread_pool_size = 1;
    cfg.task_queue_size = 4;
    cfg.rate_limit_capacity = c.draw(20);
    cfg.rate_limit_window_seconds = (size_t)c.pick({1, 5, 60});
    cfg.rate_limit_max_requests = c.small(1, 12);
    bool none = c.chance(1, 8);
    if (none) (c.flip() ? cfg.rate_limit_window_seconds : cfg.rate_limit_max_requests) = 0;
    int kind = (int)c.draw(3);
    cfg.use_advanced_rate_limiter = kind > 0;
    cfg.enable_token_bucket = kind == 2;
    cfg.tokens_per_second = (double)(1 + c.draw(12)) / 4;
    cfg.max_tokens = c.small(1, 12);
    int64_t t0 = 1700000000;
    vt::freeze(t0);
    mcp_server_capabilities_t cap = {true, true};
    mcp_server_t* s = mcp_server_create(&cfg, &cap);
    PBT_CHECK(s, "server creation failed");
    mcp_server_set_tool_handler(s, on_call, &calls);
    mcp_transport_t* t = fake_server_new(nullptr, nullptr);
    PBT_CHECK(mcp_server_start(s, t) == 0, "server start failed");
    Model md;
    md.window = (int64_t)cfg.rate_limit_window_seconds;
    md.max = cfg.rate_limit_max_requests;
    double tokens = (double)cfg.max_tokens;
    int64_t last = t0;
    size_t steps = 1 + c.small(0, 40), refused = 0;
    for (size_t i = 0; i < steps; i++) {
        if (c.chance(1, 5)) vt::advance((int64_t)c.pick({1, 2, 4, 5, 59, 60}));
        int64_t now = vt::now();
        bool want = true;
        if (!none) {
            if (kind < 2) want = md.check("x", now);
            else {
                tokens = std::min((double)cfg.max_tokens, tokens + (double)(now - last) * cfg.tokens_per_second);
                last = now;
                want = tokens >= 1;
                if (want) tokens -= 1;
            }
        }
        std::string m = fmt("{\"jsonrpc\":\"2.0\",\"id\":%zu,\"method\":\"%s\",\"params\":{\"name\":\"t\",\"arguments\":{}}}", i, c.flip() ? "call_tool" : "ping");
        int err = 0, before = calls;
        Exact x(m);
        char* r = fake_server_deliver(t, x.p, m.size(), &err);
        bool got = r != nullptr;
        PBT_CHECK(got || err == MCP_ERROR_TOO_MANY_REQUESTS, "a message was refused with error %d", err);
        PBT_CHECK(got || calls == before, "a refused message was processed");
        PBT_CHECK(got == want, "message %zu at +%lld s was %s (%s, %zu per %zu s, %g tokens/s up to %zu)", i, (long long)(now - t0), got ? "processed" : "refused",
                  none ? "no limit" : kind == 0 ? "basic limiter" : kind == 1 ? "advanced limiter, fixed window" : "advanced limiter, token bucket", cfg.rate_limit_max_requests,
                  cfg.rate_limit_window_seconds, cfg.tokens_per_second, cfg.max_tokens);
        free(r);
        refused += !want;
    }
    PBT_CHECK(mcp_server_stop(s) == 0, "stop failed");
    mcp_server_destroy(s);
    mcp_transport_destroy(t);
    vt::off();
    c.note("%zu messages, %zu refused", steps, refused);
    c.label(none ? "no limit" : kind == 0 ? "basic" : kind == 1 ? "advanced, window" : "advanced, tokens");
    c.nontrivial(refused > 0);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P09";
    o.rule = "at least one request was refused (and, for the limiter alone, several clients took part)";
    o.tests = {{"history", history, 30000, 300000}, {"concurrent", concurrent, 2500, 25000, 30, 50, 40}, {"server", server, 6000, 60000}};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
