// TECHNIQUE: randomised concurrent histories of one client: several threads, a scripted network that reorders, duplicates and adds stray responses; per-call linear oracle (each call must return the answer made for its own token)
// NOTE: Fake transports, fewer than 100 calls in flight, request timeout 60 s so that no call times out. Request/response transports are modelled as one response slot, as the HTTP and WebSocket clients have.
// SHIM: srv_shim.c
#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>
#include "srv.hpp"
extern "C" {
#define template template_
#include "mcp_client.h"
#undef template
#include "mcp_thread_local.h"
}
using namespace pbt;

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull);
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29; x *= 0x94D049BB133111EBull; x ^= x >> 32;
    return x;
}
// the answer made for a token
struct Ans { bool err; int code; std::string body; };
static Ans answer_for(uint64_t seed, const std::string& tok) {
    uint64_t h = mix(seed, fnv(tok.data(), tok.size()));
    Ans a;
    a.err = h % 4 == 0;
    static const int codes[] = {-32601, -32602, -32603, -32000, -1};
    a.code = a.err ? codes[(h >> 8) % 5] : 0;
    a.body = tok + std::string((h >> 16) % 5 == 0 ? (h >> 20) % 2000 : (h >> 20) % 8, 'z');
    return a;
}
static std::string response(uint64_t id, const Ans& a) {
    if (a.err) return fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":%d,\"message\":\"", (unsigned long long)id, a.code) + a.body + "\"}}";
    return fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"echo\":\"", (unsigned long long)id) + a.body + "\"}}";
}

struct Req { uint64_t id; std::string tok; };
struct Net {
    mcp_transport_t* t = nullptr;
    uint64_t seed = 0;
    bool sync = false;
    unsigned hold = 1;   // how many requests the network gathers before it answers
    unsigned noise = 0;  // chance of noise per step, of 8
    unsigned deliverers = 1;
    std::mutex m;
    std::condition_variable cv;
    std::vector<Req> waiting;
    std::set<uint64_t> inflight; // ids sent and not answered
    std::vector<uint64_t> answered;
    bool done = false;
    std::atomic<int> active{0};  // calls in progress
    std::atomic<int> reordered{0}, dups{0}, strays{0};
    std::string slot;
    bool has = false;

    static int send(void* ud, const void* d, size_t n) {
        Net* me = (Net*)ud;
        std::string s((const char*)d + 4, n - 4);
        J j;
        int depth;
        if (jparse(s, j, &depth) != 1 || j.t != J::Obj || !j.o.count("id") || !j.o.count("params") || !j.o["params"].o.count("k")) fail("malformed request sent: %s", esc(s).c_str());
        Req r{(uint64_t)j.o["id"].n, j.o["params"].o["k"].s};
        if (me->sync) {
            // one slot, filled by the request's own answer after a while
            std::string a = response(r.id, answer_for(me->seed, r.tok));
            if (mix(me->seed, r.id) % 3 == 0) usleep((unsigned)(mix(me->seed, r.id) % 200));
            std::lock_guard<std::mutex> l(me->m);
            me->slot = a;
            me->has = true;
            return 0;
        }
        std::lock_guard<std::mutex> l(me->m);
        if (!me->inflight.insert(r.id).second) fail("request id %llu used by two calls at the same time", (unsigned long long)r.id);
        me->waiting.push_back(r);
        me->cv.notify_all();
        return 0;
    }
    static int recv(void* ud, char** d, size_t* n, uint32_t) {
        Net* me = (Net*)ud;
        std::lock_guard<std::mutex> l(me->m);
        if (!me->has) return -1;
        *d = strdup(me->slot.c_str());
        *n = me->slot.size();
        me->has = false;
        return 0;
    }
    void put(const std::string& s) {
        int e = 0;
        Exact x(s + std::string(1, '\0')); // transports hand over NUL-terminated text
        fake_client_deliver(t, x.p, s.size(), &e);
    }
    void noise_once(uint64_t h) {
        static const char* junk[] = {
            "", "{", "null", "[]", "garbage", "{\"jsonrpc\":\"2.0\"}", "{\"jsonrpc\":\"2.0\",\"result\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":null,\"result\":{}}",
            "{\"jsonrpc\":\"2.0\",\"id\":0,\"result\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":-1,\"result\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":\"x\",\"result\":{}}",
            "{\"jsonrpc\":\"2.0\",\"id\":{},\"result\":{}}", "{\"jsonrpc\":\"2.0\",\"method\":\"notify\",\"params\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":1e30,\"result\":{}}",
            "{\"jsonrpc\":\"2.0\",\"id\":99999999,\"error\":{\"code\":-1,\"message\":\"m\"}}", "[{\"jsonrpc\":\"2.0\",\"id\":77777777,\"result\":{}}]"};
        switch (h % 3) {
        case 0: put(junk[(h >> 4) % 16]); strays++; break;
        case 1: { // an id that is not in use
            put(response(1000000 + (h >> 4) % 5000, Ans{(h & 64) != 0, -5, "stray"}));
            strays++;
            break;
        }
        default: { // a second answer to an answered request
            uint64_t id = 0;
            {
                std::lock_guard<std::mutex> l(m);
                if (answered.empty()) return;
                size_t back = std::min<size_t>(answered.size(), 1 + (h >> 12) % 6);
                id = answered[answered.size() - back];
            }
            put(response(id, Ans{(h & 64) != 0, -6, "duplicate"}));
            dups++;
        }
        }
    }
    void pump(unsigned me) {
        mcp_arena_init_current_thread(1 << 16);
        uint64_t step = me * 1000003u;
        for (;;) {
            Req r;
            uint64_t h = mix(seed, ++step);
            if (h % 8 < noise) noise_once(mix(h, 5));
            {
                std::unique_lock<std::mutex> l(m);
                cv.wait(l, [&] { return done || !waiting.empty(); });
                if (waiting.empty()) break;
                if (waiting.size() < hold) { // give others a chance to join
                    unsigned want = hold;
                    cv.wait_for(l, std::chrono::microseconds(300), [&] { return done || waiting.size() >= want; });
                    if (waiting.empty()) continue;
                }
                size_t i = (size_t)(mix(h, 7) % waiting.size());
                if (i) reordered++;
                r = waiting[i];
                waiting.erase(waiting.begin() + (long)i);
                inflight.erase(r.id);
            }
            put(response(r.id, answer_for(seed, r.tok)));
            bool dup_now = mix(h, 9) % 8 < noise / 2;
            {
                std::lock_guard<std::mutex> l(m);
                answered.push_back(r.id);
            }
            if (dup_now) { put(response(r.id, Ans{(h & 1) != 0, -7, "duplicate"})); dups++; }
            if ((mix(h, 11) & 7) == 0) std::this_thread::yield();
        }
        mcp_arena_destroy_current_thread();
    }
};

static void verify(uint64_t seed, const std::string& tok, int status, const char* result, int code, const char* msg) {
    Ans a = answer_for(seed, tok);
    if (a.err) {
        PBT_CHECK(code == a.code, "call %s: error %d expected, got status %d code %d result %s message %s", tok.c_str(), a.code, status, code,
                  result ? esc(result).c_str() : "NULL", msg ? esc(msg).c_str() : "NULL");
        PBT_CHECK(!result, "call %s: failed and yet has the result %s", tok.c_str(), esc(result).c_str());
        PBT_CHECK(msg && a.body == msg, "call %s: message %s instead of %s", tok.c_str(), msg ? esc(msg).c_str() : "NULL", esc(a.body).c_str());
    } else {
        PBT_CHECK(status == 0 && code == 0 && result, "call %s: answered with a result, but the call returned %d with code %d message %s", tok.c_str(), status, code,
                  msg ? esc(msg).c_str() : "NULL");
        J j;
        int depth;
        PBT_CHECK(jparse(result, j, &depth) == 1 && j.t == J::Obj && j.o.count("echo") && j.o["echo"].s == a.body, "call %s: got %s, the answer of another call or a damaged one",
                  tok.c_str(), esc(result).c_str());
    }
}

static void go(Case& c) {
    Net net;
    net.seed = c.draw(1ull << 40);
    net.sync = c.chance(1, 4);
    net.hold = (unsigned)c.small(1, 12);
    net.noise = (unsigned)c.draw(6);
    net.deliverers = c.chance(1, 4) ? 2 : 1;
    unsigned nth = (unsigned)c.range(1, 12), per = (unsigned)c.small(1, 12);
    unsigned burst = c.chance(1, 6) ? 60 : 0; // enough threads to make the pending table grow
    if (burst) { nth = burst; per = 2; net.hold = 60; }
    unsigned kinds = (unsigned)c.draw(4);
    c.note("%u threads x %u calls, %s, gather %u, noise %u/8, %u deliverers", nth, per, net.sync ? "request/response" : "asynchronous", net.hold, net.noise, net.deliverers);
    net.t = fake_client_new(net.sync ? (c.flip() ? MCP_TRANSPORT_PROTOCOL_HTTP : MCP_TRANSPORT_PROTOCOL_WEBSOCKET) : MCP_TRANSPORT_PROTOCOL_TCP, Net::send, Net::recv, &net);
    mcp_client_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.request_timeout_ms = 60000;
    mcp_client_t* cl = mcp_client_create(&cfg, net.t);
    PBT_CHECK(cl, "client creation failed");
    std::vector<std::thread> pumps, th;
    if (!net.sync)
        for (unsigned i = 0; i < net.deliverers; i++) pumps.emplace_back([&, i] { net.pump(i); });
    uint64_t seed = net.seed;
    std::mutex later_m;
    std::vector<std::pair<mcp_batch_response_t*, size_t>> later;
    for (unsigned t = 0; t < nth; t++)
        th.emplace_back([&, t] {
            for (unsigned k = 0; k < per; k++) {
                std::string tok = fmt("t%u.%u", t, k);
                std::string params = "{\"k\":\"" + tok + "\"}";
                uint64_t h = mix(seed, 77 + t * 1000 + k);
                int kind = kinds == 3 ? (int)(h % 3) : (int)kinds % 2 == 0 ? 0 : (int)(h % 2);
                char* result = nullptr;
                char* msg = nullptr;
                mcp_error_code_t code = MCP_ERROR_NONE;
                if (kind == 0) {
                    int r = mcp_client_send_request(cl, "m", params.c_str(), &result, &code, &msg);
                    verify(seed, tok, r, result, code, msg);
                } else if (kind == 1) {
                    // ids of its own, used again and again by one thread
                    uint64_t id = 50000 + t * 16 + (net.noise ? k : (h >> 8) % 3);
                    int r = mcp_client_send_raw_request(cl, "m", params.c_str(), id, &result, &code, &msg);
                    verify(seed, tok, r, result, code, msg);
                } else {
                    mcp_batch_request_t rq[4];
                    std::string toks[4], ps[4];
                    size_t n = 1 + (h >> 4) % 4;
                    for (size_t i = 0; i < n; i++) {
                        toks[i] = tok + fmt("b%zu", i);
                        ps[i] = "{\"k\":\"" + toks[i] + "\"}";
                        rq[i] = {"m", ps[i].c_str(), 90000 + t * 1000 + k * 10 + i};
                    }
                    mcp_batch_response_t* rs = nullptr;
                    size_t rn = 0;
                    int r = (h >> 9) % 2 ? mcp_client_send_batch_request(cl, rq, n, &rs, &rn) : mcp_client_send_batch_request_optimized(cl, rq, n, &rs, &rn);
                    PBT_CHECK(r == 0 && rn == n, "batch of %zu returned %d with %zu responses", n, r, rn);
                    for (size_t i = 0; i < n; i++) {
                        PBT_CHECK(rs[i].id == rq[i].id, "batch response %zu carries id %llu instead of %llu", i, (unsigned long long)rs[i].id, (unsigned long long)rq[i].id);
                        verify(seed, toks[i], rs[i].error_code == 0 ? 0 : -1, rs[i].result, rs[i].error_code, rs[i].error_message);
                    }
                    // the results may be released by another thread than the caller's
                    if ((h >> 11) % 2 == 0) { std::lock_guard<std::mutex> l(later_m); later.push_back({rs, rn}); }
                    else mcp_client_free_batch_responses(rs, rn);
                }
                free(result);
                free(msg);
            }
            mcp_arena_destroy_current_thread();
        });
    for (auto& t : th) t.join();
    for (auto& x : later) mcp_client_free_batch_responses(x.first, x.second);
    { std::lock_guard<std::mutex> l(net.m); net.done = true; net.cv.notify_all(); }
    for (auto& t : pumps) t.join();
    // whatever noise came, the client still works
    mcp_client_destroy(cl);
    c.nontrivial(nth > 1 && (net.sync || net.reordered || net.dups || net.strays));
    if (net.reordered) c.label("responses out of order");
    if (net.dups) c.label("duplicate responses");
    if (net.strays) c.label("stray or malformed responses");
    if (net.sync) c.label("request/response transport");
    if (burst) c.label("pending table grows");
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P24";
    o.rule = "more than one thread, and responses out of order, duplicates, stray messages or a request/response transport shared by the threads";
    o.tests = {{"shared_client", go, 6000, 60000, 60, 50, 40}};
    o.assumptions = {"fewer than 100 calls in flight (the pending table probes 16 slots once it is 1024 entries large)", "condition variables do not wake up spuriously"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
