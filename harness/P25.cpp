// TECHNIQUE: random scripts of answered, unanswered, late, unsendable and broken-off calls on one client shared by threads; real-time oracle that compares each call with the recorded moments of its response
// NOTE: Fake transports. Bounds on lateness are generous (10 s), bounds on earliness exact to 2 ms. A timed-out call reports MCP_ERROR_TRANSPORT_ERROR, as the client documents.
// SHIM: srv_shim.c
#include <atomic>
#include <condition_variable>
#include <map>
#include <mutex>
#include <thread>
#include <time.h>
#include <unistd.h>
#include "srv.hpp"
extern "C" {
#define template template_
#include "mcp_client.h"
#undef template
#include "mcp_thread_local.h"
}
using namespace pbt;

static double now() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}
enum Kind { Prompt, Delayed, Never, Late, NoSend, Error, Break };
static const char* kname[] = {"answered at once", "answered after a while", "never answered", "answered late", "not sendable", "answered with an error", "waits until the connection breaks"};
struct Plan { Kind k; double delay; };
struct Sched { double at; uint64_t id; std::string tok, text; };

struct Net {
    mcp_transport_t* t = nullptr;
    bool sync = false, inline_answers = false;
    std::mutex m;
    std::condition_variable cv;
    std::map<std::string, Plan> plan; // by token
    std::vector<Sched> q;
    std::map<std::string, double> begun, ended; // when the response was being delivered
    int waiting_break = 0;
    bool done = false;
    std::map<std::string, uint32_t> asked; // timeouts passed to receive
    std::string slot; bool has = false; bool slot_fail = false; int slot_code = -1; uint32_t seen_timeout = 0;

    static std::string text(uint64_t id, const std::string& tok, Kind k) {
        if (k == Error) return fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"error\":{\"code\":-32042,\"message\":\"%s\"}}", (unsigned long long)id, tok.c_str());
        return fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"result\":{\"echo\":\"%s\"}}", (unsigned long long)id, tok.c_str());
    }
    static int send(void* ud, const void* d, size_t n) {
        Net* me = (Net*)ud;
        std::string s((const char*)d + 4, n - 4);
        J j;
        int depth;
        if (jparse(s, j, &depth) != 1 || !j.o.count("id") || !j.o["params"].o.count("k")) fail("malformed request sent: %s", esc(s).c_str());
        uint64_t id = (uint64_t)j.o["id"].n;
        std::string tok = j.o["params"].o["k"].s;
        std::unique_lock<std::mutex> l(me->m);
        Plan p = me->plan.at(tok);
        if (p.k == NoSend) return -1;
        if (me->sync) {
            me->slot_fail = p.k == Never || p.k == Break || p.k == Late;
            me->slot_code = p.k == Never ? -2 : -1;
            me->slot = text(id, tok, p.k);
            return 0;
        }
        if (p.k == Never) return 0;
        if (p.k == Break) { me->waiting_break++; me->cv.notify_all(); return 0; }
        if (me->inline_answers && (p.k == Prompt || p.k == Error)) {
            // the response arrives before send returns
            me->begun[tok] = now();
            l.unlock();
            me->put(text(id, tok, p.k));
            l.lock();
            me->ended[tok] = now();
            return 0;
        }
        me->q.push_back({now() + p.delay, id, tok, text(id, tok, p.k)});
        me->cv.notify_all();
        return 0;
    }
    static int recv(void* ud, char** d, size_t* n, uint32_t timeout) {
        Net* me = (Net*)ud;
        std::lock_guard<std::mutex> l(me->m);
        me->seen_timeout = timeout;
        if (me->slot_fail) return me->slot_code;
        *d = strdup(me->slot.c_str());
        *n = me->slot.size();
        return 0;
    }
    void put(const std::string& s) {
        int e = 0;
        Exact x(s + std::string(1, '\0'));
        fake_client_deliver(t, x.p, s.size(), &e);
    }
    void pump() {
        mcp_arena_init_current_thread(1 << 16);
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            size_t best = q.size();
            for (size_t i = 0; i < q.size(); i++)
                if (best == q.size() || q[i].at < q[best].at) best = i;
            if (best == q.size()) {
                if (done) break;
                cv.wait(l);
                continue;
            }
            double w = q[best].at - now();
            if (w > 0 && !done) { cv.wait_for(l, std::chrono::duration<double>(w)); continue; }
            Sched s = q[best];
            q.erase(q.begin() + (long)best);
            begun[s.tok] = now();
            l.unlock();
            put(s.text);
            l.lock();
            ended[s.tok] = now();
        }
        l.unlock();
        mcp_arena_destroy_current_thread();
    }
};

static void go(Case& c) {
    Net net;
    bool breaks = c.chance(1, 4);
    net.sync = !breaks && c.chance(1, 5);
    net.inline_answers = c.flip();
    bool longt = breaks || c.chance(1, 4); // promptness is only visible under a long timeout
    uint32_t T = longt ? 60000 : (uint32_t)c.range(15, 90);
    unsigned nth = (unsigned)c.small(1, 6), per = (unsigned)c.range(1, 3);
    std::vector<std::vector<Plan>> plans(nth);
    bool odd = false;
    std::string desc;
    for (unsigned t = 0; t < nth; t++)
        for (unsigned k = 0; k < per; k++) {
            Plan p{Prompt, 0};
            if (longt) p.k = c.pick({Prompt, Error, NoSend, Delayed});
            else p.k = c.pick({Prompt, Never, Late, Delayed, NoSend, Error});
            if (breaks && k == 0) p.k = Break;
            if (p.k == Delayed) p.delay = (double)c.range(0, longt ? 40 : T) / 1000.0;
            if (p.k == Late) p.delay = (double)(T + c.range(0, 30)) / 1000.0;
            plans[t].push_back(p);
            net.plan[fmt("t%u.%u", t, k)] = p;
            desc += fmt("t%u.%u %s; ", t, k, kname[p.k]);
            if (p.k != Prompt) odd = true;
            c.label(kname[p.k]);
        }
    net.plan["last"] = Plan{Prompt, 0};
    c.note("timeout %u ms%s: %s", T, net.sync ? ", request/response transport" : "", desc.c_str());
    net.t = fake_client_new(net.sync ? MCP_TRANSPORT_PROTOCOL_HTTP : MCP_TRANSPORT_PROTOCOL_TCP, Net::send, Net::recv, &net);
    mcp_client_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.request_timeout_ms = T;
    mcp_client_t* cl = mcp_client_create(&cfg, net.t);
    PBT_CHECK(cl, "client creation failed");
    std::thread pump;
    if (!net.sync) pump = std::thread([&] { net.pump(); });

    auto call = [&](const std::string& tok, Plan p) {
        std::string params = "{\"k\":\"" + tok + "\"}";
        char* result = nullptr;
        char* msg = nullptr;
        mcp_error_code_t code = MCP_ERROR_NONE;
        double t0 = now();
        int r = mcp_client_send_request(cl, "m", params.c_str(), &result, &code, &msg);
        double t1 = now(), el = t1 - t0;
        std::unique_lock<std::mutex> l(net.m);
        double b = net.begun.count(tok) ? net.begun[tok] : 1e18, e = net.ended.count(tok) ? net.ended[tok] : 1e18;
        l.unlock();
        auto ok = [&] {
            if (p.k == Error) return code == (mcp_error_code_t)-32042 && msg && tok == msg && !result;
            return r == 0 && code == 0 && result && std::string(result).find("\"" + tok + "\"") != std::string::npos;
        };
        auto failed = [&] { return r != 0 && code == MCP_ERROR_TRANSPORT_ERROR && !result; };
        std::string got = fmt("status %d code %d result %s message %s after %.0f ms", r, code, result ? esc(result).c_str() : "NULL", msg ? esc(msg).c_str() : "NULL", el * 1000);
        if (p.k == NoSend) {
            PBT_CHECK(failed(), "a call that could not be sent did not fail with a transport error: %s", got.c_str());
            PBT_CHECK(el < 10, "a call that could not be sent failed only after %.1f s", el);
        } else if (net.sync) {
            if (p.k == Never || p.k == Late) PBT_CHECK(failed(), "no response, but the call did not fail with a transport error: %s", got.c_str());
            else PBT_CHECK(ok(), "answered call: %s", got.c_str());
        } else if (p.k == Break) {
            PBT_CHECK(failed(), "the connection broke, but the call did not fail with a transport error: %s", got.c_str());
            PBT_CHECK(el < 40, "the connection broke, but the call failed only after %.1f s", el);
        } else if (p.k == Never) {
            PBT_CHECK(failed(), "no response, but the call did not end with a timeout: %s", got.c_str());
            PBT_CHECK(el >= T / 1000.0 - 0.002, "timeout of %u ms reported too early: %s", T, got.c_str());
            PBT_CHECK(el < T / 1000.0 + 10, "timeout of %u ms reported much too late: %s", T, got.c_str());
        } else {
            // the response was delivered between b and e
            if (ok()) PBT_CHECK(b < t1, "the call succeeded before its response arrived: %s", got.c_str());
            else {
                PBT_CHECK(failed(), "neither its response nor a timeout: %s", got.c_str());
                PBT_CHECK(e > t0 + T / 1000.0 - 0.002, "the response arrived after %.1f ms but the call reported a timeout of %u ms: %s", (e - t0) * 1000, T, got.c_str());
                PBT_CHECK(el >= T / 1000.0 - 0.002, "timeout of %u ms reported too early: %s", T, got.c_str());
            }
            PBT_CHECK(el < T / 1000.0 + 10, "call with timeout %u ms ended much too late: %s", T, got.c_str());
        }
        free(result);
        free(msg);
    };
    std::vector<std::thread> th;
    for (unsigned t = 0; t < nth; t++)
        th.emplace_back([&, t] {
            if (net.inline_answers) mcp_arena_init_current_thread(1 << 16); // as transports do in threads that deliver
            for (unsigned k = 0; k < per; k++) call(fmt("t%u.%u", t, k), plans[t][k]);
            mcp_arena_destroy_current_thread();
        });
    if (breaks) {
        // every thread's first call is sent and waiting (or about to wait) when the connection breaks
        {
            std::unique_lock<std::mutex> l(net.m);
            net.cv.wait(l, [&] { return net.waiting_break == (int)nth; });
        }
        if (c.flip()) usleep((unsigned)c.draw(3000));
        fake_client_error(net.t, c.pick({-1, (int)MCP_ERROR_TRANSPORT_ERROR}));
        net.cv.notify_all();
    }
    for (auto& t : th) t.join();
    // late responses may still come; the client goes on working
    if (!net.sync && c.flip()) {
        std::unique_lock<std::mutex> l(net.m);
        while (!net.q.empty()) { l.unlock(); usleep(2000); l.lock(); }
    }
    call("last", net.plan["last"]); // a short timeout could expire on a busy machine: the oracle of call() allows for that
    { std::lock_guard<std::mutex> l(net.m); net.done = true; net.cv.notify_all(); }
    if (pump.joinable()) pump.join();
    mcp_client_destroy(cl);
    c.nontrivial(odd);
}

// Many calls that end without an answer leave nothing behind.
static void aftermath(Case& c) {
    Net net;
    net.inline_answers = true;
    uint32_t T = (uint32_t)c.range(1, 3);
    bool many = c.chance(1, 12);
    Kind mostly = c.pick({NoSend, Never, Error, Prompt});
    size_t n = many ? (size_t)c.range(900, mostly == Never ? 1200 : 2500) : (size_t)c.range(1, 60);
    c.note("timeout %u ms, %zu calls, mostly %s", T, n, kname[mostly]);
    net.t = fake_client_new(MCP_TRANSPORT_PROTOCOL_TCP, Net::send, Net::recv, &net);
    mcp_client_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.request_timeout_ms = T;
    mcp_client_t* cl = mcp_client_create(&cfg, net.t);
    PBT_CHECK(cl, "client creation failed");
    struct Out { char* result; char* msg; mcp_error_code_t code; };
    bool odd = false;
    auto one = [&](const std::string& tok, Kind k) {
        net.plan[tok] = Plan{k, 0};
        Out* o = new Out{nullptr, nullptr, MCP_ERROR_NONE}; // gone after the call: nobody may write there later
        std::string params = "{\"k\":\"" + tok + "\"}";
        int r = mcp_client_send_request(cl, "m", params.c_str(), &o->result, &o->code, &o->msg);
        bool good = k == Prompt ? r == 0 && o->code == 0 && o->result && std::string(o->result).find("\"" + tok + "\"") != std::string::npos
                  : k == Error ? o->code == (mcp_error_code_t)-32042 && o->msg && tok == o->msg && !o->result
                  : r != 0 && o->code == MCP_ERROR_TRANSPORT_ERROR && !o->result;
        PBT_CHECK(good, "call %s, %s: status %d code %d result %s message %s", tok.c_str(), kname[k], r, (int)o->code, o->result ? esc(o->result).c_str() : "NULL", o->msg ? esc(o->msg).c_str() : "NULL");
        free(o->result);
        free(o->msg);
        delete o;
        if (k != Prompt) odd = true;
    };
    for (size_t i = 0; i < n; i++) {
        Kind k = c.chance(1, 10) ? c.pick({NoSend, Never, Error, Prompt}) : mostly;
        one(fmt("c%zu", i), k);
        if (c.chance(1, 30)) { // a response to an earlier call, or to none
            uint64_t id = 1 + c.draw(i + 3);
            if (id <= i + 1) net.put(Net::text(id, "late", c.flip() ? Error : Prompt));
        }
        if (c.chance(1, 60)) fake_client_error(net.t, (int)MCP_ERROR_TRANSPORT_ERROR);
    }
    if (c.flip()) fake_client_error(net.t, (int)MCP_ERROR_TRANSPORT_ERROR);
    if (c.flip()) for (size_t id = 1; id <= n; id++) net.put(Net::text(id, "late", Prompt));
    for (int i = 0; i < 3; i++) one(fmt("last%d", i), Prompt);
    mcp_client_destroy(cl);
    c.nontrivial(odd && n > 5);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P25";
    o.rule = "at least one call is delayed, unanswered, late, unsendable or cut off; aftermath: more than five calls, some of them not answered";
    o.tests = {{"scripts", go, 1500, 15000, 55, 40, 20}, {"aftermath", aftermath, 800, 8000, 55, 40}};
    o.assumptions = {"condition variables do not wake up spuriously"};
    o.workers = 24;
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
