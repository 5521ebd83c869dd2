// TECHNIQUE: stateful property-based testing: a real server in gateway mode in front of scripted backends on loopback sockets (results, errors, answers in pieces, twice, late, never, garbage, closed connections, backends going away and coming back), sequential histories and concurrent callers; oracle: reference router, the expected result or error of each request under the caller's id, the requests each backend received, and a server without a gateway for everything handled locally
// NOTE: gateway mode is switched on through the server's own fields, since no public function does; the backends are loaded from a generated configuration file
// SHIM: srv_shim.c
#include "srv.hpp"
#include "ws.hpp"
#include <algorithm>
#include <atomic>
#include <mutex>
#include <regex.h>
#include <thread>
using namespace pbt;
extern "C" int p27_gateway(mcp_server_t* s, const char* config_path);

static const uint16_t PORT = 7600;
static std::string frame(const std::string& s) {
    uint32_t n = htonl((uint32_t)s.size());
    return std::string((char*)&n, 4) + s;
}

// A backend: one thread serving every connection, doing what each request says.
struct Peer {
    std::string host;
    uint16_t port = 0;
    int idx = 0;
    std::atomic<int> want_up{1}, is_up{0}, stop{0};
    std::atomic<int> ping_mode{0}; // 0 answered, 1 refused with an error
    std::mutex m;
    std::vector<J> got; // requests other than ping, as received
    size_t broken = 0;  // input that is not a framed request
    struct Out { double due; std::string bytes; bool shut; };
    struct Conn { int fd; std::string in; std::vector<Out> out; std::vector<std::string> late; bool dead = false; };
    std::vector<Conn> conns;
    int lfd = -1;
    std::thread th;

    static std::string response(double id, const char* key, const J& v) {
        J r = J::obj();
        r.o["jsonrpc"] = J::str("2.0");
        r.o["id"] = J::num(id);
        r.o[key] = v;
        return jdump(r);
    }
    void on_request(Conn& k, const std::string& text) {
        J rq;
        const J *id, *me;
        if (jparse(text, rq) != 1 || !(id = rq.get("id")) || id->t != J::Num || !(me = rq.get("method")) || me->t != J::Str) {
            std::lock_guard<std::mutex> g(m);
            broken++;
            return;
        }
        double now = mono();
        if (me->s == "ping") {
            J e = J::obj();
            if (ping_mode == 1) { e.o["code"] = J::num(-32601); e.o["message"] = J::str("no"); }
            k.out.push_back({now, frame(response(id->n, ping_mode == 1 ? "error" : "result", e)), false});
            return;
        }
        {
            std::lock_guard<std::mutex> g(m);
            got.push_back(rq);
        }
        for (auto& l : k.late) k.out.push_back({now, l, false});
        k.late.clear();
        const J* p = rq.get("params");
        J plan = J::obj();
        if (p && p->get("arguments")) plan = *p->get("arguments");
        else if (p && p->get("uri") && p->get("uri")->t == J::Str) {
            const std::string& u = p->get("uri")->s;
            size_t h = u.find('#');
            if (h != std::string::npos) jparse(u.substr(h + 1), plan);
        }
        std::string what = plan.get("do") && plan.get("do")->t == J::Str ? plan.get("do")->s : "ok";
        double delay = plan.get("delay") ? plan.get("delay")->n / 1000 : 0;
        std::string ans;
        if (what == "err") {
            J e = J::obj();
            e.o["code"] = plan.o["code"];
            e.o["message"] = plan.o["message"];
            ans = response(id->n, "error", e);
        } else {
            J r = plan.get("result") ? *plan.get("result") : J::null();
            ans = response(id->n, "result", r);
        }
        std::string f = frame(ans);
        if (what == "close") k.out.push_back({now, "", true});
        else if (what == "partial") { k.out.push_back({now, f.substr(0, f.size() / 2), true}); }
        else if (what == "silent") {}
        else if (what == "late") k.late.push_back(f);
        else if (what == "garbage") k.out.push_back({now, frame("}{"), false});
        else if (what == "wrongid") k.out.push_back({now, frame(response(id->n + 1000000, "result", J::str("wrong"))), false});
        else if (what == "pieces") {
            size_t at = 0;
            for (int i = 0; at < f.size(); ++i) {
                size_t n = std::min(f.size() - at, (size_t)(i == 0 ? 2 : i == 1 ? 3 : f.size()));
                k.out.push_back({now + delay + i * 0.002, f.substr(at, n), false});
                at += n;
            }
        } else {
            if (what == "noise") k.out.push_back({now + delay, frame(response(id->n + 5000, "result", J::str("noise"))), false});
            k.out.push_back({now + delay, f, false});
            if (what == "twice") k.out.push_back({now + delay, f, false});
            if (what == "ok-close") k.out.push_back({now + delay, "", true});
        }
    }
    void run() {
        while (!stop) {
            if (want_up && lfd < 0) {
                lfd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
                int one = 1;
                setsockopt(lfd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
                struct sockaddr_in a;
                memset(&a, 0, sizeof a);
                a.sin_family = AF_INET;
                a.sin_port = htons(port);
                inet_pton(AF_INET, host.c_str(), &a.sin_addr);
                if (bind(lfd, (struct sockaddr*)&a, sizeof a) != 0 || listen(lfd, 64) != 0) { fprintf(stderr, "P27: cannot listen on %s:%u\n", host.c_str(), port); _exit(3); }
                is_up = 1;
            }
            if (!want_up && lfd >= 0) {
                close(lfd);
                lfd = -1;
                for (auto& k : conns) close(k.fd);
                conns.clear();
                is_up = 0;
            }
            std::vector<struct pollfd> p;
            double now = mono(), next = now + 0.05;
            if (lfd >= 0) p.push_back({lfd, POLLIN, 0});
            for (auto& k : conns) {
                p.push_back({k.fd, POLLIN, 0});
                for (auto& o : k.out) next = std::min(next, o.due);
            }
            int ms = next <= now ? 0 : (int)((next - now) * 1000) + 1;
            poll(p.data(), p.size(), std::min(ms, want_up ? 20 : 2));
            if (lfd >= 0) {
                int fd;
                while ((fd = accept4(lfd, nullptr, nullptr, SOCK_NONBLOCK | SOCK_CLOEXEC)) >= 0) {
                    int one = 1;
                    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
                    Conn k;
                    k.fd = fd;
                    conns.push_back(std::move(k));
                }
            }
            now = mono();
            for (auto& k : conns) {
                static thread_local char buf[65536];
                ssize_t n;
                while ((n = recv(k.fd, buf, sizeof buf, 0)) > 0) k.in.append(buf, (size_t)n);
                if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) k.dead = true;
                for (;;) {
                    if (k.in.size() < 4) break;
                    uint32_t len;
                    memcpy(&len, k.in.data(), 4);
                    len = ntohl(len);
                    if (len > (64u << 20)) { std::lock_guard<std::mutex> g(m); broken++; k.dead = true; break; }
                    if (k.in.size() < 4 + (size_t)len) break;
                    std::string t = k.in.substr(4, len);
                    k.in.erase(0, 4 + (size_t)len);
                    while (!t.empty() && t.back() == 0) t.pop_back();
                    on_request(k, t);
                }
                while (!k.out.empty() && k.out[0].due <= now && !k.dead) {
                    Out& o = k.out[0];
                    while (!o.bytes.empty()) {
                        ssize_t w = send(k.fd, o.bytes.data(), o.bytes.size(), MSG_NOSIGNAL);
                        if (w > 0) { o.bytes.erase(0, (size_t)w); continue; }
                        if (errno == EAGAIN) break;
                        k.dead = true;
                        break;
                    }
                    if (!o.bytes.empty()) { o.due = now + 0.001; break; }
                    if (o.shut) k.dead = true;
                    k.out.erase(k.out.begin());
                }
            }
            for (size_t i = 0; i < conns.size();) {
                if (conns[i].dead) { close(conns[i].fd); conns.erase(conns.begin() + (long)i); }
                else ++i;
            }
        }
    }
    void start(int i) {
        idx = i;
        host = own_host();
        port = (uint16_t)(PORT + i);
        th = std::thread([this] { run(); });
        for (int k = 0; k < 10000 && !is_up; ++k) usleep(1000);
    }
    void set(bool up) {
        want_up = up;
        for (int k = 0; k < 20000 && (is_up != 0) != up; ++k) usleep(500);
    }
    std::vector<J> take() {
        std::lock_guard<std::mutex> g(m);
        std::vector<J> r;
        r.swap(got);
        return r;
    }
};
static const int NP = 3;
static Peer* g_peer[NP];
static Srv* g_ref;

struct Backend {
    int peer; // NP: nobody listens there
    bool slow; // has a short timeout
    std::vector<std::string> prefixes, tools, regexes;
};
static bool matches(const std::string& re, const std::string& s) {
    regex_t r;
    if (regcomp(&r, re.c_str(), REG_EXTENDED | REG_NOSUB) != 0) return false;
    bool m = regexec(&r, s.c_str(), 0, nullptr, 0) == 0;
    regfree(&r);
    return m;
}
static int route(const std::vector<Backend>& b, const std::string& method, const J& params) {
    if (params.t != J::Obj) return -1;
    if (method == "read_resource") {
        const J* u = params.get("uri");
        if (!u || u->t != J::Str) return -1;
        for (size_t i = 0; i < b.size(); ++i) {
            for (auto& p : b[i].prefixes) if (u->s.compare(0, p.size(), p) == 0) return (int)i;
            for (auto& r : b[i].regexes) if (matches(r, u->s)) return (int)i;
        }
    } else if (method == "call_tool") {
        const J* u = params.get("name");
        if (!u || u->t != J::Str) return -1;
        for (size_t i = 0; i < b.size(); ++i) for (auto& t : b[i].tools) if (t == u->s) return (int)i;
    }
    return -1;
}
static std::string uri_part(Case& c) { return c.pick({std::string("a://"), std::string("a://x"), std::string("b://"), std::string("b://y/"), std::string("file:///d")}); }
static std::string tool(Case& c) { return c.pick({std::string("sum"), std::string("sumx"), std::string("run"), std::string("echo"), std::string("t")}); }

static std::vector<Backend> gen_backends(Case& c, bool slow_allowed) {
    std::vector<Backend> v;
    size_t n = (size_t)c.range(1, 4);
    for (size_t i = 0; i < n; ++i) {
        Backend b;
        b.peer = (int)c.weighted({6u, 5u, 4u, 1u});
        b.slow = slow_allowed && c.chance(1, 6);
        // connections are pooled by address, so a peer has one timeout
        for (auto& o : v) if (o.peer == b.peer) b.slow = o.slow;
        for (int64_t k = c.range(0, 3); k > 0; --k) b.prefixes.push_back(uri_part(c));
        for (int64_t k = c.range(0, 3); k > 0; --k) b.tools.push_back(tool(c));
        if (c.chance(1, 3)) b.regexes.push_back(c.pick({std::string("^a://x[0-9]+"), std::string("y/"), std::string("^file:.*z")}));
        v.push_back(b);
    }
    return v;
}
static void start_gateway(Srv& s, const std::vector<Backend>& v) {
    J doc = J::arr();
    for (size_t i = 0; i < v.size(); ++i) {
        J o = J::obj(), r = J::obj();
        o.o["name"] = J::str(fmt("b%zu", i));
        o.o["address"] = J::str(fmt("tcp://%s:%u", own_host().c_str(), PORT + v[i].peer));
        o.o["timeout_ms"] = J::num(v[i].slow ? 120 : 20000);
        auto list = [&](const char* key, const std::vector<std::string>& l) {
            if (l.empty()) return;
            J a = J::arr();
            for (auto& x : l) a.a.push_back(J::str(x));
            r.o[key] = a;
        };
        list("resource_prefixes", v[i].prefixes);
        list("tool_names", v[i].tools);
        list("resource_regexes", v[i].regexes);
        o.o["routing"] = r;
        doc.a.push_back(o);
    }
    std::string path = scratch_dir() + "/gw.json", text = jdump(doc);
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(text.data(), 1, text.size(), f) != text.size()) _exit(3);
    fclose(f);
    s.open(nullptr, true, true);
    PBT_CHECK(p27_gateway(s.s, path.c_str()) == (int)v.size(), "the generated configuration is refused: %s", text.c_str());
}

static J gen_result(Case& c) {
    switch (c.draw(8)) {
    case 0: return J::str(c.printable(12));
    case 1: return J::num((double)c.range(-1000, 1000));
    case 2: { J a = J::arr(); for (int64_t k = c.range(0, 3); k > 0; --k) a.a.push_back(J::str(c.printable(5))); return a; }
    case 3: return J::boolean(c.flip());
    case 4: return J::str(std::string((size_t)c.range(1, c.chance(1, 10) ? 200000 : 3000), 'r'));
    default: { J o = J::obj(); for (int64_t k = c.range(0, 3); k > 0; --k) o.o[c.ident(1, 5)] = J::str(c.text(8)); o.o["n"] = J::num((double)c.draw(1000)); return o; }
    }
}
struct Req { std::string method, what; J params, result; double code = 0; std::string message; uint64_t id = 0; int target = -1; std::string text; };
// what a backend is to do with it; "slow" kinds only where the timeout is short
static Req gen_req(Case& c, const std::vector<Backend>& b, bool calm, unsigned serial, bool wait = false) {
    Req q;
    q.method = c.weighted({8u, 8u, 1u, 1u}) == 0 ? "read_resource" : "call_tool";
    if (c.chance(1, 12)) q.method = c.pick({std::string("ping"), std::string("list_tools"), std::string("list_resources"), std::string("nope")});
    J plan = J::obj();
    q.result = gen_result(c);
    if (q.result.t == J::Obj) q.result.o["serial"] = J::num(serial);
    plan.o["serial"] = J::num(serial);
    q.params = J::obj();
    bool tool_call = q.method != "read_resource";
    std::string base = uri_part(c) + (c.flip() ? "" : c.pick({std::string("x"), std::string("7"), std::string("z"), std::string("y/9")}));
    if (tool_call) q.params.o["name"] = J::str(tool(c));
    else q.params.o["uri"] = J::str(base);
    q.target = route(b, q.method, q.params);
    bool slow = q.target >= 0 && b[(size_t)q.target].slow;
    static const char* fast[] = {"ok", "err", "twice", "noise", "pieces", "close", "partial", "ok-close"};
    static const char* slowk[] = {"silent", "late", "garbage", "wrongid"};
    // the plan is part of the URI and may match another backend's pattern
    bool steady = tool_call || std::none_of(b.begin(), b.end(), [](const Backend& x) { return !x.regexes.empty(); });
    if (slow && steady && !calm && c.chance(1, 3)) q.what = slowk[c.draw(4)];
    else q.what = fast[calm ? c.weighted({6u, 2u, 1u, 1u, 1u}) : c.weighted({8u, 3u, 2u, 2u, 2u, 1u, 1u, 1u})];
    plan.o["do"] = J::str(q.what);
    if (q.what == "err") {
        q.code = (double)c.pick({-32601, -32602, -32603, -32000, -32001, -5});
        q.message = c.chance(1, 4) ? "" : c.printable(20);
        if (q.message.empty()) q.message = "m";
        plan.o["code"] = J::num(q.code);
        plan.o["message"] = J::str(q.message);
    } else plan.o["result"] = q.result;
    if (wait || (calm && c.chance(1, 2))) plan.o["delay"] = J::num((double)c.range(0, 3));
    if (tool_call) q.params.o["arguments"] = plan;
    else { q.params.o["uri"] = J::str(base + "#" + jdump(plan)); }
    q.target = route(b, q.method, q.params);
    q.id = c.weighted({4u, 4u, 1u}) == 0 ? (uint64_t)c.range(0, 3) : c.flip() ? (uint64_t)c.range(1, 100000) : (uint64_t)c.range(0, (int64_t)1 << 50);
    q.text = fmt("{\"jsonrpc\":\"2.0\",\"id\":%llu,\"method\":\"%s\",\"params\":%s}", (unsigned long long)q.id, q.method.c_str(), jdump(q.params).c_str());
    return q;
}
// 0 the expected answer, 1 an error response under the right id; anything else fails
static int judge(const Req& q, bool answered, const std::string& out, bool up) {
    PBT_CHECK(answered, "request %llu for backend %d gets no response", (unsigned long long)q.id, q.target);
    J r;
    PBT_CHECK(jparse(out, r) == 1 && r.t == J::Obj, "request %llu for backend %d (%s) is answered with \"%s\", which is not a response", (unsigned long long)q.id, q.target, q.what.c_str(), esc(out.substr(0, 200)).c_str());
    PBT_CHECK(r.get("jsonrpc") && r.get("jsonrpc")->s == "2.0", "the response to request %llu is no JSON-RPC response: %s", (unsigned long long)q.id, esc(out.substr(0, 200)).c_str());
    PBT_CHECK(r.get("id") && r.get("id")->t == J::Num && r.get("id")->n == (double)q.id, "request %llu is answered under another id: %s", (unsigned long long)q.id, esc(out.substr(0, 200)).c_str());
    const J *res = r.get("result"), *err = r.get("error");
    PBT_CHECK((res != nullptr) != (err != nullptr), "the response to request %llu has neither or both of result and error: %s", (unsigned long long)q.id, esc(out.substr(0, 200)).c_str());
    if (err) PBT_CHECK(err->get("code") && err->get("code")->t == J::Num && err->get("message") && err->get("message")->t == J::Str, "malformed error: %s", esc(out.substr(0, 200)).c_str());
    bool fails = !up || q.what == "close" || q.what == "partial" || q.what == "silent" || q.what == "late" || q.what == "garbage" || q.what == "wrongid";
    if (res) {
        PBT_CHECK(!fails, "a request whose backend %s is answered with a result: %s", up ? q.what.c_str() : "is unreachable", esc(out.substr(0, 200)).c_str());
        PBT_CHECK(q.what != "err", "the backend's error became a result: %s", esc(out.substr(0, 200)).c_str());
        PBT_CHECK(*res == q.result, "the backend's result %s reaches the caller as %s", esc(jdump(q.result).substr(0, 150)).c_str(), esc(jdump(*res).substr(0, 150)).c_str());
        return 0;
    }
    if (q.what == "err" && up && err->get("code")->n == q.code && err->get("message")->s == q.message) return 0;
    return fails ? 0 : 1;
}

static void t_history(Case& c) {
    mcp_arena_reset_current_thread();
    for (auto* p : g_peer) { p->set(true); p->ping_mode = c.chance(1, 6) ? 1 : 0; p->take(); }
    std::vector<Backend> b = gen_backends(c, true);
    Srv s;
    start_gateway(s, b);
    int budget[NP + 1] = {0}; // errors still excused by connections lost before
    bool up[NP + 1] = {true, true, true, false};
    int n = (int)c.small(2, 40), forwarded = 0, failed = 0;
    vt::freeze(1700000000);
    for (int i = 0; i < n; ++i) {
        if (c.chance(1, 12)) {
            int k = (int)c.draw(NP);
            up[k] = !up[k];
            g_peer[k]->set(up[k]);
            budget[k] = 5; // as many as a pool holds
            c.note("backend at %d %s", k, up[k] ? "up" : "down");
            continue;
        }
        if (c.chance(1, 20)) { vt::advance(c.pick({30, 61, 200})); continue; }
        Req q = gen_req(c, b, false, (unsigned)i);
        c.note("%s", esc(q.text.substr(0, 300)).c_str());
        for (auto* p : g_peer) p->take();
        int calls = s.calls, reads = s.reads;
        std::string out, want;
        double t0 = mono();
        bool ok = s.ask(q.text, out);
        PBT_CHECK(mono() - t0 < 15, "request %llu for backend %d (%s) is answered after %.1f s only: %s", (unsigned long long)q.id, q.target, q.what.c_str(), mono() - t0, esc(out.substr(0, 200)).c_str());
        c.note("  -> backend %d (%s): %s", q.target, q.what.c_str(), ok ? esc(out.substr(0, 200)).c_str() : "nothing");
        if (q.target < 0) {
            bool wok = g_ref->ask(q.text, want);
            PBT_CHECK(ok == wok && out == want, "handled locally with \"%s\" instead of \"%s\"", esc(out.substr(0, 200)).c_str(), esc(want.substr(0, 200)).c_str());
            PBT_CHECK(s.calls - calls + s.reads - reads <= 1, "a local request reached the handlers %d times", s.calls - calls + s.reads - reads);
            for (auto* p : g_peer) PBT_CHECK(p->take().empty(), "a request to be handled locally was forwarded");
            continue;
        }
        int peer = b[(size_t)q.target].peer;
        ++forwarded;
        int e = judge(q, ok, out, up[peer]);
        PBT_CHECK(s.calls == calls && s.reads == reads, "a forwarded request was handled locally too");
        for (int k = 0; k < NP; ++k) {
            std::vector<J> got = g_peer[k]->take();
            if (k != peer) { PBT_CHECK(got.empty(), "a request for backend %d went to another backend", q.target); continue; }
            if (!up[k]) continue;
            PBT_CHECK(got.size() <= 1, "the backend received the request %zu times", got.size());
            if (e == 0 && up[k] && q.what != "close") PBT_CHECK(got.size() == 1 || (budget[peer] > 0 && jparse(out, *std::make_unique<J>()) == 1 && out.find("\"error\"") != std::string::npos), "the backend never received the request");
            if (got.size() == 1) {
                PBT_CHECK(got[0].get("method")->s == q.method, "the backend received method \"%s\"", got[0].get("method")->s.c_str());
                PBT_CHECK(got[0].get("params") && *got[0].get("params") == q.params, "the backend received other parameters: %s", got[0].get("params") ? esc(jdump(*got[0].get("params")).substr(0, 200)).c_str() : "none");
            }
        }
        if (e == 1) {
            if (b[(size_t)q.target].slow) { c.label("short-timeout error"); }
            else {
                PBT_CHECK(budget[peer] > 0, "backend %d answers, but the caller gets an error: %s", q.target, esc(out.substr(0, 200)).c_str());
                --budget[peer];
                usleep(20000);
            }
            ++failed;
        }
        if (q.what == "close" || q.what == "partial" || q.what == "ok-close") { budget[peer] = 5; ++failed; }
        if (!up[peer]) ++failed;
        c.label(q.what.c_str());
    }
    for (int k = 0; k < NP; ++k) {
        std::lock_guard<std::mutex> g(g_peer[k]->m);
        PBT_CHECK(g_peer[k]->broken == 0, "a backend received something that is no framed request");
    }
    if (forwarded >= 2) c.nontrivial();
    if (failed) c.label("with failures");
}

// callers at the same time, more than a pool has connections
static void callers(Case& c, bool crowd);
static void t_callers(Case& c) { callers(c, false); }
// all of them at one backend that takes its time
static void t_crowd(Case& c) { callers(c, true); }
static void callers(Case& c, bool crowd) {
    mcp_arena_reset_current_thread();
    vt::off();
    for (auto* p : g_peer) { p->set(true); p->ping_mode = c.chance(1, 4) ? 1 : 0; p->take(); }
    std::vector<Backend> b = gen_backends(c, false);
    if (crowd) {
        b.resize(1);
        b[0].peer = 0;
        b[0].tools = {"sum", "sumx", "run", "echo", "t"};
        b[0].prefixes = {"a://", "b://", "f"};
        g_peer[0]->ping_mode = c.flip() ? 1 : 0;
    }
    bool losses = c.chance(1, 3);
    Srv s;
    start_gateway(s, b);
    int nt = (int)c.range(crowd ? 8 : 2, crowd ? 16 : 12), per = (int)c.small(1, 12);
    std::vector<std::vector<Req>> plan((size_t)nt);
    unsigned serial = 0;
    int forwarded = 0;
    for (auto& v : plan) for (int i = 0; i < per; ++i) {
        v.push_back(gen_req(c, b, !losses, serial++, crowd));
        forwarded += v.back().target >= 0 && b[(size_t)v.back().target].peer < NP;
    }
    c.note("%d callers with %d requests each, %d forwarded%s", nt, per, forwarded, losses ? ", connections may be lost" : "");
    std::vector<std::thread> th;
    for (auto& v : plan) th.emplace_back([&] {
        mcp_arena_init_current_thread(1 << 16);
        for (auto& q : v) {
            std::string out;
            bool ok = s.ask(q.text, out);
            if (q.target < 0) continue;
            int peer = b[(size_t)q.target].peer;
            int e = judge(q, ok, out, peer < NP);
            PBT_CHECK(e == 0 || losses, "request %llu (%s): the backend answers, but the caller gets an error: %s", (unsigned long long)q.id, q.what.c_str(), esc(out.substr(0, 200)).c_str());
        }
        mcp_arena_destroy_current_thread();
    });
    for (auto& t : th) t.join();
    size_t got = 0;
    for (auto* p : g_peer) {
        got += p->take().size();
        std::lock_guard<std::mutex> g(p->m);
        PBT_CHECK(p->broken == 0, "a backend received something that is no framed request");
    }
    if (!losses) PBT_CHECK(got == (size_t)forwarded, "%d requests were forwarded, the backends received %zu", forwarded, got);
    if (forwarded > 5) c.nontrivial();
}

static void worker_init() {
    quiet_logs();
    mcp_arena_init_current_thread(1 << 16);
    for (int i = 0; i < NP; ++i) { g_peer[i] = new Peer; g_peer[i]->start(i); }
    g_ref = new Srv;
    g_ref->open(nullptr, true, true);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P27";
    o.rule = "at least two requests of a history are forwarded to a backend; more than five for concurrent callers";
    o.tests = {{"history", t_history, 3000, 30000, 60, 50, 10}, {"callers", t_callers, 1000, 10000, 60, 20, 20}, {"crowd", t_crowd, 400, 4000, 25, 10, 5}};
    o.assumptions = {"a backend with a short timeout may have any of its requests time out, so for it only wrong answers count"};
    o.worker_init = worker_init;
    return run(argc, argv, o);
}
