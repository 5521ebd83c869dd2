// TECHNIQUE: stateful property-based testing: message histories and recorded events against a counting model, alone and from several threads
// NOTE: The average may be rounded down to whole microseconds. Rates per second are not judged.
// SHIM: srv_shim.c
#include <barrier>
#include <thread>
#include "srv.hpp"
#include "ws.hpp"
#include "srv_model.hpp"
extern "C" {
int mcp_performance_metrics_init(void);
void mcp_performance_metrics_shutdown(void);
void mcp_performance_metrics_reset(void);
void mcp_performance_metrics_record_request(bool success, uint64_t latency_us, uint64_t bytes_sent, uint64_t bytes_received);
void mcp_performance_metrics_record_timeout(void);
void mcp_performance_metrics_update_connections(int delta);
int mcp_performance_metrics_to_json(char* buffer, size_t size);
int mcp_performance_metrics_export(const char* filename);
uint64_t mcp_performance_metrics_get_avg_latency(void);
double mcp_performance_metrics_get_error_rate(void);
}

struct M { // what the metrics must say
    uint64_t total = 0, ok = 0, failed = 0, timeout = 0, in = 0, out = 0, active = 0, peak = 0;
};
struct Got {
    J j;
    double at(const char* a, const char* b) const {
        const J* x = j.get(a);
        PBT_CHECK(x && x->t == J::Obj, "no %s in the metrics %s", a, jdump(j).c_str());
        const J* y = x->get(b);
        PBT_CHECK(y && y->t == J::Num, "no %s.%s in the metrics %s", a, b, jdump(j).c_str());
        return y->n;
    }
    void same(const char* a, const char* b, uint64_t want) const {
        PBT_CHECK(at(a, b) == (double)want, "%s.%s is %.0f, expected %llu; metrics %s", a, b, at(a, b), (unsigned long long)want, jdump(j).c_str());
    }
    void counts(const M& m) const {
        same("requests", "total", m.total);
        same("requests", "successful", m.ok);
        same("requests", "failed", m.failed);
        same("requests", "timeout", m.timeout);
        same("throughput", "bytes_sent", m.out);
        same("throughput", "bytes_received", m.in);
        double want = m.total ? 100.0 * (double)(m.failed + m.timeout) / (double)m.total : 0;
        PBT_CHECK(std::fabs(at("requests", "error_rate_percent") - want) < 0.006, "error rate %.4f, expected %.4f", at("requests", "error_rate_percent"), want);
    }
    void latency_order() const {
        PBT_CHECK(at("latency_us", "min") <= at("latency_us", "avg") && at("latency_us", "avg") <= at("latency_us", "max"), "latency out of order in %s", jdump(j).c_str());
    }
};
static Got parse(const std::string& s) {
    Got g;
    PBT_CHECK(jparse(s, g.j) == 1 && g.j.t == J::Obj, "the metrics are not a JSON object: %s", s.c_str());
    return g;
}
static Got direct() {
    std::vector<char> b(4096);
    int n = mcp_performance_metrics_to_json(b.data(), b.size());
    PBT_CHECK(n > 0 && (size_t)n == strlen(b.data()), "metrics of length %d", n);
    return parse(b.data());
}
// whether a reply holds an error
static bool has_error(const std::string& s) {
    J j;
    PBT_CHECK(jparse(s, j) == 1, "reply is not JSON: %s", s.c_str());
    if (j.t == J::Obj) return j.get("error") != nullptr;
    for (auto& x : j.a) if (x.t == J::Obj && x.get("error")) return true;
    return false;
}
static bool is_method(const J& m, const char* name) {
    if (m.t == J::Arr) { for (auto& x : m.a) if (is_method(x, name)) return true; return false; }
    if (m.t != J::Obj) return false;
    const J* x = m.get("method");
    return x && x->t == J::Str && x->s == name;
}
// a message text; resets are left to the test
static std::string gen_text(Case& c, const char* key) {
    J m;
    if (c.chance(1, 5)) {
        m = J::arr();
        size_t n = 1 + c.draw(4);
        for (size_t i = 0; i < n; i++) m.a.push_back(gen_message(c));
    } else m = gen_message(c);
    if (is_method(m, "reset_performance_metrics") || is_method(m, "get_performance_metrics")) m = J::obj();
    auto sign = [&](J& x) { // credentials, mostly right
        if (x.t != J::Obj || !key || c.chance(1, 4)) return;
        if (!x.get("params") || x.get("params")->t != J::Obj) x.o["params"] = J::obj();
        x.o["params"].o["apiKey"] = J::str(c.chance(1, 5) ? "wrong" : key);
    };
    if (m.t == J::Arr) { for (auto& x : m.a) sign(x); } else sign(m);
    std::string s = jdump(m);
    if (c.chance(1, 10)) s = s.substr(0, 1 + c.draw(s.size())); // damaged
    if (c.chance(1, 30)) s = "x";
    return s;
}
static const char* GET = "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"get_performance_metrics\",\"params\":{\"apiKey\":\"k1\"}}";
static const char* RESET = "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"reset_performance_metrics\",\"params\":{\"apiKey\":\"k1\"}}";
static Got asked(Srv& v, std::string& out) {
    PBT_CHECK(v.ask(GET, out), "no reply to the metrics request");
    J j;
    PBT_CHECK(jparse(out, j) == 1 && j.get("result"), "metrics reply %s", out.c_str());
    Got g;
    g.j = *j.get("result");
    return g;
}
static void idle(const char* when) { direct().same("connections", "active", 0); (void)when; }

static void history(Case& c) {
    const char* key = c.flip() ? "k1" : nullptr;
    Srv v;
    v.open(key, true, true);
    PBT_CHECK(mcp_performance_metrics_init() == 0, "init failed");
    mcp_performance_metrics_reset();
    M m;
    int steps = 1 + (int)c.draw(4 + c.size() / 2);
    size_t bad = 0, good = 0, silent = 0;
    double longest = 0, spent = 0;
    auto tell = [&](const std::string& s, std::string& out) {
        double t0 = mono();
        bool has = v.ask(s, out);
        double d = (mono() - t0) * 1e6;
        longest = std::max(longest, d);
        spent += d;
        return has;
    };
    for (int i = 0; i < steps; i++) {
        std::string out;
        switch (c.weighted({10, 2, 1})) {
        case 0: {
            std::string s = gen_text(c, key);
            c.note("message %s", s.c_str());
            bool has = tell(s, out);
            bool err = has && has_error(out);
            m.total++;
            (err ? m.failed : m.ok)++;
            m.in += s.size();
            m.out += has ? out.size() : 0;
            (err ? bad : has ? good : silent)++;
            m.peak = 1;
            break;
        }
        case 1: { // the metrics as a client sees them: the request itself is under way
            c.note("get");
            double t0 = mono();
            Got g = asked(v, out);
            double d = (mono() - t0) * 1e6;
            g.counts(m);
            g.same("connections", "active", 1);
            g.same("connections", "peak", 1);
            g.latency_order();
            PBT_CHECK(g.at("latency_us", "max") <= longest + 1, "longest latency %.0f us, the calls took at most %.0f us", g.at("latency_us", "max"), longest);
            PBT_CHECK(g.at("latency_us", "avg") * (double)m.total <= spent + 1 + (double)m.total, "average latency %.0f us over %llu, the calls took %.0f us",
                      g.at("latency_us", "avg"), (unsigned long long)m.total, spent);
            longest = std::max(longest, d);
            spent += d;
            m.total++; m.ok++;
            m.in += strlen(GET);
            m.out += out.size();
            break;
        }
        default:
            c.note("reset");
            m = M();
            longest = spent = 0;
            PBT_CHECK(tell(RESET, out), "no reply to the reset");
            PBT_CHECK(!has_error(out), "the reset failed: %s", out.c_str());
            m.total = 1; m.ok = 1;
            m.in = strlen(RESET);
            m.out = out.size();
        }
    }
    Got g = direct();
    g.counts(m);
    g.same("connections", "active", 0);
    c.nontrivial(bad > 0 && good > 0);
    if (silent) c.label("a message without reply");
    if (key) c.label("with a key");
}

// Messages from several threads at once.
static void threads(Case& c) {
    const char* key = c.flip() ? "k1" : nullptr;
    struct V : Srv {} v;
    v.open(key, true, true);
    PBT_CHECK(mcp_performance_metrics_init() == 0, "init failed");
    mcp_performance_metrics_reset();
    size_t n = 2 + c.draw(5), per = 20 + c.draw(60);
    std::vector<std::string> texts;
    for (int i = 0; i < 12; i++) texts.push_back(gen_text(c, key));
    texts.push_back(GET);
    uint64_t seed = c.draw(1 << 30);
    c.note("%zu threads, %zu messages each of %zu texts", n, per, texts.size());
    struct R { uint64_t ok = 0, failed = 0, in = 0, out = 0; std::string wrong; };
    std::vector<R> r(n);
    std::atomic<uint64_t> begun{0}, ended{0};
    std::barrier gate((std::ptrdiff_t)n);
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            mcp_arena_init_current_thread(1 << 16);
            uint64_t x = seed * 2654435761u + t * 977 + 1;
            uint64_t before = 0;
            gate.arrive_and_wait();
            for (size_t i = 0; i < per; i++) {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                const std::string& s = texts[(x >> 33) % texts.size()];
                std::string out;
                uint64_t lo = ended;
                begun++;
                bool has = v.ask(s, out);
                if (s == GET && has) {
                    J j;
                    if (jparse(out, j) == 1 && j.get("result")) {
                        Got g;
                        g.j = *j.get("result");
                        uint64_t total = (uint64_t)g.at("requests", "total"), hi = begun;
                        double active = g.at("connections", "active");
                        if (active < 1 || active > (double)n) r[t].wrong = fmt("%.0f under way among %zu threads", active, n);
                        if (total < lo || total > hi) r[t].wrong = fmt("total %llu, with %llu ended before and %llu begun after", (unsigned long long)total, (unsigned long long)lo, (unsigned long long)hi);
                        if (total < before) r[t].wrong = fmt("total went from %llu to %llu", (unsigned long long)before, (unsigned long long)total);
                        before = total;
                    } else r[t].wrong = "metrics reply " + out;
                }
                ended++;
                bool err = has && has_error(out);
                (err ? r[t].failed : r[t].ok)++;
                r[t].in += s.size();
                r[t].out += has ? out.size() : 0;
            }
            mcp_arena_destroy_current_thread();
        });
    for (auto& t : th) t.join();
    M m;
    for (auto& x : r) {
        PBT_CHECK(x.wrong.empty(), "%s", x.wrong.c_str());
        m.ok += x.ok; m.failed += x.failed; m.in += x.in; m.out += x.out;
    }
    m.total = m.ok + m.failed;
    Got g = direct();
    g.counts(m);
    g.same("connections", "active", 0);
    g.latency_order();
    PBT_CHECK(g.at("connections", "peak") >= 1 && g.at("connections", "peak") <= (double)n, "peak %.0f with %zu threads", g.at("connections", "peak"), n);
    c.nontrivial(m.failed > 0 && m.ok > 0);
}

// Calls that are inside their handlers at the same time.
struct Meet {
    std::mutex m;
    std::condition_variable cv;
    size_t in = 0;
    bool open = false;
    static mcp_error_code_t on_call(mcp_server_t*, const char*, const mcp_json_t*, void* ud, mcp_content_item_t*** content, size_t* n, bool* is_error, char**) {
        Meet* me = (Meet*)ud;
        {
            std::unique_lock<std::mutex> l(me->m);
            me->in++;
            me->cv.notify_all();
            me->cv.wait(l, [&] { return me->open; });
        }
        *is_error = false;
        mk_content({mk_item(MCP_CONTENT_TYPE_TEXT, "text/plain", "x")}, content, n);
        return MCP_ERROR_NONE;
    }
};
static void together(Case& c) {
    PBT_CHECK(mcp_performance_metrics_init() == 0, "init failed");
    mcp_performance_metrics_reset();
    Srv v;
    Meet meet;
    v.open(nullptr, true, true);
    mcp_server_set_tool_handler(v.s, Meet::on_call, &meet);
    size_t rounds = 1 + c.draw(4), peak = 0;
    uint64_t total = 0;
    int slow_us = 0;
    for (size_t r = 0; r < rounds; r++) {
        size_t n = 1 + c.draw(6);
        int hold = (int)c.draw(3) * 1000;
        bool reset = c.chance(1, 3);
        c.note("%zu calls under way at once, held %d us%s", n, hold, reset ? ", then a reset" : "");
        meet.in = 0;
        meet.open = false;
        std::vector<std::thread> th;
        for (size_t t = 0; t < n; t++)
            th.emplace_back([&] {
                mcp_arena_init_current_thread(1 << 16);
                std::string out;
                v.ask("{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"call_tool\",\"params\":{\"name\":\"t\",\"arguments\":{}}}", out);
                mcp_arena_destroy_current_thread();
            });
        {
            std::unique_lock<std::mutex> l(meet.m);
            PBT_CHECK(meet.cv.wait_for(l, std::chrono::seconds(20), [&] { return meet.in == n; }), "only %zu of %zu calls reached the handler", meet.in, n);
        }
        peak = std::max(peak, n + 1);
        std::string out;
        Got g = asked(v, out);
        total++;
        g.same("connections", "active", n + 1);
        g.same("connections", "peak", peak);
        g.same("requests", "total", total - 1);
        if (reset) { // what is under way stays under way
            PBT_CHECK(v.ask(RESET, out), "no reply to the reset");
            peak = n + 1;
            total = 1;
            slow_us = 0;
            Got h = direct();
            h.same("connections", "active", n);
            h.same("connections", "peak", n + 1);
            h.same("requests", "total", 1);
        }
        if (hold) usleep((useconds_t)hold);
        { std::lock_guard<std::mutex> l(meet.m); meet.open = true; meet.cv.notify_all(); }
        for (auto& t : th) t.join();
        total += n;
        slow_us = std::max(slow_us, hold);
        Got e = direct();
        e.same("connections", "active", 0);
        e.same("connections", "peak", peak);
        e.same("requests", "total", total);
        e.same("requests", "successful", total);
        PBT_CHECK(e.at("latency_us", "max") >= slow_us, "longest latency %.0f us, a call was held %d us", e.at("latency_us", "max"), slow_us);
        e.latency_order();
    }
    c.nontrivial(peak > 2);
}

// Recorded events, directly.
static void events(Case& c) {
    PBT_CHECK(mcp_performance_metrics_init() == 0, "init failed");
    mcp_performance_metrics_reset();
    M m;
    uint64_t sum = 0, lo = UINT64_MAX, hi = 0;
    bool any = false, reset = false;
    int steps = 1 + (int)c.draw(6 + c.size());
    for (int i = 0; i < steps; i++) {
        switch (c.weighted({8, 2, 4, 1, 3})) {
        case 0: {
            bool ok = c.flip();
            auto big = [&]() -> uint64_t { return c.draw(3) ? (uint64_t)c.small(0, 5000) : c.draw(1ull << 40); };
            uint64_t l = big(), s = big(), r = big();
            c.note("request %d latency %llu", ok, (unsigned long long)l);
            mcp_performance_metrics_record_request(ok, l, s, r);
            m.total++; (ok ? m.ok : m.failed)++;
            m.out += s; m.in += r;
            sum += l; lo = std::min(lo, l); hi = std::max(hi, l);
            any = true;
            break;
        }
        case 1: c.note("timeout"); mcp_performance_metrics_record_timeout(); m.total++; m.timeout++; break;
        case 2: {
            int d = (int)c.range(-6, 8);
            c.note("connections %+d", d);
            mcp_performance_metrics_update_connections(d);
            m.active = d >= 0 || m.active >= (uint64_t)-d ? m.active + d : 0;
            m.peak = std::max(m.peak, m.active);
            break;
        }
        case 3: {
            c.note("reset");
            mcp_performance_metrics_reset();
            uint64_t a = m.active;
            m = M();
            m.active = m.peak = a;
            sum = hi = 0; lo = UINT64_MAX;
            any = false;
            reset = true;
            break;
        }
        default: {
            size_t n = c.draw(3) ? 1024 + c.draw(3072) : c.draw(1100);
            std::vector<char> exact(n); // reads and writes past the end are seen
            int w = mcp_performance_metrics_to_json(n ? exact.data() : (char*)"", n);
            PBT_CHECK(w < (int)n, "%d bytes of metrics for a buffer of %zu", w, n);
            if (w < 0) { PBT_CHECK(n < 1024, "metrics refused for a buffer of %zu bytes", n); break; }
            PBT_CHECK((size_t)w == strlen(exact.data()), "%d bytes announced, %zu written", w, strlen(exact.data()));
            Got g = parse(exact.data());
            g.counts(m);
            g.same("connections", "active", m.active);
            g.same("connections", "peak", m.peak);
            g.same("latency_us", "min", any ? lo : 0);
            g.same("latency_us", "max", hi);
            g.same("latency_us", "avg", m.total ? sum / m.total : 0);
            PBT_CHECK(mcp_performance_metrics_get_avg_latency() == (m.total ? sum / m.total : 0), "average latency %llu", (unsigned long long)mcp_performance_metrics_get_avg_latency());
            if (c.chance(1, 4)) { // a file holds the same
                std::string f = std::string(scratch_dir()) + "/metrics.json";
                PBT_CHECK(mcp_performance_metrics_export(f.c_str()) == 0, "export failed");
                FILE* fp = fopen(f.c_str(), "r");
                PBT_CHECK(fp, "no file");
                std::string s;
                char b[512];
                size_t k;
                while ((k = fread(b, 1, sizeof b, fp)) > 0) s.append(b, k);
                fclose(fp);
                unlink(f.c_str());
                Got e = parse(s);
                e.counts(m);
                e.same("connections", "active", m.active);
                e.same("latency_us", "max", hi);
            }
        }
        }
    }
    mcp_performance_metrics_update_connections(-(int)m.active);
    idle("at the end");
    c.nontrivial(m.failed + m.timeout > 0 && (reset || m.active > 0));
}

// Several threads record from the very first moment on.
static void start(Case& c) {
    size_t n = 2 + c.draw(5), per = 1 + c.draw(24), rounds = 1 + c.draw(80);
    c.note("%zu threads, %zu events each, %zu rounds", n, per, rounds);
    std::atomic<int> refused{0}, unseen{0};
    std::barrier gate((std::ptrdiff_t)n + 1), all((std::ptrdiff_t)n);
    auto down = [](size_t r) { return (r & 1) != 0; }; // latencies shrink
    auto meet = [](size_t r) { return (r & 2) != 0; }; // all connected at once
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            for (size_t r = 0; r < rounds; r++) {
                gate.arrive_and_wait();
                if (mcp_performance_metrics_init() != 0) refused++;
                if (meet(r)) {
                    all.arrive_and_wait();
                    mcp_performance_metrics_update_connections(1);
                    all.arrive_and_wait();
                    mcp_performance_metrics_update_connections(-1);
                }
                for (size_t i = 0; i < per; i++) {
                    mcp_performance_metrics_update_connections(1);
                    mcp_performance_metrics_record_request((i + t) % 3 != 0, down(r) ? (t + 1) * 100 - i : t * 100 + i + 1, 2, 3);
                    if (i % 8 == 1) { // one's own connection is there
                        char b[4096];
                        J j;
                        if (mcp_performance_metrics_to_json(b, sizeof b) > 0 && jparse(b, j) == 1 && j.get("connections")->get("active")->n < 1) unseen++;
                    }
                    if (i % 4 == 0) mcp_performance_metrics_record_timeout();
                    mcp_performance_metrics_update_connections(-1);
                }
                gate.arrive_and_wait();
            }
        });
    for (size_t r = 0; r < rounds; r++) {
        mcp_performance_metrics_shutdown();
        gate.arrive_and_wait();
        gate.arrive_and_wait();
        PBT_CHECK(!refused, "init failed");
        PBT_CHECK(!unseen, "no active connection while there was one");
        M m;
        for (size_t t = 0; t < n; t++)
            for (size_t i = 0; i < per; i++) {
                m.total += 1 + (i % 4 == 0);
                m.timeout += i % 4 == 0;
                ((i + t) % 3 ? m.ok : m.failed)++;
                m.out += 2; m.in += 3;
            }
        Got g = direct();
        g.counts(m);
        g.same("connections", "active", 0);
        g.same("latency_us", "min", down(r) ? 101 - per : 1);
        g.same("latency_us", "max", down(r) ? n * 100 : (n - 1) * 100 + per);
        if (meet(r)) g.same("connections", "peak", n);
        PBT_CHECK(g.at("connections", "peak") >= 1 && g.at("connections", "peak") <= (double)n, "peak %.0f with %zu threads", g.at("connections", "peak"), n);
    }
    for (auto& t : th) t.join();
    c.nontrivial(n > 2 && per > 3);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P47";
    o.rule = "history, threads: at least one message answered with an error and one with a result; together: two or more calls inside their handlers at once; "
             "events: a failure or timeout recorded and either a reset or a connection open; start: three or more threads with four or more events each";
    Test th{"threads", threads, 800, 8000}, st{"start", start, 1200, 12000};
    th.tries = st.tries = 60;
    o.tests = {{"history", history, 6000, 60000}, th, {"together", together, 800, 8000}, {"events", events, 10000, 100000}, st};
    o.assumptions = {"Messages are delivered at the seam between transport and server; a reset runs while no call begins or ends"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
