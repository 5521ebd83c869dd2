// TECHNIQUE: stateful property-based testing: generated histories of stored events (given and generated ids, any capacity, many wrap-arounds, data with line breaks, long data, failing writes) and replays; oracle: reference ring of the most recent events, read back from the captured bytes with an independent event-stream reader; plus concurrent stores and replays
// NOTE: Carriage returns cannot be carried in the event-stream format and are not generated in data. When one id is retained more than once, a replay after any of its occurrences is accepted. lws_write is replaced by a stand-in that records the bytes.
// LINK: -Wl,--wrap=lws_write
#include "pbt.hpp"
#include "mcp.hpp"
#include "sse.hpp"
#include <thread>
#include <atomic>
#include <deque>
#include <unistd.h>
using namespace pbt;

extern "C" {
void* p21_create(size_t cap);
void p21_destroy(void*);
void p21_store(void*, const char* id, const char* type, const char* data);
int p21_replay(void*, void* wsi, const char* last);

static thread_local std::string* t_out;
static thread_local int t_fail_at = -1;
int __wrap_lws_write(void* wsi, unsigned char* buf, size_t len, int proto) {
    (void)wsi; (void)proto;
    if (t_fail_at >= 0 && t_fail_at-- == 0) return -1;
    if (t_out) t_out->append((const char*)buf, len);
    return (int)len;
}
}
static long g_wsi_mem[64]; // never looked into: lws_write is replaced

struct Ev { std::string id, type, data; bool has_type; };

static std::string gen_data(Case& c) {
    std::string s;
    switch (c.weighted({6, 4, 2, 1})) {
    case 0: return c.printable(40);
    case 1: { // several lines, some empty, some that look like fields
        int n = (int)c.range(1, 6);
        for (int i = 0; i < n; i++) {
            if (i) s += "\n";
            switch (c.draw(5)) {
            case 0: break;
            case 1: s += "id: 7"; break;
            case 2: s += " indented: " + c.printable(8); break;
            case 3: s += ":comment"; break;
            default: s += c.printable(12);
            }
        }
        return s;
    }
    case 2: { // near buffer sizes
        static const size_t near[] = {255, 1000, 2040, 4050, 4078, 4090, 4096, 4100, 8192, 16384};
        size_t n = near[c.draw(10)] + c.draw(24);
        s.assign(n, 'x');
        for (int i = 0; i < 4; i++) s[c.draw(n)] = (char)('a' + c.draw(26));
        if (c.chance(1, 3)) s[c.draw(n)] = '\n';
        return s;
    }
    default: {
        for (char ch : c.bytes(60)) if (ch && ch != '\r') s += ch;
        return s;
    }
    }
}
static std::string show(const std::string& s) { return s.size() > 80 ? esc(s.substr(0, 60)) + fmt("...(%zu bytes)", s.size()) : esc(s); }

static bool same(const std::vector<SseEvent>& got, const std::deque<Ev>& want, size_t from, std::string& why) {
    size_t n = want.size() - from;
    for (size_t i = 0; i < got.size() && i < n; i++) {
        auto& w = want[from + i];
        auto& g = got[i];
        if (!g.has_id || g.id != w.id) { why = fmt("event %zu has id %s, expected %s", i, show(g.id).c_str(), show(w.id).c_str()); return false; }
        if (g.has_type != w.has_type || g.type != w.type) { why = fmt("event %zu (id %s) has type %s, expected %s", i, show(w.id).c_str(), show(g.type).c_str(), show(w.type).c_str()); return false; }
        if (!g.has_data || g.data != w.data) { why = fmt("event %zu (id %s) carries data %s, expected %s", i, show(w.id).c_str(), show(g.data).c_str(), show(w.data).c_str()); return false; }
    }
    if (got.size() != n) { why = fmt("%zu events replayed, expected %zu", got.size(), n); return false; }
    return true;
}

static void history(Case& c) {
    size_t cap;
    switch (c.weighted({4, 3, 1})) {
    case 0: cap = c.range(1, 6); break;
    case 1: cap = c.range(1, 40); break;
    default: cap = c.range(200, 700);
    }
    void* ctx = p21_create(cap);
    PBT_CHECK(ctx, "no event store with capacity %zu", cap);
    std::deque<Ev> model;
    unsigned long long next = 1;
    size_t stored = 0, replays = 0;
    std::vector<std::string> gone;
    bool dup = c.chance(1, 8);
    int steps = (int)c.size() / 2 + 3;
    std::string trail = fmt("capacity %zu", cap);
    for (int st = 0; st < steps; st++) {
        if (c.chance(2, 3)) {
            size_t burst = c.chance(1, 6) ? c.range(1, cap + cap / 2 + 2) : 1;
            for (size_t b = 0; b < burst; b++) {
                Ev e;
                bool given = c.chance(1, 3);
                if (given) {
                    if (dup && !model.empty() && c.chance(1, 2)) e.id = model[c.draw(model.size())].id;
                    else e.id = fmt("%c%zu-%s", "abXY_"[c.draw(5)], stored, c.ident(0, 4).c_str());
                } else e.id = fmt("%llu", next++);
                e.has_type = !c.chance(1, 5);
                if (e.has_type) e.type = c.chance(1, 2) ? "message" : c.ident(1, 12);
                e.data = burst > 8 ? fmt("d%zu", stored) : gen_data(c);
                if (st < 12 && burst < 3) trail += fmt("; store id=%s type=%s data=%s", given ? e.id.c_str() : "(generated)", e.has_type ? e.type.c_str() : "(none)", show(e.data).c_str());
                p21_store(ctx, given ? e.id.c_str() : nullptr, e.has_type ? e.type.c_str() : nullptr, e.data.c_str());
                stored++;
                model.push_back(e);
                if (model.size() > cap) { gone.push_back(model.front().id); model.pop_front(); if (gone.size() > 50) gone.erase(gone.begin()); }
            }
            if (burst > 2) trail += fmt("; store %zu more", burst);
        } else {
            replays++;
            const char* last = nullptr;
            std::string lid;
            int kind = (int)c.weighted({6, 1, 2, 1});
            if (kind == 0 && !model.empty()) {
                switch (c.draw(4)) {
                case 0: lid = model.front().id; break;
                case 1: lid = model.back().id; break;
                default: lid = model[c.draw(model.size())].id;
                }
                last = lid.c_str();
            } else if (kind == 2 && !gone.empty()) { lid = gone[c.draw(gone.size())]; last = lid.c_str(); }
            else if (kind == 3) { lid = "no-such-" + c.ident(1, 5); last = lid.c_str(); }
            std::string out;
            t_out = &out;
            if (c.chance(1, 12)) { // a write that fails; the next replay must be whole again
                t_fail_at = (int)c.draw(3);
                p21_replay(ctx, g_wsi_mem, last);
                t_fail_at = -1;
                out.clear();
                c.label("after a failed write");
            }
            int n = p21_replay(ctx, g_wsi_mem, last);
            t_out = nullptr;
            std::string rest, why;
            auto got = sse_read(out, &rest);
            std::vector<size_t> starts;
            if (last) for (size_t i = 0; i < model.size(); i++) if (model[i].id == lid) starts.push_back(i + 1);
            if (starts.empty()) starts.push_back(0);
            bool ok = false;
            for (auto s : starts) if (same(got, model, s, why)) ok = true;
            PBT_CHECK(ok, "%s; after %zu stores, replay after %s: %s", trail.c_str(), stored, last ? lid.c_str() : "(none)", why.c_str());
            PBT_CHECK(rest.empty(), "%s; replay leaves unfinished text %s", trail.c_str(), show(rest).c_str());
            PBT_CHECK(n == (int)got.size(), "%s; replay reports %d events, %zu were sent", trail.c_str(), n, got.size());
            if (starts.size() > 1) c.label("repeated id");
            if (stored > 2 * cap) c.label("wrapped twice or more");
            if (last && starts[0]) c.label("retained id");
            if (last && !starts[0]) c.label("unknown id");
        }
    }
    p21_destroy(ctx);
    c.nontrivial(replays && stored > cap);
    if (c.size() < 30) c.note("%s", trail.c_str());
}

static void threads(Case& c) {
    size_t cap = c.range(2, 60);
    int writers = (int)c.range(2, 4), each = (int)c.range(20, 120);
    void* ctx = p21_create(cap);
    PBT_CHECK(ctx, "no event store");
    std::atomic<bool> go{false}, stop{false};
    std::vector<std::thread> ts;
    for (int w = 0; w < writers; w++) ts.emplace_back([&, w] {
        while (!go) std::this_thread::yield();
        for (int i = 0; i < each; i++) { std::string d = fmt("w%d:%d\nline", w, i); p21_store(ctx, nullptr, "message", d.c_str()); }
    });
    std::string bad;
    auto check = [&](const std::string& out) {
        auto ev = sse_read(out);
        long prev = -1;
        std::vector<int> seq(writers, -1);
        for (auto& e : ev) {
            long id = atol(e.id.c_str());
            int w = -1, i = -1;
            if (prev >= 0 && id != prev + 1) return fmt("id %ld follows %ld", id, prev);
            prev = id;
            if (sscanf(e.data.c_str(), "w%d:%d\nline", &w, &i) != 2 || w < 0 || w >= writers) return fmt("data %s", show(e.data).c_str());
            if (seq[w] >= 0 && i != seq[w] + 1) return fmt("writer %d: event %d follows %d", w, i, seq[w]);
            seq[w] = i;
        }
        if (ev.size() > cap) return fmt("%zu events replayed from a store of %zu", ev.size(), cap);
        return std::string();
    };
    std::thread reader([&] {
        while (!stop && bad.empty()) {
            std::string out;
            t_out = &out;
            p21_replay(ctx, g_wsi_mem, nullptr);
            t_out = nullptr;
            bad = check(out);
            usleep(50);
        }
    });
    go = true;
    for (auto& t : ts) t.join();
    stop = true;
    reader.join();
    PBT_CHECK(bad.empty(), "%d writers of %d events, capacity %zu, replay meanwhile: %s", writers, each, cap, bad.c_str());
    std::string out;
    t_out = &out;
    p21_replay(ctx, g_wsi_mem, nullptr);
    t_out = nullptr;
    std::string why = check(out);
    auto ev = sse_read(out);
    size_t want = std::min(cap, (size_t)writers * each);
    PBT_CHECK(why.empty() && ev.size() == want && (ev.empty() || atol(ev.back().id.c_str()) == (long)writers * each),
              "after %d writers of %d events the store of %zu replays %zu events ending with id %s %s", writers, each, cap, ev.size(),
              ev.empty() ? "-" : ev.back().id.c_str(), why.c_str());
    p21_destroy(ctx);
    c.nontrivial(true);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P21";
    o.rule = "the history replays at least once and stores more events than the store holds; or stores and replays run at once";
    o.tests = {
        {"history", history, 30000, 300000},
        {"threads", threads, 400, 4000, 30, 40, 10},
    };
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
