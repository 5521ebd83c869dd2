// TECHNIQUE: differential testing: the cached matcher against the plain one over generated histories of (template, URI) pairs with cache overflow and clean-up, and concurrently
// NOTE: The plain matcher is itself checked against a model in P11.
#include <atomic>
#include <thread>
#include "tpl.hpp"
extern "C" {
#include "mcp_thread_local.h"
}
using namespace pbt;

static std::string raw_tpl(Case& c) { // not necessarily well formed
    static const std::vector<std::string> A = {"{", "}", "a", "b", "/", "{x}", "{y?}", "{z:int}", "{w=5}", "{n:int=7}", "{f:float?}", "{q:bool=1}", "{a{b}", "{}", "{:int}", "{p:pattern:a*}", "example://", "{x?y}", "-"};
    std::string s;
    for (size_t i = 0, n = c.small(0, 8); i < n; i++) s += c.pick(A);
    return s;
}
struct Pair { std::string t, u; };
static Pair gen_pair(Case& c, std::vector<Pair>& seen) {
    Pair p;
    if (!seen.empty() && c.chance(1, 3)) {
        p = seen[c.draw(seen.size())];
        if (c.flip()) p.u = mutate(c, p.u);
        return p;
    }
    if (c.chance(1, 6)) {
        p.t = raw_tpl(c);
        for (char ch : p.t) if (ch != '{' && ch != '}') p.u += ch;
        if (c.flip()) p.u = mutate(c, p.u);
        return p;
    }
    Tpl t = gen_tpl(c, true);
    p.t = show(t);
    p.u = gen_uri(c, t, c.flip());
    if (c.chance(1, 3)) p.u = mutate(c, p.u);
    if (c.chance(1, 40)) p.u += std::string(c.range(240, 270), 'l');
    return p;
}
static void history(Case& c) {
    if (c.chance(1, 10)) mcp_template_cache_cleanup();
    size_t steps = 1 + c.small(0, 12 + (c.chance(1, 10) ? 200 : 0)), yes = 0, no = 0;
    std::vector<Pair> seen;
    for (size_t i = 0; i < steps; i++) {
        Pair p = gen_pair(c, seen);
        seen.push_back(p);
        Exact u(p.u), t(p.t);
        if (steps < 30) c.note("template %s URI %s", esc(p.t).c_str(), esc(p.u).c_str());
        bool m = mcp_template_matches(u.p, t.p) != 0, o = mcp_template_matches_optimized(u.p, t.p) != 0;
        PBT_CHECK(m == o, "%s against %s: plain says %s, cached says %s", esc(p.u).c_str(), esc(p.t).c_str(), m ? "match" : "no match", o ? "match" : "no match");
        mcp_json_t *a = mcp_template_extract_params(u.p, t.p), *b = mcp_template_extract_params_optimized(u.p, t.p);
        PBT_CHECK(!a == !b, "%s against %s: parameters extracted by the %s matcher only", esc(p.u).c_str(), esc(p.t).c_str(), a ? "plain" : "cached");
        if (a) {
            J x = from_node(a), y = from_node(b);
            PBT_CHECK(x == y, "%s against %s: plain extracts %s, cached %s", esc(p.u).c_str(), esc(p.t).c_str(), jdump(x).c_str(), jdump(y).c_str());
        }
        mcp_json_destroy(a);
        mcp_json_destroy(b);
        mcp_arena_reset_current_thread();
        (m ? yes : no)++;
        if (c.chance(1, 100)) mcp_template_cache_cleanup();
    }
    size_t h, m, e, l, n, mx;
    mcp_template_cache_get_stats(&h, &m, &e, &l, &n, &mx);
    PBT_CHECK(n <= mx && h + m == l, "statistics: %zu of %zu entries, %zu hits and %zu misses in %zu lookups", n, mx, h, m, l);
    if (e) c.label("evictions");
    c.note("%zu lookups, %zu matched", steps, yes);
    if (steps > 100) c.label("long");
    c.nontrivial(yes && no);
}
static void concurrent(Case& c) {
    struct Q { Pair p; bool m; std::string js; };
    std::vector<Q> qs;
    std::vector<Pair> seen;
    for (size_t i = 0, n = 5 + c.small(0, 200); i < n; i++) {
        Q q;
        q.p = gen_pair(c, seen);
        seen.push_back(q.p);
        q.m = mcp_template_matches(q.p.u.c_str(), q.p.t.c_str()) != 0;
        mcp_json_t* a = mcp_template_extract_params(q.p.u.c_str(), q.p.t.c_str());
        if (a) q.js = jdump(from_node(a));
        mcp_json_destroy(a);
        mcp_arena_reset_current_thread();
        qs.push_back(q);
    }
    size_t nth = 2 + c.draw(5), rounds = 1 + c.small(0, 3);
    std::vector<size_t> start;
    for (size_t i = 0; i < nth; i++) start.push_back(c.draw(qs.size()));
    bool cleaner = c.flip();
    std::atomic<size_t> gate{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < nth; i++)
        th.emplace_back([&, i] {
            mcp_arena_init_current_thread(1 << 14);
            gate++;
            while (gate.load() < nth) {}
            for (size_t k = 0; k < rounds * qs.size(); k++) {
                const Q& q = qs[(start[i] + k) % qs.size()];
                PBT_CHECK((mcp_template_matches_optimized(q.p.u.c_str(), q.p.t.c_str()) != 0) == q.m, "wrong verdict for %s against %s", esc(q.p.u).c_str(), esc(q.p.t).c_str());
                mcp_json_t* b = mcp_template_extract_params_optimized(q.p.u.c_str(), q.p.t.c_str());
                std::string js = b ? jdump(from_node(b)) : "";
                PBT_CHECK(js == q.js, "wrong parameters for %s against %s: %s", esc(q.p.u).c_str(), esc(q.p.t).c_str(), js.c_str());
                mcp_json_destroy(b);
                mcp_arena_reset_current_thread();
                if (cleaner && i == 0 && k % 17 == 0) mcp_template_cache_cleanup();
            }
            mcp_arena_destroy_current_thread();
        });
    for (auto& t : th) t.join();
    c.note("%zu threads, %zu pairs, %zu rounds", nth, qs.size(), rounds);
    if (qs.size() > 128) c.label("more templates than fit");
    c.nontrivial(true);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P12";
    o.rule = "the history has both matching and non-matching URIs, or several threads share the cache";
    o.tests = {{"history", history, 80000, 800000}, {"concurrent", concurrent, 1500, 15000, 60, 20, 20}};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
