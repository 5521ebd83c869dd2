// TECHNIQUE: stateful model-based testing against std::list; randomised concurrent histories with a conservation oracle
// NOTE: Random operation histories and thread schedules under ASan/UBSan; schedules are sampled, not enumerated.
#include "mcp.hpp"
extern "C" {
#include "mcp_list.h"
}
using namespace pbt;

struct Item { int id; std::atomic<int> freed{0}; };
static void item_free(void* p) { if (((Item*)p)->freed++) fail("item %d released twice", ((Item*)p)->id); }
static int item_cmp(const void* a, const void* b) { return ((const Item*)a)->id - *(const int*)b; }

struct M { mcp_list_t* l; std::list<std::pair<Item*, mcp_list_node_t*>> m; };

static void agree(const mcp_list_t* l, const std::list<std::pair<Item*, mcp_list_node_t*>>& m) {
    PBT_CHECK(mcp_list_size(l) == m.size(), "size %zu, expected %zu", mcp_list_size(l), m.size());
    PBT_CHECK(mcp_list_is_empty(l) == m.empty(), "is_empty wrong");
    auto want = m.begin();
    size_t n = 0;
    mcp_list_iterator_t it = mcp_list_iterator_begin(l);
    for (; mcp_list_iterator_is_valid(&it); mcp_list_iterator_next(&it), ++want, ++n) {
        PBT_CHECK(want != m.end(), "iteration yields more than %zu items", m.size());
        PBT_CHECK(mcp_list_iterator_get_data(&it) == want->first, "forward position %zu: wrong item", n);
    }
    PBT_CHECK(want == m.end(), "iteration stopped after %zu of %zu items", n, m.size());
    auto back = m.rbegin();
    n = 0;
    for (mcp_list_node_t* p = l->tail; p; p = p->prev, ++back, ++n) {
        PBT_CHECK(back != m.rend(), "backward traversal yields more than %zu items", m.size());
        PBT_CHECK(p->data == back->first, "backward position %zu: wrong item", n);
    }
    PBT_CHECK(back == m.rend(), "backward traversal stopped after %zu of %zu items", n, m.size());
}
static void sequential(Case& c) {
    std::vector<std::unique_ptr<Item>> all;
    std::vector<M> ls;
    size_t nl = 1 + c.draw(2);
    for (size_t i = 0; i < nl; i++) ls.push_back({mcp_list_create(c.flip() ? MCP_LIST_THREAD_SAFE : MCP_LIST_NOT_THREAD_SAFE), {}});
    auto mk = [&] { all.push_back(std::make_unique<Item>()); all.back()->id = (int)all.size(); return all.back().get(); };
    int steps = 1 + (int)c.draw(10 + c.size() * 3);
    int inner = 0;
    for (int s = 0; s < steps; s++) {
        M& L = ls[c.draw(nl)];
        auto nth = [&](size_t k) { auto i = L.m.begin(); std::advance(i, k); return i; };
        switch (c.weighted({10, 10, 8, 8, 6, 6, 8, 4, 1})) {
        case 0: { Item* x = mk(); c.note("push_front %d", x->id); auto n = mcp_list_push_front(L.l, x); PBT_CHECK(n, "push failed"); L.m.push_front({x, n}); break; }
        case 1: { Item* x = mk(); c.note("push_back %d", x->id); auto n = mcp_list_push_back(L.l, x); PBT_CHECK(n, "push failed"); L.m.push_back({x, n}); break; }
        case 2: {
            Item* x = mk();
            size_t k = c.draw(L.m.size() + 1);
            c.note("insert %d after position %zd", x->id, (ssize_t)k - 1);
            if (k == 0) { auto n = mcp_list_insert_after(L.l, nullptr, x); PBT_CHECK(n, "insert failed"); L.m.push_front({x, n}); }
            else { auto p = nth(k - 1); auto n = mcp_list_insert_after(L.l, p->second, x); PBT_CHECK(n, "insert failed"); L.m.insert(std::next(p), {x, n}); inner++; }
            break;
        }
        case 3: {
            if (L.m.empty()) break;
            size_t k = c.draw(L.m.size());
            auto p = nth(k);
            bool fr = c.flip();
            c.note("remove position %zu", k);
            void* d = mcp_list_remove(L.l, p->second, fr ? item_free : nullptr);
            if (fr) PBT_CHECK(d == nullptr && p->first->freed == 1, "remove with release: returned %p, released %d times", d, (int)p->first->freed);
            else PBT_CHECK(d == p->first && p->first->freed == 0, "remove returned the wrong item");
            L.m.erase(p);
            inner++;
            break;
        }
        case 4: { void* d = mcp_list_pop_front(L.l); c.note("pop_front"); PBT_CHECK(d == (L.m.empty() ? nullptr : L.m.front().first), "pop_front returned the wrong item"); if (d) L.m.pop_front(); break; }
        case 5: { void* d = mcp_list_pop_back(L.l); c.note("pop_back"); PBT_CHECK(d == (L.m.empty() ? nullptr : L.m.back().first), "pop_back returned the wrong item"); if (d) L.m.pop_back(); break; }
        case 6: {
            if (L.m.empty()) break;
            size_t k = c.draw(L.m.size());
            auto p = nth(k);
            c.note("move position %zu to front", k);
            mcp_list_move_to_front(L.l, p->second);
            L.m.splice(L.m.begin(), L.m, p);
            inner++;
            break;
        }
        case 7: {
            int id = (int)c.draw(all.size() + 2);
            mcp_list_node_t *n = mcp_list_find(L.l, &id, item_cmp), *w = nullptr;
            for (auto& p : L.m) if (p.first->id == id) { w = p.second; break; }
            PBT_CHECK(n == w, "find(%d) %s", id, w ? "did not find the item" : "found an absent item");
            break;
        }
        default: {
            bool fr = c.flip();
            c.note("clear");
            mcp_list_clear(L.l, fr ? item_free : nullptr);
            for (auto& p : L.m) PBT_CHECK(p.first->freed == (fr ? 1 : 0), "clear released item %d %d times", p.first->id, (int)p.first->freed);
            L.m.clear();
        }
        }
        for (auto& q : ls) agree(q.l, q.m);
        for (auto& q : ls) for (auto& p : q.m) PBT_CHECK(p.first->freed == 0, "live item %d was released", p.first->id);
    }
    c.nontrivial(steps > 5 && inner > 0);
    for (auto& q : ls) { mcp_list_destroy(q.l, item_free); for (auto& p : q.m) PBT_CHECK(p.first->freed == 1, "destroy released item %d %d times", p.first->id, (int)p.first->freed); }
}
static void concurrent(Case& c) {
    size_t nt = 2 + c.draw(6);
    mcp_list_t* l = mcp_list_create(MCP_LIST_THREAD_SAFE);
    unsigned mode = (unsigned)c.draw(3);
    size_t per = 200 + c.draw(400);
    std::vector<std::vector<Item>> items(nt);
    std::vector<std::vector<Item*>> got(nt);
    std::vector<mcp_list_node_t*> shared;
    std::vector<Item> fixed(8);
    uint64_t seed = c.draw(1ull << 60);
    c.note("%zu threads, mode %u, %zu operations each", nt, mode, per);
    c.nontrivial();
    c.label(mode == 0 ? "concurrent: push and pop" : mode == 1 ? "concurrent: move to front" : "concurrent: insert and remove own items");
    if (mode == 1) for (auto& f : fixed) { f.id = (int)(&f - &fixed[0]); shared.push_back(mcp_list_push_back(l, &f)); }
    for (auto& v : items) { v = std::vector<Item>(per); }
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
        uint64_t r = seed + t * 7919;
        auto rnd = [&](uint64_t n) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (r >> 33) % n; };
        std::vector<std::pair<mcp_list_node_t*, Item*>> own;
        while (!go) {}
        for (size_t i = 0; i < per; i++) {
            Item* x = &items[t][i];
            x->id = (int)(t * 100000 + i);
            if (mode == 1) { mcp_list_move_to_front(l, shared[rnd(shared.size())]); continue; }
            mcp_list_node_t* n = rnd(2) ? mcp_list_push_back(l, x) : mcp_list_push_front(l, x);
            if (!n) fail("push failed");
            if (mode == 2) {
                own.push_back({n, x});
                if (rnd(2)) { size_t k = rnd(own.size()); void* d = mcp_list_remove(l, own[k].first, nullptr); if (d != own[k].second) fail("remove returned another item"); got[t].push_back((Item*)d); own.erase(own.begin() + k); }
                else if (rnd(3) == 0) { size_t k = rnd(own.size()); mcp_list_move_to_front(l, own[k].first); }
                continue;
            }
            for (uint64_t k = rnd(3); k; k--) { void* d = rnd(2) ? mcp_list_pop_front(l) : mcp_list_pop_back(l); if (d) got[t].push_back((Item*)d); }
        }
    });
    go = true;
    for (auto& t : th) t.join();
    std::map<Item*, int> seen;
    for (auto& g : got) for (auto* p : g) seen[p]++;
    size_t fwd = 0, back = 0;
    for (mcp_list_node_t* n = l->head; n; n = n->next) { if (mode != 1) seen[(Item*)n->data]++; else seen[(Item*)n->data]++; if (++fwd > nt * per + 100) fail("the list has a cycle"); }
    for (mcp_list_node_t* n = l->tail; n; n = n->prev) if (++back > nt * per + 100) fail("the list has a cycle (backwards)");
    PBT_CHECK(fwd == mcp_list_size(l) && back == fwd, "size %zu, %zu forwards, %zu backwards", mcp_list_size(l), fwd, back);
    size_t total = mode == 1 ? fixed.size() : nt * per;
    PBT_CHECK(seen.size() == total, "%zu of %zu items accounted for", seen.size(), total);
    for (auto& p : seen) PBT_CHECK(p.second == 1, "item %d returned or present %d times", p.first->id, p.second);
    mcp_list_destroy(l, nullptr);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P32";
    o.rule = "sequential: more than five operations including one in the middle of the list; concurrent: every case (2-7 threads, 200-600 operations each)";
    o.worker_init = [] { quiet_logs(); };
    Test s{"sequential", sequential, 300000, 3000000};
    Test k{"concurrent", concurrent, 30000, 300000};
    k.tries = 60;
    k.batch = 100;
    o.tests = {s, k};
    o.assumptions = {"lists are created and destroyed by one thread at a time; a node handle is used only while its item is in the list"};
    return run(argc, argv, o);
}
