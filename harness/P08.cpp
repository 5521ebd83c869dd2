// TECHNIQUE: property-based testing: LRU-with-expiry reference model on a virtual clock, plus concurrent histories checked for linearisable reads per URI
// NOTE: Expired entries still occupying a slot may or may not be preferred as the victim; the model leaves that choice open.
#include "mcp.hpp"
extern "C" {
#include "mcp_cache.h"
#include "mcp_object_pool.h"
}
using namespace pbt;

struct Item { int type; bool has_mime; std::string mime; std::string data; };
using Content = std::vector<Item>;

static Content gen_content(Case& c, size_t max_items) {
    Content v;
    size_t n = 1 + c.small(0, max_items - 1);
    for (size_t i = 0; i < n; i++) {
        Item it;
        it.type = (int)c.draw(3);
        it.has_mime = !c.chance(1, 5);
        it.mime = it.has_mime ? c.ident(0, 12) : "";
        it.data = c.bytes(c.chance(1, 8) ? 5000 : 24);
        v.push_back(it);
    }
    return v;
}
static int put(mcp_resource_cache_t* k, mcp_object_pool_t* pool, const std::string& uri, const Content& v, int ttl) {
    std::vector<mcp_content_item_t*> p;
    for (auto& it : v)
        p.push_back(mcp_content_item_create((mcp_content_type_t)it.type, it.has_mime ? it.mime.c_str() : nullptr, it.data.empty() ? nullptr : it.data.data(), it.data.size()));
    std::string u = uri; // the caller's storage changes after the call
    int r = mcp_cache_put(k, u.c_str(), pool, p.data(), p.size(), ttl);
    u.assign(u.size(), '!');
    for (auto* i : p) {
        if (i->data_size) memset(i->data, 0x5a, i->data_size);
        mcp_content_item_free(i);
    }
    return r;
}
static bool get(mcp_resource_cache_t* k, mcp_object_pool_t* pool, const std::string& uri, Content& out) {
    mcp_content_item_t** p = (mcp_content_item_t**)1;
    size_t n = 77;
    int r = mcp_cache_get(k, uri.c_str(), pool, &p, &n);
    out.clear();
    if (r != 0) {
        PBT_CHECK(p == nullptr && n == 0, "a miss handed out content");
        return false;
    }
    PBT_CHECK(p && n > 0 && n < 1000, "a hit without content");
    for (size_t i = 0; i < n; i++) {
        Item it;
        it.type = p[i]->type;
        it.has_mime = p[i]->mime_type != nullptr;
        it.mime = it.has_mime ? p[i]->mime_type : "";
        it.data.assign(p[i]->data ? (const char*)p[i]->data : "", p[i]->data_size);
        if (p[i]->data_size) memset(p[i]->data, 0x77, p[i]->data_size); // the copy is ours
        out.push_back(it);
        mcp_content_item_release_pooled(pool, p[i]);
    }
    free(p);
    return true;
}
static bool same(const Content& a, const Content& b) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++)
        if (a[i].type != b[i].type || a[i].mime != b[i].mime || a[i].data != b[i].data) return false;
    return true;
}

struct Entry { Content v; time_t expiry; };

static void model(Case& c) {
    vt::freeze(1700000000 + (time_t)c.draw(1000));
    size_t cap = c.chance(1, 12) ? 0 : 1 + c.small(0, c.chance(1, 6) ? 60 : 7);
    long def = c.pick({10L, 1L, 60L, 300L, 0L, -1L});
    size_t max_items = 4;
    bool loose = c.chance(1, 5);
    mcp_resource_cache_t* k = mcp_cache_create(cap, def);
    // room for every entry, one being stored and one being handed out
    mcp_object_pool_t* pool = mcp_object_pool_create(sizeof(mcp_content_item_t), c.draw(4), (cap + 2) * max_items + 8);
    PBT_CHECK(k && pool, "creation failed");
    std::list<std::string> lru; // front: most recently used; includes expired entries that still hold a slot
    std::map<std::string, Entry> m;
    std::set<std::string> maybe; // loose mode: may have been evicted
    std::vector<std::string> uris;
    size_t nu = 1 + c.draw(cap * 2 + 3);
    for (size_t i = 0; i < nu; i++) uris.push_back(c.chance(1, 3) ? c.text(30) + fmt("%zu", i) : fmt("res://%zu", i));
    for (auto& u : uris) u = std::string(u.c_str());
    std::sort(uris.begin(), uris.end());
    uris.erase(std::unique(uris.begin(), uris.end()), uris.end());
    int evictions = 0, expiries = 0, hits = 0;
    auto expired = [&](const std::string& u) { return m[u].expiry != 0 && vt::now() >= m[u].expiry; };
    auto drop = [&](const std::string& u) { lru.remove(u); m.erase(u); maybe.erase(u); };
    auto lookup = [&](const std::string& u) {
        Content got;
        bool h = get(k, pool, u, got);
        c.note("get %s: %s", esc(u).c_str(), h ? "hit" : "miss");
        auto it = m.find(u);
        if (it == m.end()) { PBT_CHECK(!h, "%s: content for a URI that is not cached", esc(u).c_str()); return; }
        if (expired(u)) {
            expiries++;
            PBT_CHECK(!h, "%s: expired content was returned", esc(u).c_str());
            drop(u);
            return;
        }
        if (!h && maybe.count(u)) { drop(u); return; }
        PBT_CHECK(h, "%s: stored content is gone", esc(u).c_str());
        PBT_CHECK(same(got, it->second.v), "%s: other content than stored (%zu items instead of %zu)", esc(u).c_str(), got.size(), it->second.v.size());
        hits++;
        maybe.erase(u);
        lru.remove(u);
        lru.push_front(u);
    };
    int steps = (int)c.range(1, 10 + c.size());
    for (int s = 0; s < steps; s++) {
        const std::string u = c.pick(uris);
        switch (c.weighted({6, 6, 1, 3, 1})) {
        case 0: {
            Content v = gen_content(c, max_items);
            int ttl = c.pick({0, 0, 1, 5, 30, 3600, -1, -7});
            if (cap && (!m.count(u) || maybe.count(u)) && m.size() >= cap) {
                bool ghosts = false;
                for (auto& x : m) ghosts |= expired(x.first);
                if (ghosts && !loose) {
                    mcp_cache_prune_expired(k);
                    for (auto& x : uris) if (m.count(x) && expired(x)) { drop(x); expiries++; }
                    c.note("prune");
                }
                if (m.size() >= cap) {
                    evictions++;
                    if (loose) for (auto& x : lru) maybe.insert(x);
                    else { c.note("  evicts %s", esc(lru.back()).c_str()); drop(std::string(lru.back())); }
                }
            }
            int r = put(k, pool, u, v, ttl);
            c.note("put %s ttl %d: %d", esc(u).c_str(), ttl, r);
            PBT_CHECK(r == 0, "storing failed");
            if (!cap) break;
            long eff = ttl == 0 ? def : ttl;
            if (m.count(u)) lru.remove(u);
            m[u] = Entry{v, eff <= 0 ? 0 : vt::now() + eff};
            maybe.erase(u);
            lru.push_front(u);
            break;
        }
        case 1: lookup(u); break;
        case 2: {
            int r = mcp_cache_invalidate(k, u.c_str());
            c.note("invalidate %s: %d", esc(u).c_str(), r);
            if (!m.count(u)) PBT_CHECK(r != 0, "invalidating an absent URI reported success");
            else if (!expired(u) && !maybe.count(u)) PBT_CHECK(r == 0, "invalidating a cached URI failed");
            if (m.count(u)) drop(u);
            break;
        }
        case 3: {
            time_t d = c.pick({1, 1, 4, 5, 9, 10, 29, 60, 300, 4000});
            vt::advance(d);
            c.note("advance %ld", (long)d);
            break;
        }
        case 4: {
            size_t n = mcp_cache_prune_expired(k), e = 0;
            for (auto& x : uris) if (m.count(x) && expired(x)) { drop(x); e++; }
            c.note("prune: %zu", n);
            PBT_CHECK(n <= e, "pruning removed %zu entries but only %zu had expired", n, e);
            expiries += (int)e;
            break;
        }
        }
    }
    // capacity bound and final state, least recently used first so that order is not disturbed
    size_t live = 0;
    std::vector<std::string> all(uris);
    for (auto& u : all) { int h = hits; lookup(u); live += hits > h; }
    PBT_CHECK(live <= cap, "%zu entries cached with capacity %zu", live, cap);
    mcp_cache_destroy(k);
    mcp_object_pool_destroy(pool);
    vt::off();
    if (evictions) c.label("eviction");
    if (expiries) c.label("expiry");
    if (loose) c.label("loose");
    c.nontrivial(hits > 0 && (evictions > 0 || expiries > 0));
}

// A content pool too small for the load: operations may fail, but never corrupt or leak.
static void scarce(Case& c) {
    size_t cap = 1 + c.draw(4), max = 1 + c.draw(12);
    mcp_resource_cache_t* k = mcp_cache_create(cap, -1);
    mcp_object_pool_t* pool = mcp_object_pool_create(sizeof(mcp_content_item_t), c.draw(max + 1), max);
    std::map<std::string, Content> m;
    int failed = 0, hits = 0, steps = (int)c.range(2, 10 + c.size() / 2);
    for (int s = 0; s < steps; s++) {
        std::string u = fmt("u%d", (int)c.draw(cap + 2));
        switch (c.weighted({5, 4, 1})) {
        case 0: {
            Content v = gen_content(c, 5);
            int r = put(k, pool, u, v, 0);
            c.note("put %s (%zu items): %d", u.c_str(), v.size(), r);
            if (r == 0) m[u] = v; else failed++;
            break;
        }
        case 1: {
            Content got;
            bool h = get(k, pool, u, got);
            c.note("get %s: %s", u.c_str(), h ? "hit" : "miss");
            if (h) { hits++; PBT_CHECK(m.count(u) && same(got, m[u]), "%s: other content than stored", u.c_str()); }
            break;
        }
        case 2: mcp_cache_invalidate(k, u.c_str()); c.note("invalidate %s", u.c_str()); m.erase(u); break;
        }
    }
    for (size_t i = 0; i < cap + 2; i++) mcp_cache_invalidate(k, fmt("u%zu", i).c_str());
    // an empty cache holds no items: all of them can be had, each once
    std::set<void*> seen;
    for (size_t i = 0; i < max; i++) {
        void* p = mcp_object_pool_acquire(pool);
        PBT_CHECK(p, "the empty cache still holds %zu of %zu content items", max - i, max);
        PBT_CHECK(seen.insert(p).second, "one content item is handed out twice");
    }
    for (void* p : seen) mcp_object_pool_release(pool, p);
    mcp_cache_destroy(k);
    mcp_object_pool_destroy(pool);
    c.nontrivial(failed > 0 && hits > 0);
}

struct Op { int thread; int kind; int uri; long id; long t0, t1; }; // kind 0 put, 1 get hit, 2 invalidate, 3 miss

static void concurrent(Case& c) {
    size_t cap = 1 + c.draw(4), nt = 2 + c.draw(4), nu = 1 + c.draw(cap + 2);
    mcp_resource_cache_t* k = mcp_cache_create(cap, 1000);
    mcp_object_pool_t* pool = mcp_object_pool_create(sizeof(mcp_content_item_t), 4, 0);
    std::atomic<long> clock{0};
    std::atomic<bool> go{false};
    std::vector<std::vector<Op>> hist(nt);
    std::vector<std::vector<std::pair<int, int>>> plan(nt);
    int w = (int)c.draw(3);
    for (size_t i = 0; i < nt; i++) {
        int n = (int)c.range(5, 20 + c.size());
        for (int j = 0; j < n; j++) plan[i].push_back({(int)(w == 0 ? c.weighted({3, 5, 1, 0}) : w == 1 ? c.weighted({4, 4, 0, 1}) : c.weighted({2, 2, 2, 0})), (int)c.draw(nu)});
    }
    std::mutex em;
    std::string bad;
    std::vector<std::thread> ts;
    auto value = [](int u, long id) {
        Content v;
        size_t n = 1 + id % 5;
        for (size_t i = 0; i < n; i++) v.push_back(Item{0, true, "m", fmt("%d/%ld/%zu/%zu", u, id, i, n) + std::string(id % 7 * 40, 'x')});
        return v;
    };
    for (size_t t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            while (!go) std::this_thread::yield();
            for (size_t j = 0; j < plan[t].size(); j++) {
                auto [kind, u] = plan[t][j];
                std::string uri = fmt("u%d", u);
                Op o{(int)t, kind, u, (long)(t * 100000 + j), clock++, 0};
                if (kind == 0) { if (put(k, pool, uri, value(u, o.id), 0) != 0) { std::lock_guard<std::mutex> l(em); bad = "storing failed"; } }
                else if (kind == 1) {
                    Content got;
                    if (get(k, pool, uri, got)) {
                        int gu = -1;
                        long gid = -1;
                        sscanf(got[0].data.c_str(), "%d/%ld", &gu, &gid);
                        if (gu != u || gid < 0 || !same(got, value(u, gid))) { std::lock_guard<std::mutex> l(em); bad = fmt("lookup of u%d returned content that was never stored for it: %s", u, esc(got[0].data, 60).c_str()); }
                        o.id = gid;
                    } else o.kind = 3;
                } else if (kind == 2) mcp_cache_invalidate(k, uri.c_str());
                else { mcp_cache_prune_expired(k); o.kind = 4; }
                o.t1 = clock++;
                hist[t].push_back(o);
            }
        });
    go = true;
    for (auto& t : ts) t.join();
    PBT_CHECK(bad.empty(), "%s", bad.c_str());
    std::vector<Op> all;
    for (auto& h : hist) for (auto& o : h) all.push_back(o);
    int hits = 0;
    for (auto& g : all) if (g.kind == 1) {
        hits++;
        const Op* p = nullptr;
        for (auto& x : all) if (x.kind == 0 && x.id == g.id) p = &x;
        PBT_CHECK(p && p->uri == g.uri && p->t0 < g.t1, "lookup returned content %ld before it was stored", g.id);
        for (auto& x : all)
            if ((x.kind == 0 || x.kind == 2) && x.uri == g.uri && x.id != p->id && x.t0 > p->t1 && x.t1 < g.t0)
                fail("lookup of u%d at [%ld,%ld] returned content %ld stored at [%ld,%ld] although it was %s at [%ld,%ld]", g.uri, g.t0, g.t1, p->id, p->t0, p->t1, x.kind == 0 ? "replaced" : "invalidated", x.t0, x.t1);
    }
    // quiescent: the last content of each URI or nothing, within capacity
    size_t live = 0;
    for (size_t u = 0; u < nu; u++) {
        Content got;
        if (get(k, pool, fmt("u%zu", u), got)) live++;
    }
    PBT_CHECK(live <= cap, "%zu entries cached with capacity %zu", live, cap);
    mcp_cache_destroy(k);
    mcp_object_pool_destroy(pool);
    c.note("%zu threads, %zu operations, %d hits, capacity %zu, %zu URIs", nt, all.size(), hits, cap, nu);
    c.nontrivial(hits > 0);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P08";
    o.level = "bounded";
    o.rule = "model: at least one hit and at least one eviction or expiry; scarce: a failed store and a hit; concurrent: at least one hit";
    o.tests = {{"model", model, 150000, 800000}, {"scarce", scarce, 30000, 200000}, {"concurrent", concurrent, 15000, 80000, 30, 100, 40}};
    o.assumptions = {"time comes from time(), which the harness controls", "a NULL MIME type is stored as an empty one"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
