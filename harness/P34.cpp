// TECHNIQUE: stateful property-based testing with an ownership model, including misuse; randomised concurrent histories
// NOTE: Random acquire/release histories over several pools under ASan/UBSan against a model of who owns what; schedules are sampled.
#include "mcp.hpp"
extern "C" {
#include "mcp_object_pool.h"
#include "mcp_buffer_pool.h"
#include "mcp_object_cache.h"
#include "mcp_memory_pool.h"
}
using namespace pbt;

struct Held { void* p; size_t n; uint8_t seed; };
static void own(Held& h) { for (size_t i = 0; i < h.n; i++) ((uint8_t*)h.p)[i] = (uint8_t)(h.seed + i * 3); }
static void intact(const Held& h) {
    for (size_t i = 0; i < h.n; i++)
        PBT_CHECK(((uint8_t*)h.p)[i] == (uint8_t)(h.seed + i * 3), "an acquired block of %zu bytes changed at offset %zu while it was held", h.n, i);
}
static void disjoint(const std::vector<std::vector<Held>>& all, const Held& x) {
    for (auto& v : all) for (auto& h : v)
        PBT_CHECK((uint8_t*)x.p + x.n <= (uint8_t*)h.p || (uint8_t*)h.p + h.n <= (uint8_t*)x.p, "the block just acquired is already held");
}

static void objects(Case& c) {
    struct P { mcp_object_pool_t* p; size_t size, init, max, peak; };
    std::vector<P> pools;
    std::vector<std::vector<Held>> held;
    size_t np = c.flip() ? 1 : 1 + c.draw(12); // more pools than a thread caches
    auto mk = [&] {
        P x;
        x.size = 1 + (size_t)c.small(0, 300); x.init = (size_t)c.small(0, 30); x.max = c.flip() ? 0 : 1 + (size_t)c.small(0, 40); x.peak = 0;
        x.p = mcp_object_pool_create(x.size, x.init, x.max);
        PBT_CHECK(x.p, "pool refused");
        if (x.max && x.init > x.max) x.init = x.max;
        c.note("pool of %zu-byte objects, %zu initial, max %zu", x.size, x.init, x.max);
        return x;
    };
    for (size_t i = 0; i < np; i++) { pools.push_back(mk()); held.emplace_back(); }
    size_t rel = 0, refused = 0, destroyed = 0;
    int steps = 1 + (int)c.draw(10 + c.size() * 3);
    for (int s = 0; s < steps; s++) {
        size_t k = c.draw(np);
        P& x = pools[k];
        auto& h = held[k];
        switch (c.weighted({10, 8, 1})) {
        case 0:
            for (size_t n = c.draw(3) ? 1 : 1 + c.draw(20); n; n--) {
                Held b{mcp_object_pool_acquire(x.p), x.size, (uint8_t)c.draw(256)};
                if (x.max && h.size() >= x.max) { PBT_CHECK(!b.p, "object handed out beyond the maximum of %zu", x.max); refused++; continue; }
                PBT_CHECK(b.p, "acquire failed with %zu of at most %zu out", h.size(), x.max);
                PBT_CHECK((uintptr_t)b.p % 8 == 0, "object not aligned");
                disjoint(held, b);
                own(b);
                h.push_back(b);
                x.peak = std::max(x.peak, h.size());
            }
            break;
        case 1:
            for (size_t n = c.draw(3) ? 1 : 1 + c.draw(20); n && !h.empty(); n--) {
                size_t i = c.draw(h.size());
                intact(h[i]);
                memset(h[i].p, 0xDD, h[i].n);
                PBT_CHECK(mcp_object_pool_release(x.p, h[i].p), "release refused");
                h[i] = h.back();
                h.pop_back();
                rel++;
            }
            break;
        default:
            if (np > 1 && c.draw(3) == 0) { // everything back, then a fresh pool in its place
                for (auto& b : h) mcp_object_pool_release(x.p, b.p);
                h.clear();
                mcp_object_pool_destroy(x.p);
                x = mk();
                destroyed++;
            }
        }
        size_t tot, fr, cur, pk;
        PBT_CHECK(mcp_object_pool_get_stats(x.p, &tot, &fr, &cur, &pk), "stats failed");
        PBT_CHECK(cur == h.size() && tot == cur + fr, "counts: total %zu, free %zu, in use %zu; %zu are out", tot, fr, cur, h.size());
        PBT_CHECK(pk == x.peak, "peak %zu, expected %zu", pk, x.peak);
        PBT_CHECK(!x.max || tot <= x.max, "%zu objects, maximum %zu", tot, x.max);
        PBT_CHECK(tot == std::max(x.init, x.peak), "%zu objects made, though %zu initial and never more than %zu out (free ones not reused)", tot, x.init, x.peak);
        PBT_CHECK(mcp_object_pool_get_free_count(x.p) == fr && mcp_object_pool_get_total_count(x.p) == tot, "count functions disagree");
    }
    for (auto& v : held) for (auto& b : v) intact(b);
    c.nontrivial(rel > 0 && steps > 5);
    if (refused) c.label("objects: refused at the maximum");
    if (np > 8) c.label("objects: more pools than a thread caches");
    if (destroyed) c.label("objects: pool replaced");
    for (size_t i = 0; i < np; i++) { for (auto& b : held[i]) mcp_object_pool_release(pools[i].p, b.p); mcp_object_pool_destroy(pools[i].p); }
}
static void buffers(Case& c) {
    size_t np = 1 + c.draw(3);
    std::vector<mcp_buffer_pool_t*> pools;
    std::vector<size_t> size, init, peak;
    std::vector<std::vector<Held>> held, freed;
    for (size_t i = 0; i < np; i++) {
        size.push_back(1 + (size_t)c.small(0, 2000));
        init.push_back(1 + (size_t)c.small(0, 12));
        peak.push_back(0);
        pools.push_back(mcp_buffer_pool_create(size[i], init[i]));
        PBT_CHECK(pools[i], "pool refused");
        held.emplace_back(); freed.emplace_back();
        c.note("pool of %zu buffers of %zu bytes", init[i], size[i]);
    }
    PBT_CHECK(!mcp_buffer_pool_create(0, 3) && !mcp_buffer_pool_create(8, 0), "a pool of nothing was created");
    size_t rel = 0, misuse = 0;
    int steps = 1 + (int)c.draw(10 + c.size() * 2);
    for (int s = 0; s < steps; s++) {
        size_t k = c.draw(np);
        auto& h = held[k];
        switch (c.weighted({10, 8, 2, 2})) {
        case 0: {
            Held b{mcp_buffer_pool_acquire(pools[k]), size[k], (uint8_t)c.draw(256)};
            PBT_CHECK(b.p && (uintptr_t)b.p % 8 == 0, "buffer %p", b.p);
            disjoint(held, b);
            for (auto& v : freed) for (size_t i = 0; i < v.size(); i++) if (v[i].p == b.p) { v[i] = v.back(); v.pop_back(); break; }
            own(b);
            h.push_back(b);
            peak[k] = std::max(peak[k], h.size());
            break;
        }
        case 1: {
            if (h.empty()) break;
            size_t i = c.draw(h.size());
            intact(h[i]);
            mcp_buffer_pool_release(pools[k], h[i].p);
            freed[k].push_back(h[i]);
            h[i] = h.back();
            h.pop_back();
            rel++;
            break;
        }
        case 2: // released twice
            if (freed[k].empty()) break;
            mcp_buffer_pool_release(pools[k], freed[k][c.draw(freed[k].size())].p);
            misuse++;
            c.note("double release");
            break;
        default: { // a buffer of another pool, or not from a pool at all
            if (np > 1 && c.flip()) {
                size_t o = (k + 1) % np;
                if (!held[o].empty()) { mcp_buffer_pool_release(pools[k], held[o][c.draw(held[o].size())].p); misuse++; c.note("release to the wrong pool"); }
            } else {
                std::vector<uint64_t> mem(64, c.draw(3));
                mcp_buffer_pool_release(pools[k], &mem[16]);
                misuse++;
                c.note("release of foreign memory");
            }
        }
        }
        size_t tot, al, fr;
        mcp_buffer_pool_get_stats(pools[k], &tot, &al, &fr);
        PBT_CHECK(al == h.size() && tot == al + fr, "counts: total %zu, allocated %zu, free %zu; %zu are out", tot, al, fr, h.size());
        PBT_CHECK(tot == std::max(init[k], peak[k]), "%zu buffers made, though %zu initial and never more than %zu out (free ones not reused)", tot, init[k], peak[k]);
        PBT_CHECK(mcp_buffer_pool_get_buffer_size(pools[k]) == size[k], "buffer size");
    }
    for (auto& v : held) for (auto& b : v) intact(b);
    c.nontrivial(rel > 0 && steps > 5);
    if (misuse) c.label("buffers: misuse");
    for (size_t i = 0; i < np; i++) { for (auto& b : held[i]) mcp_buffer_pool_release(pools[i], b.p); mcp_buffer_pool_destroy(pools[i]); }
}
static void objcache(Case& c) {
    bool pools = c.flip();
    if (pools) mcp_memory_pool_system_init(2, 2, 2);
    std::vector<std::vector<Held>> held(MCP_OBJECT_CACHE_TYPE_COUNT);
    std::vector<size_t> size, hits(MCP_OBJECT_CACHE_TYPE_COUNT, 0);
    for (int i = 0; i < MCP_OBJECT_CACHE_TYPE_COUNT; i++) size.push_back(1 + (size_t)c.small(0, 5000));
    auto config = [&] {
        mcp_object_cache_config_t g;
        memset(&g, 0, sizeof g);
        g.max_size = c.draw(100);
        g.adaptive_sizing = c.flip();
        g.growth_threshold = (double)c.draw(11) / 10;
        g.shrink_threshold = (double)c.draw(11) / 10;
        g.min_cache_size = c.draw(100);
        g.max_cache_size = c.draw(200);
        return g;
    };
    size_t nt = 1 + c.draw(3), rel = 0;
    int steps = 1 + (int)c.draw(10 + c.size() * 4);
    for (int s = 0; s < steps; s++) {
        size_t k = c.draw(nt);
        auto t = (mcp_object_cache_type_t)k;
        auto& h = held[k];
        switch (c.weighted({10, 10, 1, 1})) {
        case 0:
            for (size_t n = c.draw(3) ? 1 : 1 + c.draw(80); n; n--) {
                Held b{mcp_object_cache_alloc(t, size[k]), size[k], (uint8_t)c.draw(256)};
                PBT_CHECK(b.p, "allocation failed");
                PBT_CHECK((uintptr_t)b.p % 8 == 0, "object not aligned");
                disjoint(held, b);
                own(b);
                h.push_back(b);
            }
            break;
        case 1:
            for (size_t n = c.draw(3) ? 1 : 1 + c.draw(80); n && !h.empty(); n--) {
                size_t i = c.draw(h.size());
                intact(h[i]);
                memset(h[i].p, 0xDD, h[i].n);
                mcp_object_cache_free(t, h[i].p, 0);
                h[i] = h.back();
                h.pop_back();
                rel++;
            }
            break;
        case 2: { auto g = config(); PBT_CHECK(mcp_object_cache_configure(t, &g), "configure refused"); break; }
        default: mcp_object_cache_flush(t);
        }
    }
    for (auto& v : held) for (auto& b : v) intact(b);
    c.nontrivial(rel > 0 && steps > 5);
    for (size_t k = 0; k < nt; k++) { for (auto& b : held[k]) mcp_object_cache_free((mcp_object_cache_type_t)k, b.p, 0); mcp_object_cache_cleanup((mcp_object_cache_type_t)k); }
    mcp_object_cache_system_shutdown();
    if (pools) mcp_memory_pool_system_cleanup();
}
static void concurrent(Case& c) {
    bool obj = c.flip();
    size_t nt = 2 + c.draw(6), ops = 100 + c.draw(300), n = 1 + c.draw(200), init = 1 + c.draw(6), max = c.flip() ? 0 : 4 + c.draw(40);
    uint64_t seed = c.draw(1ull << 60);
    if (max && init > max) init = max;
    mcp_object_pool_t* op = obj ? mcp_object_pool_create(n, init, max) : nullptr;
    mcp_buffer_pool_t* bp = obj ? nullptr : mcp_buffer_pool_create(n, init);
    c.note("%s pool, %zu threads, %zu operations each, max %zu", obj ? "object" : "buffer", nt, ops, max);
    c.label(obj ? "concurrent: object pool" : "concurrent: buffer pool");
    c.nontrivial();
    std::mutex mu;
    std::vector<Held> shared;
    std::atomic<long> live{0}, top{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    auto rel = [&](Held b) {
        intact(b);
        memset(b.p, 0xAB, b.n);
        live--;
        if (obj) { if (!mcp_object_pool_release(op, b.p)) fail("release refused"); } else mcp_buffer_pool_release(bp, b.p);
    };
    for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
        uint64_t r = seed + t * 7919;
        auto rnd = [&](uint64_t m) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (r >> 33) % m; };
        std::vector<Held> mine;
        while (!go) {}
        for (size_t i = 0; i < ops; i++) {
            uint64_t k = rnd(10);
            if (k < 5) {
                Held b{obj ? mcp_object_pool_acquire(op) : mcp_buffer_pool_acquire(bp), n, (uint8_t)rnd(256)};
                if (!b.p) { if (obj && max) continue; fail("acquire failed"); }
                long l = ++live, o = top;
                while (l > o && !top.compare_exchange_weak(o, l)) {}
                if (obj && max && l > (long)max) fail("%ld objects out, maximum %zu", l, max);
                own(b);
                mine.push_back(b);
            } else if (k < 8 && !mine.empty()) { size_t x = rnd(mine.size()); rel(mine[x]); mine[x] = mine.back(); mine.pop_back(); }
            else if (k == 8 && !mine.empty()) { std::lock_guard<std::mutex> g(mu); shared.push_back(mine.back()); mine.pop_back(); }
            else { Held b{nullptr, 0, 0}; { std::lock_guard<std::mutex> g(mu); if (!shared.empty()) { b = shared.back(); shared.pop_back(); } } if (b.p) rel(b); }
        }
        for (auto& b : mine) rel(b);
    });
    go = true;
    for (auto& t : th) t.join();
    for (auto& b : shared) rel(b);
    if (obj) {
        size_t tot, fr, cur, pk;
        mcp_object_pool_get_stats(op, &tot, &fr, &cur, &pk);
        PBT_CHECK(cur == 0, "%zu objects still out after all were released", cur);
        PBT_CHECK(!max || tot <= max, "%zu objects made, maximum %zu", tot, max);
        mcp_object_pool_destroy(op);
    } else {
        size_t tot, al, fr;
        mcp_buffer_pool_get_stats(bp, &tot, &al, &fr);
        PBT_CHECK(al == 0 && fr == tot, "%zu buffers still out after all were released", al);
        PBT_CHECK(tot <= std::max<size_t>(init, (size_t)top.load() + nt), "%zu buffers made, never more than %ld out", tot, top.load());
        mcp_buffer_pool_destroy(bp);
    }
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P34";
    o.rule = "history with at least one release and more than five steps (concurrent: every case, 2-7 threads)";
    o.worker_init = [] { quiet_logs(); };
    Test k{"concurrent", concurrent, 15000, 100000};
    k.tries = 60;
    k.batch = 100;
    o.tests = {{"objects", objects, 60000, 600000}, {"buffers", buffers, 60000, 600000}, {"object_cache", objcache, 12000, 120000}, k};
    o.assumptions = {"an object pool is destroyed after the threads that used it have ended, or by the thread that used it",
                     "objects of one object cache type have one size"};
    return run(argc, argv, o);
}
