// TECHNIQUE: stateful property-based testing with an interval and content model; randomised concurrent histories
// NOTE: Random allocation histories under ASan/UBSan against a model of live blocks; schedules are sampled, not enumerated.
#include "mcp.hpp"
extern "C" {
#include "mcp_memory_pool.h"
#include "mcp_thread_cache.h"
#include "mcp_object_cache.h"
}
using namespace pbt;

// The model: live blocks, disjoint, each filled with its own pattern.
struct Live {
    struct B { size_t n; uint8_t seed; size_t id; };
    std::map<uintptr_t, B> m;
    size_t next = 0;
    void add(void* p, size_t n, size_t align, uint8_t seed) {
        PBT_CHECK(p, "allocation of %zu bytes failed", n);
        uintptr_t a = (uintptr_t)p;
        PBT_CHECK(a % align == 0, "block %p is not aligned to %zu", p, align);
        auto it = m.lower_bound(a);
        if (it != m.end()) PBT_CHECK(it->first >= a + n, "new block overlaps live block %zu", it->second.id);
        if (it != m.begin()) { --it; PBT_CHECK(it->first + it->second.n <= a, "new block overlaps live block %zu", it->second.id); }
        for (size_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)(seed + i * 7);
        m[a] = {n, seed, next++};
    }
    void verify(uintptr_t a, const B& b) const {
        for (size_t i = 0; i < b.n; i++)
            PBT_CHECK(((uint8_t*)a)[i] == (uint8_t)(b.seed + i * 7), "block %zu changed at offset %zu of %zu while it was live", b.id, i, b.n);
    }
    void verify_all() const { for (auto& p : m) verify(p.first, p.second); }
};
static size_t any_size(Case& c) {
    switch (c.draw(4)) {
    case 0: return c.pick({(size_t)1, (size_t)255, (size_t)256, (size_t)257, (size_t)1023, (size_t)1024, (size_t)1025, (size_t)4095, (size_t)4096, (size_t)4097});
    case 1: return 1 + c.draw(256);
    case 2: return 1 + c.draw(5000);
    default: return (size_t)c.small(1, 20000);
    }
}
static void* nth(Live& L, size_t k, Live::B& b) {
    auto it = L.m.begin();
    std::advance(it, k);
    b = it->second;
    return (void*)it->first;
}
static void pool(Case& c) {
    size_t bs = 24 + (size_t)c.small(0, 600), init = (size_t)c.small(0, 20), max = c.flip() ? 0 : init + (size_t)c.small(0, 30);
    if (c.draw(6) == 0) bs = c.draw(24); // too small: must be refused
    mcp_memory_pool_t* p = mcp_memory_pool_create(bs, init, max);
    c.note("pool of %zu-byte blocks, %zu initial, max %zu", bs, init, max);
    if (!p) { PBT_CHECK(bs < 24, "pool with %zu-byte blocks refused", bs); return; }
    mcp_memory_pool_t* other = mcp_memory_pool_create(64, 2, 0);
    Live L;
    size_t peak = 0, frees = 0, refused = 0;
    int steps = 1 + (int)c.draw(10 + c.size() * 2);
    for (int s = 0; s < steps; s++) {
        mcp_memory_pool_stats_t st;
        switch (c.weighted({10, 7, 1, 1})) {
        case 0: {
            void* b = mcp_memory_pool_alloc(p);
            bool full = max && L.m.size() >= max;
            if (full) { PBT_CHECK(!b, "block handed out beyond the maximum of %zu", max); refused++; }
            else L.add(b, bs, 8, (uint8_t)c.draw(256));
            break;
        }
        case 1: {
            if (L.m.empty()) break;
            Live::B b;
            void* q = nth(L, c.draw(L.m.size()), b);
            L.verify((uintptr_t)q, b);
            L.m.erase((uintptr_t)q);
            memset(q, 0xDD, bs);
            PBT_CHECK(mcp_memory_pool_free(p, q), "free of a live block refused");
            frees++;
            break;
        }
        case 2: { // a block of another pool, or malloc'd memory, is refused
            void* q = c.flip() ? mcp_memory_pool_alloc(other) : nullptr;
            void* z = q ? q : malloc(64);
            PBT_CHECK(!mcp_memory_pool_free(p, z), "foreign block accepted");
            if (q) mcp_memory_pool_free(other, q); else free(z);
            break;
        }
        default: L.verify_all();
        }
        peak = std::max(peak, L.m.size());
        PBT_CHECK(mcp_memory_pool_get_stats(p, &st), "stats failed");
        PBT_CHECK(st.allocated_blocks == L.m.size(), "stats: %zu allocated, %zu live", st.allocated_blocks, L.m.size());
        PBT_CHECK(st.total_blocks == st.free_blocks + st.allocated_blocks, "stats: total %zu, free %zu, allocated %zu", st.total_blocks, st.free_blocks, st.allocated_blocks);
        PBT_CHECK(!max || st.total_blocks <= max, "stats: %zu blocks, maximum %zu", st.total_blocks, max);
        PBT_CHECK(st.peak_usage == peak && st.block_size == bs, "stats: peak %zu, expected %zu; block size %zu, expected %zu", st.peak_usage, peak, st.block_size, bs);
    }
    L.verify_all();
    c.nontrivial(frees > 0 && steps > 5);
    if (refused) c.label("pool: refused at the maximum");
    for (auto& b : L.m) mcp_memory_pool_free(p, (void*)b.first);
    mcp_memory_pool_destroy(p);
    mcp_memory_pool_destroy(other);
}
static void global(Case& c) {
    if (c.flip()) mcp_memory_pool_system_init(c.draw(5), c.draw(5), c.draw(5));
    Live L;
    size_t frees = 0;
    int steps = 1 + (int)c.draw(10 + c.size());
    for (int s = 0; s < steps; s++) {
        if (L.m.empty() || c.draw(5) < 3) {
            size_t n = any_size(c);
            void* q = mcp_pool_alloc(n);
            L.add(q, n, 8, (uint8_t)c.draw(256));
            size_t b = mcp_pool_get_block_size(q);
            PBT_CHECK(b == 0 || b >= n, "block size %zu for a request of %zu", b, n);
            PBT_CHECK((b == 0) == (n > 4096), "request of %zu: pool block of %zu bytes", n, b);
        } else {
            Live::B b;
            void* q = nth(L, c.draw(L.m.size()), b);
            L.verify((uintptr_t)q, b);
            L.m.erase((uintptr_t)q);
            memset(q, 0xEE, b.n);
            mcp_pool_free(q);
            frees++;
        }
        size_t cls[3] = {0, 0, 0};
        for (auto& b : L.m) if (b.second.n <= 4096) cls[b.second.n <= 256 ? 0 : b.second.n <= 1024 ? 1 : 2]++;
        for (int k = 0; k < 3; k++) {
            mcp_memory_pool_stats_t st;
            PBT_CHECK(mcp_pool_get_stats((mcp_pool_size_class_t)k, &st), "stats failed");
            PBT_CHECK(st.allocated_blocks == cls[k], "size class %d: %zu reported, %zu live", k, st.allocated_blocks, cls[k]);
        }
    }
    L.verify_all();
    c.nontrivial(frees > 0 && steps > 5);
    for (auto& b : L.m) mcp_pool_free((void*)b.first);
    mcp_memory_pool_system_cleanup();
}
static void tcache(Case& c) {
    bool pools = c.flip();
    if (pools) mcp_memory_pool_system_init(c.draw(5), c.draw(5), c.draw(5));
    auto config = [&] {
        mcp_thread_cache_config_t g;
        g.small_cache_size = c.draw(80);
        g.medium_cache_size = c.draw(80);
        g.large_cache_size = c.draw(80);
        g.adaptive_sizing = c.flip();
        g.growth_threshold = (double)c.draw(11) / 10;
        g.shrink_threshold = (double)c.draw(11) / 10;
        g.min_cache_size = c.draw(100);
        g.max_cache_size = c.draw(200);
        g.lru_enabled = (int)c.draw(3) - 1;
        return g;
    };
    auto g = config();
    if (c.flip()) mcp_thread_cache_init(); else mcp_thread_cache_init_with_config(&g);
    Live L;
    size_t frees = 0, allocs = 0;
    bool bulk = c.chance(1, 4);
    int steps = 1 + (int)c.draw(10 + c.size() * (bulk ? 6 : 2));
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({12, 10, 1, 1, 1, 1})) {
        case 0: {
            size_t n = bulk ? 1 + c.draw(256) : any_size(c);
            L.add(mcp_thread_cache_alloc(n), n, 8, (uint8_t)c.draw(256));
            allocs++;
            break;
        }
        case 1: {
            for (size_t k = bulk ? 1 + c.draw(90) : 1; k && !L.m.empty(); k--) {
                Live::B b;
                void* q = nth(L, c.draw(L.m.size()), b);
                L.verify((uintptr_t)q, b);
                L.m.erase((uintptr_t)q);
                memset(q, 0xCC, b.n);
                mcp_thread_cache_free(q, b.n);
                frees++;
            }
            break;
        }
        case 2: mcp_thread_cache_flush(); c.note("flush"); break;
        case 3: { auto h = config(); mcp_thread_cache_configure(&h); c.note("reconfigure"); break; }
        case 4: mcp_thread_cache_adjust_size(); break;
        default: {
            mcp_thread_cache_stats_t st;
            PBT_CHECK(mcp_thread_cache_get_stats(&st), "stats failed");
            PBT_CHECK(st.total_operations == allocs, "stats: %zu operations, %zu allocations", st.total_operations, allocs);
            PBT_CHECK(st.cache_hits + st.total_misses == allocs, "stats: hits %zu + misses %zu, %zu allocations", st.cache_hits, st.total_misses, allocs);
            PBT_CHECK(st.small_cache_count + st.medium_cache_count + st.large_cache_count <= frees, "stats: more cached than freed");
            L.verify_all();
        }
        }
    }
    L.verify_all();
    c.note("%d steps, %zu allocations, %zu frees, pools %d", steps, allocs, frees, pools);
    c.nontrivial(frees > 0 && allocs > 3);
    for (auto& b : L.m) mcp_thread_cache_free((void*)b.first, b.second.n);
    mcp_thread_cache_cleanup();
    mcp_memory_pool_system_cleanup();
}
// Typed objects: constructed when handed out, destroyed when given back, each once.
static std::map<void*, int>* built; // objects between constructor and destructor
static void on_build(void* p) {
    if (built->count(p)) fail("constructor called for an object in use");
    (*built)[p] = 1;
}
static void on_destroy(void* p) {
    if (!built->erase(p)) fail("destructor called for an object that is not in use");
}
static void objects(Case& c) {
    bool pools = c.flip();
    if (pools) mcp_memory_pool_system_init(c.draw(5), c.draw(5), c.draw(5));
    std::map<void*, int> b_;
    built = &b_;
    const int T = MCP_OBJECT_CACHE_TYPE_COUNT;
    struct Ty { bool dtor = false, ctor = false; size_t allocs = 0, size = 0; Live L; } ty[T];
    auto config = [&](mcp_object_cache_config_t& g, bool hooks) {
        memset(&g, 0, sizeof g);
        g.max_size = c.draw(100);
        g.adaptive_sizing = c.flip();
        g.growth_threshold = c.flip() ? 0 : (double)c.draw(11) / 10;
        g.shrink_threshold = (double)c.draw(11) / 10;
        g.min_cache_size = c.draw(80);
        g.max_cache_size = c.draw(3) ? c.draw(200) : c.draw(5) + 62;
        if (hooks) { g.constructor = on_build; g.destructor = on_destroy; }
    };
    int kinds = 1 + (int)c.draw(3);
    std::vector<int> used;
    for (int i = 0; i < kinds; i++) {
        int t = (int)c.draw(T);
        if (std::find(used.begin(), used.end(), t) != used.end()) continue;
        used.push_back(t);
        mcp_object_cache_config_t g;
        bool hooks = c.flip();
        config(g, hooks);
        ty[t].ctor = ty[t].dtor = hooks;
        ty[t].size = c.flip() ? 1 + c.draw(300) : 0; // always the same size, or any
        PBT_CHECK(mcp_object_cache_init((mcp_object_cache_type_t)t, &g), "init failed");
    }
    size_t frees = 0, allocs = 0;
    bool bulk = c.chance(1, 4);
    int steps = 1 + (int)c.draw(10 + c.size() * 2);
    for (int s = 0; s < steps; s++) {
        int t = used[c.draw(used.size())];
        auto k = (mcp_object_cache_type_t)t;
        Live& L = ty[t].L;
        switch (c.weighted({12, 10, 1, 1, 1})) {
        case 0: for (size_t x = bulk ? 1 + c.draw(90) : 1; x; x--) {
            size_t n = ty[t].size ? ty[t].size : c.draw(3) ? 1 + c.draw(300) : any_size(c);
            void* p = mcp_object_cache_alloc(k, n);
            if (ty[t].ctor) PBT_CHECK(b_.count(p), "object handed out without its constructor called");
            for (int u : used) if (u != t) PBT_CHECK(!ty[u].L.m.count((uintptr_t)p), "object of another type handed out");
            L.add(p, n, 8, (uint8_t)c.draw(256));
            size_t bs = mcp_pool_get_block_size(p);
            PBT_CHECK(bs == 0 || bs >= n, "a block of %zu bytes for an object of %zu", bs, n);
            allocs++;
            ty[t].allocs++;
        }
            break;
        case 1:
            for (size_t x = bulk ? 1 + c.draw(90) : 1; x && !L.m.empty(); x--) {
                Live::B b;
                void* q = nth(L, c.draw(L.m.size()), b);
                L.verify((uintptr_t)q, b);
                L.m.erase((uintptr_t)q);
                memset(q, 0xCC, b.n);
                mcp_object_cache_free(k, q, c.draw(4) ? b.n : 0);
                if (ty[t].dtor) PBT_CHECK(!b_.count(q), "object given back without its destructor called");
                frees++;
            }
            break;
        case 2: mcp_object_cache_flush(k); c.note("flush %d", t); break;
        case 3: { mcp_object_cache_config_t g; config(g, ty[t].ctor); PBT_CHECK(mcp_object_cache_configure(k, &g), "configure failed"); c.note("reconfigure %d", t); break; }
        default: {
            mcp_object_cache_stats_t st;
            PBT_CHECK(mcp_object_cache_get_stats(k, &st), "stats failed");
            PBT_CHECK(st.cache_hits + st.cache_misses == ty[t].allocs, "stats: hits %zu + misses %zu, %zu allocations", st.cache_hits, st.cache_misses, ty[t].allocs);
            PBT_CHECK(st.cache_count <= st.max_size, "stats: %zu objects in a cache of %zu", st.cache_count, st.max_size);
            for (int u : used) ty[u].L.verify_all();
        }
        }
    }
    size_t live = 0;
    for (int u : used) { ty[u].L.verify_all(); if (ty[u].ctor) live += ty[u].L.m.size(); }
    PBT_CHECK(b_.size() == live, "%zu objects constructed, %zu in use", b_.size(), live);
    c.note("%d steps, %zu allocations, %zu frees, pools %d", steps, allocs, frees, pools);
    c.nontrivial(frees > 0 && allocs > 3);
    for (int u : used) {
        for (auto& b : ty[u].L.m) mcp_object_cache_free((mcp_object_cache_type_t)u, (void*)b.first, b.second.n);
        mcp_object_cache_cleanup((mcp_object_cache_type_t)u);
    }
    PBT_CHECK(b_.empty(), "%zu objects never destroyed", b_.size());
    mcp_object_cache_system_shutdown();
    for (int k = 0; pools && k < 3; k++) {
        mcp_memory_pool_stats_t st;
        PBT_CHECK(mcp_pool_get_stats((mcp_pool_size_class_t)k, &st) && st.allocated_blocks == 0, "size class %d: %zu blocks still allocated after all were freed", k, st.allocated_blocks);
    }
    mcp_memory_pool_system_cleanup();
}
static void arena(Case& c) {
    bool pools = c.flip(), cache = c.flip();
    if (pools) mcp_memory_pool_system_init(4, 4, 4);
    if (cache) mcp_thread_cache_init();
    mcp_arena_t a;
    size_t init = c.draw(3) ? (size_t)c.small(0, 9000) : 0;
    mcp_arena_init(&a, init);
    Live L;
    size_t total = 0, resets = 0;
    int steps = 1 + (int)c.draw(10 + c.size() * 2);
    for (int s = 0; s < steps; s++) {
        if (c.draw(25) == 0) { L.verify_all(); mcp_arena_reset(&a); L.m.clear(); total = 0; resets++; c.note("reset"); }
        else if (c.draw(40) == 0) {
            size_t n = ~(size_t)0 - (size_t)c.small(0, 20000); // cannot be satisfied
            PBT_CHECK(mcp_arena_alloc(&a, n) == nullptr, "an allocation of %zu bytes claims to succeed", n);
        } else {
            size_t n = c.draw(30) == 0 ? 0 : any_size(c);
            void* p = mcp_arena_alloc(&a, n);
            L.add(p, n ? n : 1, 8, (uint8_t)c.draw(256));
            total += ((n ? n : 1) + 7) / 8 * 8;
        }
        size_t ta = 0, tb = 0, bc = 0;
        PBT_CHECK(mcp_arena_get_stats(&a, &ta, &tb, &bc) == 0, "stats failed");
        PBT_CHECK(ta == total, "stats: %zu allocated, expected %zu", ta, total);
        PBT_CHECK(tb >= ta, "stats: %zu bytes in blocks hold %zu", tb, ta);
        if (c.draw(4) == 0) L.verify_all();
    }
    L.verify_all();
    c.note("initial %zu, %d steps, %zu resets", init, steps, resets);
    c.nontrivial(steps > 5);
    if (resets) c.label("arena: was reset");
    mcp_arena_destroy(&a);
    if (cache) mcp_thread_cache_cleanup();
    if (pools) mcp_memory_pool_system_cleanup();
}
static void concurrent(Case& c) {
    unsigned mode = (unsigned)c.draw(3); // pool, global pools, thread caches
    size_t nt = 2 + c.draw(6), ops = 100 + c.draw(300), max = c.flip() ? 0 : 4 + c.draw(40);
    uint64_t seed = c.draw(1ull << 60);
    mcp_memory_pool_t* p = mode == 0 ? mcp_memory_pool_create(64, c.draw(4), max < 4 ? 0 : max) : nullptr;
    mcp_memory_pool_system_init(2, 2, 2);
    c.note("mode %u, %zu threads, %zu operations each, max %zu", mode, nt, ops, max);
    c.label(mode == 0 ? "concurrent: one pool" : mode == 1 ? "concurrent: global pools" : "concurrent: thread caches");
    c.nontrivial();
    struct Blk { uint8_t* p; size_t n; uint8_t seed; };
    std::mutex mu;
    std::vector<Blk> shared; // blocks handed from one thread to another
    std::atomic<long> live{0};
    std::vector<std::thread> th;
    std::atomic<bool> go{false};
    auto chk = [](const Blk& b) { for (size_t i = 0; i < b.n; i++) if (b.p[i] != (uint8_t)(b.seed + i)) fail("a live block of %zu bytes changed at offset %zu", b.n, i); };
    for (size_t t = 0; t < nt; t++) th.emplace_back([&, t] {
        uint64_t r = seed + t * 7919;
        auto rnd = [&](uint64_t n) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (r >> 33) % n; };
        std::vector<Blk> own;
        { std::lock_guard<std::mutex> g(mu); if (mode == 2) mcp_thread_cache_init(); }
        while (!go) {}
        auto rel = [&](Blk b) {
            chk(b);
            memset(b.p, 0xAB, b.n);
            live--;
            if (mode == 0) { if (!mcp_memory_pool_free(p, b.p)) fail("free of a live block refused"); }
            else if (mode == 1) mcp_pool_free(b.p);
            else mcp_thread_cache_free(b.p, b.n);
        };
        for (size_t i = 0; i < ops; i++) {
            uint64_t k = rnd(10);
            if (k < 5) {
                size_t n = mode == 0 ? 64 : 1 + rnd(rnd(4) ? 256 : 5000);
                uint8_t* q = (uint8_t*)(mode == 0 ? mcp_memory_pool_alloc(p) : mode == 1 ? mcp_pool_alloc(n) : mcp_thread_cache_alloc(n));
                if (!q) { if (mode == 0 && max) continue; fail("allocation failed"); }
                long l = ++live;
                if (mode == 0 && max && l > (long)max) fail("%ld live blocks, maximum %zu", l, max);
                Blk b{q, n, (uint8_t)rnd(256)};
                for (size_t x = 0; x < n; x++) q[x] = (uint8_t)(b.seed + x);
                own.push_back(b);
            } else if (k < 8 && !own.empty()) { size_t x = rnd(own.size()); rel(own[x]); own[x] = own.back(); own.pop_back(); }
            else if (k == 8 && !own.empty()) { std::lock_guard<std::mutex> g(mu); shared.push_back(own.back()); own.pop_back(); }
            else { Blk b{nullptr, 0, 0}; { std::lock_guard<std::mutex> g(mu); if (!shared.empty()) { b = shared.back(); shared.pop_back(); } } if (b.p) rel(b); }
        }
        for (auto& b : own) rel(b);
        { std::lock_guard<std::mutex> g(mu); if (mode == 2) mcp_thread_cache_cleanup(); }
    });
    go = true;
    for (auto& t : th) t.join();
    for (auto& b : shared) { chk(b); live--; if (mode == 0) mcp_memory_pool_free(p, b.p); else if (mode == 1) mcp_pool_free(b.p); else mcp_thread_cache_free(b.p, b.n); }
    mcp_memory_pool_stats_t st;
    if (mode == 0) { mcp_memory_pool_get_stats(p, &st); PBT_CHECK(st.allocated_blocks == 0 && st.free_blocks == st.total_blocks, "stats: %zu blocks still allocated after all were freed", st.allocated_blocks); mcp_memory_pool_destroy(p); }
    else for (int k = 0; k < 3; k++) { mcp_pool_get_stats((mcp_pool_size_class_t)k, &st); PBT_CHECK(st.allocated_blocks == 0, "size class %d: %zu blocks still allocated after all were freed", k, st.allocated_blocks); }
    mcp_memory_pool_system_cleanup();
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P33";
    o.rule = "history with at least one release and more than five steps (concurrent: every case, 2-7 threads)";
    o.worker_init = [] { quiet_logs(); };
    Test k{"concurrent", concurrent, 10000, 100000};
    k.tries = 60;
    k.batch = 100;
    o.tests = {{"pool", pool, 60000, 600000}, {"global", global, 40000, 400000}, {"thread_cache", tcache, 100000, 1000000}, {"arena", arena, 40000, 400000}, {"objects", objects, 25000, 300000}, k};
    o.assumptions = {"a block is freed once, to the allocator and with the size it was obtained with; the thread cache's list pool is set up by one thread at a time"};
    return run(argc, argv, o);
}
