// TECHNIQUE: stateful model-based testing against std::map, with release accounting
// NOTE: Random operation histories over string, integer, pointer and colliding keys under ASan/UBSan, with and without the memory pool system.
#include "mcp.hpp"
extern "C" {
#include "mcp_hashtable.h"
#include "mcp_memory_pool.h"
}
using namespace pbt;

struct Val { int id; int released; };
static void val_free(void* p) {
    Val* v = (Val*)p;
    if (v->released++) fail("value %d released twice", v->id);
}
static long g_dups, g_frees;
static unsigned g_hashmask;
static unsigned long weak_hash(const void* k) { return mcp_hashtable_string_hash(k) & g_hashmask; }
static void* counting_dup(const void* k) { g_dups++; return strdup((const char*)k); }
static void counting_free(void* k) { g_frees++; free(k); }

enum Kind { STR, WEAK, INT, PTR };
struct KeyBox { // owns storage for keys passed to the table
    Kind kind;
    std::string s;
    int i = 0;
    const void* ptr() const { return kind == INT ? (const void*)&i : kind == PTR ? (const void*)(uintptr_t)i : (const void*)s.c_str(); }
    std::string canon() const { return kind == INT || kind == PTR ? fmt("%d", i) : s; }
};
static KeyBox gen(Case& c, Kind k, int nkeys) {
    KeyBox b;
    b.kind = k;
    if (k == INT || k == PTR) {
        b.i = c.draw(5) ? (int)c.draw(nkeys) : k == INT ? (int)(uint32_t)c.draw(1ull << 32) : 64 * (int)c.draw(1 << 20);
        if (k == PTR) b.i = b.i + 1;
    } else {
        switch (c.draw(5)) {
        case 0: b.s = c.text(12); break;
        case 1: b.s = std::string(c.draw(9), 'a'); break;
        default: b.s = fmt("key%d", (int)c.draw(nkeys));
        }
    }
    return b;
}
struct Iter { std::map<std::string, std::vector<Val*>> seen; Kind kind; };

static void history(Case& c, bool pooled) {
    if (pooled) mcp_memory_pool_system_init(c.draw(20), c.draw(20), c.draw(20));
    g_dups = g_frees = 0;
    Kind kind = (Kind)c.draw(4);
    bool with_free = c.draw(5) != 0;
    g_hashmask = kind == WEAK ? (unsigned)c.pick({0, 1, 3, 0xff00}) : ~0u;
    size_t cap = (size_t)c.small(0, 100);
    float lf = (float)c.range(0, 12) / 10.0f;
    int nkeys = 1 + (int)c.draw(1 + c.size());
    c.note("kind %d capacity %zu load factor %.1f value_free %d", kind, cap, lf, with_free);
    mcp_hashtable_t* t = kind == INT ? mcp_hashtable_create(cap, lf, mcp_hashtable_int_hash, mcp_hashtable_int_compare, mcp_hashtable_int_dup, mcp_hashtable_int_free, with_free ? val_free : nullptr)
                         : kind == PTR ? mcp_hashtable_create(cap, lf, mcp_hashtable_ptr_hash, mcp_hashtable_ptr_compare, mcp_hashtable_ptr_dup, mcp_hashtable_ptr_free, with_free ? val_free : nullptr)
                         : kind == WEAK ? mcp_hashtable_create(cap, lf, weak_hash, mcp_hashtable_string_compare, counting_dup, counting_free, with_free ? val_free : nullptr)
                                        : mcp_hashtable_create(cap, lf, mcp_hashtable_string_hash, mcp_hashtable_string_compare, mcp_hashtable_string_dup, mcp_hashtable_string_free, with_free ? val_free : nullptr);
    PBT_CHECK(t, "create failed");
    std::map<std::string, Val*> model;
    std::vector<std::unique_ptr<Val>> all;
    auto mk = [&] { all.push_back(std::make_unique<Val>(Val{(int)all.size(), 0})); return all.back().get(); };
    auto dead = [&](Val* v, const char* why) {
        PBT_CHECK(v->released == (with_free ? 1 : 0), "%s: value %d released %d times", why, v->id, v->released);
    };
    int steps = 1 + (int)c.draw(10 + c.size() * 3);
    int removed = 0, replaced = 0, maxsize = 0;
    for (int s = 0; s < steps; s++) {
        KeyBox k = gen(c, kind, nkeys);
        std::string ck = k.canon();
        auto it = model.find(ck);
        switch (c.weighted({40, 15, 15, 10, 4, 6, 4, 4, 1})) {
        case 0: {
            Val* v = mk();
            c.note("put %s", esc(ck, 20).c_str());
            PBT_CHECK(mcp_hashtable_put(t, k.ptr(), v) == 0, "put failed");
            if (it != model.end()) { dead(it->second, "replace"); it->second = v; replaced++; }
            else model[ck] = v;
            break;
        }
        case 1: {
            c.note("remove %s", esc(ck, 20).c_str());
            int rc = mcp_hashtable_remove(t, k.ptr());
            PBT_CHECK((rc == 0) == (it != model.end()), "remove returned %d, key %s", rc, it != model.end() ? "present" : "absent");
            if (it != model.end()) { dead(it->second, "remove"); model.erase(it); removed++; }
            break;
        }
        case 2: {
            void* v = nullptr;
            int rc = mcp_hashtable_get(t, k.ptr(), &v);
            PBT_CHECK((rc == 0) == (it != model.end()), "get(%s) returned %d, key %s", esc(ck).c_str(), rc, it != model.end() ? "present" : "absent");
            if (rc == 0) PBT_CHECK(v == it->second, "get(%s) returned value %d, expected %d", esc(ck).c_str(), ((Val*)v)->id, it->second->id);
            break;
        }
        case 3: PBT_CHECK(mcp_hashtable_contains(t, k.ptr()) == (it != model.end()), "contains(%s) wrong", esc(ck).c_str()); break;
        case 4: { // batch put
            size_t n = 1 + c.draw(12);
            std::vector<KeyBox> ks;
            std::vector<const void*> kp;
            std::vector<void*> vp;
            for (size_t i = 0; i < n; i++) ks.push_back(gen(c, kind, nkeys));
            for (auto& q : ks) { kp.push_back(q.ptr()); vp.push_back(mk()); }
            c.note("put batch of %zu", n);
            int rc = mcp_hashtable_put_batch(t, kp.data(), vp.data(), n);
            PBT_CHECK(rc == (int)n, "put_batch stored %d of %zu", rc, n);
            for (size_t i = 0; i < n; i++) {
                auto m = model.find(ks[i].canon());
                if (m != model.end()) { dead(m->second, "batch replace"); m->second = (Val*)vp[i]; }
                else model[ks[i].canon()] = (Val*)vp[i];
            }
            break;
        }
        case 5: { // batch get
            size_t n = 1 + c.draw(8);
            std::vector<KeyBox> ks;
            for (size_t i = 0; i < n; i++) ks.push_back(gen(c, kind, nkeys));
            std::vector<const void*> kp;
            for (auto& q : ks) kp.push_back(q.ptr());
            std::vector<void*> out(n, nullptr);
            std::vector<int> rc(n, 7);
            int got = mcp_hashtable_get_batch(t, kp.data(), out.data(), n, rc.data()), want = 0;
            for (size_t i = 0; i < n; i++) {
                auto m = model.find(ks[i].canon());
                bool p = m != model.end();
                want += p;
                PBT_CHECK((rc[i] == 0) == p && (!p || out[i] == m->second), "get_batch element %zu wrong", i);
            }
            PBT_CHECK(got == want, "get_batch found %d, expected %d", got, want);
            break;
        }
        case 6: { // batch remove
            size_t n = 1 + c.draw(6);
            std::vector<KeyBox> ks;
            for (size_t i = 0; i < n; i++) ks.push_back(gen(c, kind, nkeys));
            std::vector<const void*> kp;
            for (auto& q : ks) kp.push_back(q.ptr());
            std::vector<int> rc(n, 7);
            c.note("remove batch of %zu", n);
            int got = mcp_hashtable_remove_batch(t, kp.data(), n, rc.data()), want = 0;
            for (size_t i = 0; i < n; i++) {
                auto m = model.find(ks[i].canon());
                bool p = m != model.end();
                want += p;
                PBT_CHECK((rc[i] == 0) == p, "remove_batch element %zu: %d", i, rc[i]);
                if (p) { dead(m->second, "batch remove"); model.erase(m); removed++; }
            }
            PBT_CHECK(got == want, "remove_batch removed %d, expected %d", got, want);
            break;
        }
        case 7: { // iterate
            Iter w;
            w.kind = kind;
            mcp_hashtable_foreach(t, [](const void* key, void* v, void* u) {
                Iter* w = (Iter*)u;
                std::string k = w->kind == INT ? fmt("%d", *(const int*)key) : w->kind == PTR ? fmt("%d", (int)(uintptr_t)key) : std::string((const char*)key);
                w->seen[k].push_back((Val*)v);
            }, &w);
            PBT_CHECK(w.seen.size() == model.size(), "iteration visited %zu keys, table has %zu", w.seen.size(), model.size());
            for (auto& p : model) PBT_CHECK(w.seen.count(p.first) && w.seen[p.first].size() == 1 && w.seen[p.first][0] == p.second, "iteration wrong for %s", esc(p.first).c_str());
            break;
        }
        default:
            c.note("clear");
            mcp_hashtable_clear(t);
            for (auto& p : model) dead(p.second, "clear");
            model.clear();
        }
        PBT_CHECK(mcp_hashtable_size(t) == model.size(), "size %zu, expected %zu", mcp_hashtable_size(t), model.size());
        maxsize = std::max(maxsize, (int)model.size());
        for (auto& p : model) PBT_CHECK(p.second->released == 0, "live value %d was released", p.second->id);
        if (s % 8 == 7 || s == steps - 1)
            for (auto& p : model) {
                KeyBox q;
                q.kind = kind;
                if (kind == INT || kind == PTR) q.i = atoi(p.first.c_str()); else q.s = p.first;
                void* v = nullptr;
                PBT_CHECK(mcp_hashtable_get(t, q.ptr(), &v) == 0 && v == p.second, "stored key %s not found or wrong value", esc(p.first).c_str());
            }
    }
    c.nontrivial(steps >= 5 && removed + replaced > 0);
    if (maxsize > 16) c.label("more than 16 live entries");
    if (replaced) c.label("a value was replaced");
    if (removed) c.label("a key was removed");
    mcp_hashtable_destroy(t);
    for (auto& p : model) dead(p.second, "destroy");
    if (kind == WEAK) PBT_CHECK(g_dups == g_frees, "%ld keys copied, %ld released", g_dups, g_frees);
    if (pooled) { mcp_hashtable_system_cleanup(); mcp_memory_pool_system_cleanup(); }
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P31";
    o.rule = "history of at least five operations with at least one removal or replacement";
    o.worker_init = [] { quiet_logs(); };
    o.tests = {{"plain", [](Case& c) { history(c, false); }, 200000, 2000000}, {"pooled", [](Case& c) { history(c, true); }, 100000, 1000000}};
    return run(argc, argv, o);
}
