// TECHNIQUE: property-based testing: histories of validations through a cache, alone and from several threads, against a reference verdict; differential between cached and first use
// NOTE: Required properties are what the validation looks at; other keywords of a schema are not judged.
#include <barrier>
#include <list>
#include <thread>
#include "jval.hpp"
using namespace pbt;

static std::string name(Case& c) {
    static const char* N[] = {"age", "name", "a", "b", "ab", "bA", "xab", "xbA", "id", "required", "properties", "John Doe", "\xc3\xa9"};
    return c.draw(6) ? N[c.draw(13)] : c.ident(1, 6);
}
struct Schema { std::string text; bool json = true; std::vector<std::string> req; };
static Schema gen_schema(Case& c) {
    Schema s;
    J j = J::obj();
    if (c.flip()) j.o["type"] = J::str("object");
    if (c.draw(5)) {
        J r = J::arr();
        size_t n = c.draw(5);
        for (size_t i = 0; i < n; i++) {
            if (c.chance(1, 15)) { r.a.push_back(J::num(7)); continue; } // names nothing
            s.req.push_back(name(c));
            r.a.push_back(J::str(s.req.back()));
        }
        j.o["required"] = r;
    } else if (c.chance(1, 4)) j.o["required"] = J::str("age"); // not a list
    if (c.chance(1, 3)) { J p = J::obj(); p.o[name(c)] = J::obj(); j.o["properties"] = p; }
    if (c.chance(1, 25)) { j = J::num(1); s.req.clear(); }
    s.text = jdump(j);
    if (c.chance(1, 12)) { // no schema at all
        s.text = s.text.substr(0, s.text.size() - 1);
        J t;
        s.json = jparse(s.text, t) == 1;
        s.req.clear();
    }
    return s;
}
struct Doc { std::string text; bool json = true, obj = true; std::set<std::string> has; };
static Doc gen_doc(Case& c, const std::vector<Schema>& v) {
    Doc d;
    J j = J::obj();
    if (c.draw(3)) { // what one of the schemas asks for, perhaps less one
        const auto& r = v[c.draw(v.size())].req;
        size_t skip = c.flip() ? r.size() : c.draw(r.size() + 1);
        for (size_t i = 0; i < r.size(); i++) if (i != skip) j.o[r[i]] = c.chance(1, 6) ? J::null() : J::num((double)i);
        if (skip < r.size() && c.flip()) { J in = J::obj(); in.o[r[skip]] = J::num(1); j.o["nested"] = in; } // not at the top
    } else for (size_t i = c.draw(4); i; i--) j.o[name(c)] = gen_json(c);
    if (c.chance(1, 6)) j.o["name"] = J::str("John Doe");
    for (auto& p : j.o) d.has.insert(p.first);
    d.text = jdump(j);
    if (c.chance(1, 4)) { // with spaces
        std::string t;
        bool q = false, esc = false;
        for (char ch : d.text) {
            t += ch;
            if (esc) esc = false;
            else if (ch == '\\') esc = true;
            else if (ch == '"') q = !q;
            else if (!q && (ch == ':' || ch == ',')) t += ' ';
        }
        d.text = t;
    }
    if (c.chance(1, 20)) { d.text = c.flip() ? "[]" : "3"; d.obj = false; d.has.clear(); }
    if (c.chance(1, 15)) { d.text = d.text.substr(0, d.text.size() - 1); J t; d.json = jparse(d.text, t) == 1; d.has.clear(); }
    return d;
}
static int verdict(const Schema& s, const Doc& d) {
    if (!s.json || !d.json) return -1;
    for (auto& r : s.req) if (!d.has.count(r)) return -1;
    return 0;
}
static void history(Case& c) {
    size_t cap = 1 + (c.draw(4) ? c.draw(5) : c.draw(40));
    mcp_json_schema_cache_t* k = mcp_json_schema_cache_create(cap);
    PBT_CHECK(k, "cache creation failed");
    std::vector<Schema> v;
    for (size_t i = 1 + c.draw(8); i; i--) v.push_back(gen_schema(c));
    if (c.flip()) { // two schemas that differ little
        Schema t = v[0];
        for (auto& r : t.req) if (r == "ab") r = "bA"; else if (r == "xab") r = "xbA";
        size_t p;
        while ((p = t.text.find("ab\"")) != std::string::npos) t.text.replace(p, 2, "bA");
        if (t.text != v[0].text && t.json) { v.push_back(t); c.label("schemas that differ in two characters"); }
    }
    std::list<std::string> lru; // the schemas of the last validations, latest first
    size_t calls = 0, yes = 0, no = 0, again = 0;
    int steps = 1 + (int)c.draw(6 + c.size());
    for (int s = 0; s < steps; s++) {
        if (c.chance(1, 25)) { c.note("clear"); mcp_json_schema_cache_clear(k); lru.clear(); }
        if (c.chance(1, 4)) { // what the caller's thread does between requests
            mcp_arena_reset_current_thread();
            for (int i = 0; i < 20; i++) memset(mcp_arena_alloc(mcp_arena_get_current(), 64), 0x5A, 64);
        }
        const Schema& sc = v[c.draw(v.size())];
        Doc d = gen_doc(c, v);
        c.note("%s against %s", d.text.c_str(), sc.text.c_str());
        int want = verdict(sc, d), got;
        if (c.chance(1, 8)) {
            got = mcp_json_validate_schema(d.text.c_str(), sc.text.c_str());
            PBT_CHECK(got == want, "verdict of the common cache is %d, expected %d", got, want);
            continue;
        }
        got = mcp_json_schema_validate_cached(k, d.text.c_str(), sc.text.c_str());
        PBT_CHECK(got == want, "verdict %d, expected %d", got, want);
        calls++;
        (want ? no : yes)++;
        auto it = std::find(lru.begin(), lru.end(), sc.text);
        if (it != lru.end()) again++, lru.erase(it);
        lru.push_front(sc.text);
        size_t size = 0, capacity = 0, hits = 0, misses = 0;
        PBT_CHECK(mcp_json_schema_cache_get_stats(k, &size, &capacity, &hits, &misses) == 0, "no statistics");
        PBT_CHECK(capacity == cap && size <= cap, "%zu schemas in a cache of %zu, created with %zu", size, capacity, cap);
        PBT_CHECK(size <= lru.size() && hits <= again && hits + misses <= calls, "%zu schemas, %zu hits, %zu misses after %zu validations of %zu schemas, %zu seen before", size,
                  hits, misses, calls, lru.size(), again);
    }
    std::set<std::string> all;
    for (auto& t : v) if (t.json) all.insert(t.text);
    size_t before = 0, after = 0, x;
    mcp_json_schema_cache_get_stats(k, &x, &x, &before, &x);
    for (auto& t : all) mcp_json_schema_validate_cached(k, "{}", t.c_str());
    mcp_json_schema_cache_get_stats(k, &x, &x, &after, &x);
    PBT_CHECK(after - before <= cap, "%zu of %zu schemas were found in a cache of %zu", after - before, all.size(), cap);
    c.nontrivial(yes && no && again);
    mcp_json_schema_cache_destroy(k);
    mcp_arena_reset_current_thread();
}
static void threads(Case& c) {
    size_t cap = 1 + c.draw(4), n = 2 + c.draw(4), per = 20 + c.draw(100);
    mcp_json_schema_cache_t* k = mcp_json_schema_cache_create(cap);
    std::vector<Schema> v;
    std::vector<Doc> ds;
    for (size_t i = 2 + c.draw(5); i; i--) v.push_back(gen_schema(c));
    for (int i = 0; i < 8; i++) ds.push_back(gen_doc(c, v));
    uint64_t seed = c.draw(1 << 30);
    bool clears = c.chance(1, 3);
    c.note("%zu threads, %zu validations each of %zu schemas, capacity %zu", n, per, v.size(), cap);
    std::barrier gate((std::ptrdiff_t)n);
    std::vector<std::string> wrong(n);
    std::vector<std::thread> th;
    std::barrier end((std::ptrdiff_t)n);
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            mcp_arena_init_current_thread(1 << 16);
            uint64_t x = seed * 2654435761u + t * 977 + 1;
            gate.arrive_and_wait();
            for (size_t i = 0; i < per; i++) {
                x = x * 6364136223846793005ull + 1442695040888963407ull;
                const Schema& sc = v[(x >> 33) % v.size()];
                const Doc& d = ds[(x >> 40) % ds.size()];
                int got = mcp_json_schema_validate_cached(k, d.text.c_str(), sc.text.c_str());
                if (got != verdict(sc, d)) wrong[t] = fmt("verdict %d for %s against %s", got, d.text.c_str(), sc.text.c_str());
                if (clears && (x >> 50) % 40 == 0) mcp_json_schema_cache_clear(k);
                if ((x >> 20) % 8 == 0) mcp_arena_reset_current_thread();
            }
            if ((seed >> t) & 1) end.arrive_and_wait(); else end.arrive_and_drop(); // some threads go early
            mcp_arena_destroy_current_thread();
        });
    for (auto& t : th) t.join();
    for (auto& w : wrong) PBT_CHECK(w.empty(), "%s", w.c_str());
    // what the threads left behind is used by this one
    for (auto& s : v) for (auto& d : ds) PBT_CHECK(mcp_json_schema_validate_cached(k, d.text.c_str(), s.text.c_str()) == verdict(s, d), "verdict after the threads for %s against %s", d.text.c_str(), s.text.c_str());
    mcp_json_schema_cache_destroy(k);
    mcp_arena_reset_current_thread();
    c.nontrivial(v.size() > cap);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P48";
    o.rule = "history: a document accepted, one refused and a schema used again; threads: more schemas than the cache holds";
    Test t{"threads", threads, 1500, 15000};
    t.tries = 40;
    o.tests = {{"history", history, 20000, 200000}, t};
    o.assumptions = {"The cache is created with a capacity of at least one"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
