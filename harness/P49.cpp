// TECHNIQUE: property-based testing: histories of recorded allocations, alone and from several threads, against a reference account
#include <barrier>
#include <fstream>
#include <thread>
#include "mcp.hpp"
extern "C" {
#include "mcp_memory_tracker.h"
}
using namespace pbt;

struct Rec { size_t size; std::string file; bool named; int line; };
static const char* FILES[] = {"a.c", "b.c", "src/a.c", "src/common/a_rather_long_name_of_a_source_file_in_the_tree.c", "c.c", "", "x y.c", "%s.c"};
static void* at(size_t k) { return (void*)(uintptr_t)(0x1000 + k * 16); }

static void report(const std::map<size_t, Rec>& live) {
    std::string path = scratch_dir() + "/leaks.txt";
    PBT_CHECK(mcp_memory_tracker_dump_leaks(path.c_str()), "no report");
    std::ifstream in(path);
    std::set<std::string> got;
    for (std::string l; std::getline(in, l);) if (l.find(" bytes, allocated at ") != std::string::npos) PBT_CHECK(got.insert(l).second, "reported twice: %s", l.c_str());
    for (auto& p : live) {
        std::string want = fmt("%p, %zu bytes, allocated at %s:%d", at(p.first), p.second.size, p.second.named ? p.second.file.c_str() : "unknown", p.second.line);
        bool hit = false;
        for (auto it = got.begin(); it != got.end(); ++it) if (it->find(want) != std::string::npos) { got.erase(it); hit = true; break; }
        PBT_CHECK(hit, "not in the report: %s", want.c_str());
    }
    PBT_CHECK(got.empty(), "in the report, though free: %s", got.begin()->c_str());
}
static void history(Case& c) {
    bool each = c.draw(5) != 0, bt = c.chance(1, 12);
    PBT_CHECK(mcp_memory_tracker_init(each, bt), "tracker does not start");
    c.note("start, %s%s", each ? "every allocation" : "counts only", bt ? " with backtraces" : "");
    std::map<size_t, Rec> live;
    size_t total = 0, frees = 0, now = 0, peak = 0, bytes = 0, held = 0, top = 0, limit = 0, text = 0;
    bool strange = false;
    int allocs = 0, gone = 0, asked = 0;
    size_t space = c.pick<size_t>({4, 40, 6000});
    int steps = 1 + (int)c.draw((space > 100 ? 400 : 20) + 4 * c.size());
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({40, 25, 2, 8, 6, 8, 2, 1})) {
        case 0: {
            size_t k = c.draw(space);
            if (live.count(k)) break;
            Rec r{c.draw(4) ? c.draw(5000) : (size_t)c.draw(1u << 31), FILES[c.draw(8)], c.draw(10) != 0, (int)c.draw(3000)};
            if (c.chance(1, 6)) r.file = c.ident(1, 60);
            char* tmp = strdup(r.file.c_str()); // the caller's text does not outlive the call
            mcp_memory_tracker_record_alloc(at(k), r.size, r.named ? tmp : NULL, r.line);
            memset(tmp, '?', r.file.size());
            free(tmp);
            c.note("alloc #%zu, %zu bytes, %s:%d", k, r.size, r.named ? r.file.c_str() : "-", r.line);
            if (r.named) text += r.file.size() + 1;
            live[k] = r;
            total++, now++, bytes += r.size, held += r.size;
            peak = std::max(peak, now), top = std::max(top, held);
            allocs++;
            break;
        }
        case 1: {
            if (live.empty()) break;
            auto it = live.lower_bound(c.draw(space));
            if (it == live.end()) it = live.begin();
            c.note("free #%zu", it->first);
            mcp_memory_tracker_record_free(at(it->first));
            frees++, now--;
            if (each) held -= it->second.size; // sizes are not known otherwise
            live.erase(it);
            gone++;
            break;
        }
        case 2: { // never recorded, or free already
            if (!each) break;
            size_t k = c.draw(space);
            if (live.count(k)) break;
            c.note("free of #%zu, not recorded", k);
            mcp_memory_tracker_record_free(at(k));
            strange = true;
            break;
        }
        case 3: limit = c.draw(5) ? (c.flip() ? held + c.draw(2000) : (size_t)c.draw(100000)) : c.flip() ? SIZE_MAX - c.draw(3) : 0;
            c.note("limit %zu", limit);
            PBT_CHECK(mcp_memory_tracker_set_limit(limit), "no limit set");
            break;
        case 4: case 5: {
            size_t n = c.draw(4) ? (limit > held && c.flip() ? limit - held + c.draw(3) - (limit - held ? 1 : 0) : (size_t)c.draw(5000)) : SIZE_MAX - c.draw(5000);
            bool want = limit && (n > limit || held > limit - n), got = mcp_memory_tracker_would_exceed_limit(n);
            c.note("would %zu exceed", n);
            PBT_CHECK(got == want, "%zu bytes in use, limit %zu: %zu more %s", held, limit, n, got ? "are refused" : "are let through");
            asked++;
            break;
        }
        case 6: if (each && live.size() < 300) { report(live); c.label("report"); } break;
        case 7: {
            if (!c.chance(1, 3)) break;
            c.note("cleanup, start");
            mcp_memory_tracker_cleanup();
            PBT_CHECK(mcp_memory_tracker_init(each, bt), "tracker does not start again");
            live.clear();
            total = frees = now = peak = bytes = held = top = limit = text = 0;
            strange = false;
        }
        }
        mcp_memory_stats_t st;
        PBT_CHECK(mcp_memory_tracker_get_stats(&st), "no statistics");
        PBT_CHECK(st.total_allocations == total && st.current_allocations == now && st.peak_allocations == peak, "%zu allocations, %zu now, %zu at most; counted %zu, %zu, %zu", total, now, peak,
                  st.total_allocations, st.current_allocations, st.peak_allocations);
        PBT_CHECK(strange ? st.total_frees >= frees : st.total_frees == frees, "%zu frees, counted %zu", frees, st.total_frees);
        PBT_CHECK(st.total_bytes_allocated == bytes && st.peak_bytes == top && st.current_bytes == held, "%zu bytes, %zu now, %zu at most; counted %zu, %zu, %zu", bytes, held, top,
                  st.total_bytes_allocated, st.current_bytes, st.peak_bytes);
        if (each && live.size() < 50) {
            std::set<std::string> names;
            for (auto& p : live) if (p.second.named) names.insert(p.second.file);
            size_t u = 0, saved = 0;
            PBT_CHECK(mcp_memory_tracker_get_string_pool_stats(&u, &saved), "no statistics of the file names");
            PBT_CHECK(u == names.size(), "%zu file names in use, counted %zu", names.size(), u);
            PBT_CHECK(saved <= text, "%zu bytes of file names recorded, %zu said to be saved", text, saved);
        }
    }
    if (each && live.size() < 300) report(live);
    mcp_memory_tracker_cleanup();
    c.nontrivial(allocs >= 3 && gone && asked);
}
static void threads(Case& c) {
    size_t n = 2 + c.draw(5), hold = 1 + c.draw(20), rounds = 20 + c.draw(150);
    bool each = c.draw(4) != 0, dumps = c.chance(1, 4);
    PBT_CHECK(mcp_memory_tracker_init(each, false), "tracker does not start");
    c.note("%zu threads hold %zu allocations each, then %zu more rounds%s", n, hold, rounds, dumps ? ", with reports" : "");
    uint64_t seed = c.draw(1 << 30);
    std::barrier gate((std::ptrdiff_t)n);
    std::vector<std::thread> th;
    std::vector<std::map<size_t, Rec>> live(n);
    std::vector<size_t> bytes(n), total(n), frees(n), left(n);
    std::string path = scratch_dir() + "/concurrent.txt";
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            uint64_t x = seed * 2654435761u + t * 977 + 1;
            auto next = [&](size_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (size_t)(x >> 33) % m; };
            auto add = [&](size_t k, size_t size) {
                const char* f = FILES[next(5)];
                mcp_memory_tracker_record_alloc(at(k), size, f, (int)t);
                live[t][k] = Rec{size, f, true, (int)t};
                bytes[t] += size, total[t]++;
            };
            gate.arrive_and_wait();
            for (size_t i = 0; i < hold; i++) add(i * n + t, 8);
            gate.arrive_and_wait(); // all of them are held here
            for (size_t r = 0; r < rounds; r++) {
                size_t k = (hold + next(30)) * n + t;
                if (live[t].count(k)) { mcp_memory_tracker_record_free(at(k)); live[t].erase(k); frees[t]++; } else add(k, next(3000));
                if (dumps && t == 0 && r % 50 == 0 && each) mcp_memory_tracker_dump_leaks(path.c_str());
            }
        });
    for (auto& t : th) t.join();
    mcp_memory_stats_t st;
    PBT_CHECK(mcp_memory_tracker_get_stats(&st), "no statistics");
    size_t now = 0, all = 0, fr = 0, by = 0, held = 0;
    std::map<size_t, Rec> m;
    for (size_t t = 0; t < n; t++) {
        now += live[t].size(), all += total[t], fr += frees[t], by += bytes[t];
        for (auto& p : live[t]) held += p.second.size, m.insert(p);
    }
    PBT_CHECK(st.total_allocations == all && st.current_allocations == now && st.total_frees == fr, "%zu allocations, %zu frees, %zu left; counted %zu, %zu, %zu", all, fr, now, st.total_allocations,
              st.total_frees, st.current_allocations);
    PBT_CHECK(st.total_bytes_allocated == by && (!each || st.current_bytes == held), "%zu bytes, %zu left; counted %zu, %zu", by, held, st.total_bytes_allocated, st.current_bytes);
    PBT_CHECK(st.peak_allocations >= std::max(n * hold, now) && st.peak_allocations <= all, "%zu held at once, %zu left of %zu, peak said to be %zu", n * hold, now, all, st.peak_allocations);
    PBT_CHECK(st.peak_bytes >= std::max(n * hold * 8, held) && st.peak_bytes <= by, "%zu bytes held at once, %zu left of %zu, peak said to be %zu", n * hold * 8, held, by, st.peak_bytes);
    if (each) report(m);
    mcp_memory_tracker_cleanup();
    c.nontrivial(fr > 10);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P49";
    o.rule = "history: three allocations, a free and a question about the limit; threads: more than ten frees";
    Test t{"threads", threads, 1500, 15000};
    t.tries = 40;
    o.tests = {{"history", history, 8000, 80000}, t};
    o.assumptions = {"An address is recorded as allocated again only after it was recorded as free", "Where single allocations are not tracked, the bytes in use count what was allocated"};
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
