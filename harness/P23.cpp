// TECHNIQUE: model-based property testing under a virtual clock: generated histories of creating, finding, touching, terminating, cleaning up and waiting, against a model of live sessions; concurrent histories on disjoint sessions; oracle: model of lifetimes, data and end reports
// NOTE: The clock is replaced at link time, and the source of random bytes can be made to fail. Sessions are touched while they are alive, as the transports do.
// LINK: -Wl,--wrap=open
#include "pbt.hpp"
#include "mcp.hpp"
#include <fcntl.h>
#include <map>
#include <mutex>
#include <set>
#include <stdarg.h>
#include <atomic>
#include <thread>
extern "C" {
#include "mcp_http_session_manager.h"
int __real_open(const char*, int, ...);
static bool g_no_random;
int __wrap_open(const char* path, int flags, ...) {
    if (g_no_random && !strcmp(path, "/dev/urandom")) { errno = EMFILE; return -1; }
    mode_t m = 0;
    if (flags & O_CREAT) { va_list a; va_start(a, flags); m = (mode_t)va_arg(a, int); va_end(a); }
    return __real_open(path, flags, m);
}
}
using namespace pbt;

struct S { int64_t last; uint64_t timeout; void* data; mcp_http_session_t* p; bool noticed, cleaned; };
struct World {
    std::map<std::string, S> all; // not yet terminated or cleaned up
    std::set<std::string> ever, gone;
    std::map<std::string, std::vector<int>> ends;
    std::string wrong;
};
static void on_event(const char* id, mcp_session_state_t st, void* u) {
    World* w = (World*)u;
    w->ends[id].push_back((int)st);
}
static bool dead(const S& s) { return s.timeout && vt::now() - s.last > (int64_t)s.timeout; }
static void history(Case& c) {
    vt::freeze(1700000000 + (int64_t)c.draw(1000000));
    g_no_random = false;
    World w;
    uint32_t def = c.pick({0u, 1u, 5u, 60u, 3600u, 4294967295u});
    mcp_http_session_manager_t* m = mcp_session_manager_create(def);
    PBT_CHECK(m != nullptr, "no manager");
    struct Close { mcp_http_session_manager_t*& m; ~Close() { if (m) mcp_session_manager_destroy(m); vt::off(); g_no_random = false; } } closer{m};
    mcp_session_manager_set_event_callback(m, on_event, &w);
    size_t steps = 5 + c.draw(60), expired = 0, terminated = 0, found = 0;
    std::vector<std::string> ids;
    uintptr_t mark = 1;
    for (size_t i = 0; i < steps; i++) {
        switch (c.weighted({8u, 10u, 3u, 8u, 3u, 2u, 1u, 2u})) {
        case 0: { // create
            char id[MCP_SESSION_ID_MAX_LENGTH];
            memset(id, 'X', sizeof id);
            int32_t to = c.pick({0, 0, -1, 1, 2, 10, 100, 3600, INT32_MAX, INT32_MIN});
            g_no_random = c.chance(1, 25);
            mcp_http_session_t* p = mcp_session_manager_create_session(m, id, to);
            if (g_no_random) { // refusing is as good as another source of bytes, but a session handed out must be sound
                g_no_random = false;
                c.label("no random bytes");
                if (!p) break;
            }
            PBT_CHECK(p != nullptr, "create failed with %zu sessions", w.all.size());
            size_t n = strnlen(id, sizeof id);
            PBT_CHECK(n >= 16 && n < sizeof id && mcp_session_id_is_valid(id), "ill-formed id %s", esc(std::string(id, n)).c_str());
            PBT_CHECK(!w.ever.count(id), "id %s handed out twice", id);
            PBT_CHECK(mcp_session_get_id(p) && !strcmp(mcp_session_get_id(p), id), "the session has another id than the one handed out");
            PBT_CHECK(mcp_session_get_user_data(p) == nullptr, "a new session has data");
            PBT_CHECK(mcp_session_get_state(p) == MCP_SESSION_STATE_ACTIVE, "a new session is not active");
            w.ever.insert(id);
            ids.push_back(id);
            w.all[id] = {vt::now(), to == 0 ? def : to < 0 ? 0u : (uint64_t)to, nullptr, p, false, false};
            c.note("create(%d) ", to);
            break;
        }
        case 1: { // find, and perhaps use
            std::string id = ids.empty() || c.chance(1, 12) ? c.pick({std::string("x"), std::string(32, '0'), std::string(), std::string(200, 'a')}) : ids[c.draw(ids.size())];
            if (!ids.empty() && c.chance(1, 15)) { id = ids[c.draw(ids.size())]; if (c.flip()) id.pop_back(); else id += "0"; }
            mcp_http_session_t* p = mcp_session_manager_get_session(m, id.c_str());
            auto it = w.all.find(id);
            bool want = it != w.all.end() && !it->second.noticed && !dead(it->second);
            PBT_CHECK((p != nullptr) == want, "session %s was %s although it is %s", id.c_str(), p ? "found" : "not found", want ? "alive" : it == w.all.end() ? "unknown or ended" : "expired");
            if (!p) { if (it != w.all.end()) { it->second.noticed = true; expired++; } c.note("miss "); break; }
            found++;
            PBT_CHECK(mcp_session_get_user_data(p) == it->second.data, "session %s has another session's data", id.c_str());
            PBT_CHECK(mcp_session_get_id(p) == id, "session %s has id %s", id.c_str(), mcp_session_get_id(p));
            PBT_CHECK(mcp_session_get_state(p) == MCP_SESSION_STATE_ACTIVE, "live session reported as %d", (int)mcp_session_get_state(p));
            if (c.chance(2, 3)) { mcp_session_touch(p); it->second.last = vt::now(); c.note("touch "); }
            if (c.chance(1, 3)) { it->second.data = (void*)(mark++ << 4); mcp_session_set_user_data(p, it->second.data); }
            c.note("found ");
            break;
        }
        case 2: { // terminate
            if (ids.empty()) break;
            std::string id = ids[c.draw(ids.size())];
            bool ok = mcp_session_manager_terminate_session(m, id.c_str());
            auto it = w.all.find(id);
            bool alive = it != w.all.end() && !it->second.noticed && !dead(it->second);
            if (alive) PBT_CHECK(ok, "a live session could not be terminated");
            if (it == w.all.end()) PBT_CHECK(!ok, "a session ended before was terminated again");
            if (ok) { w.all.erase(it); terminated++; c.note("terminate "); }
            break;
        }
        case 3: { // wait
            int64_t d = (int64_t)c.pick({0, 1, 1, 2, 3, 9, 10, 11, 59, 60, 61, 100, 101, 3600, 3601, 100000});
            vt::advance(d);
            c.note("+%llds ", (long long)d);
            break;
        }
        case 4: { // clean up
            size_t want = 0;
            for (auto it = w.all.begin(); it != w.all.end();) if (it->second.noticed || dead(it->second)) { want++; it = w.all.erase(it); } else ++it;
            size_t n = mcp_session_manager_cleanup_expired(m);
            PBT_CHECK(n == want, "clean-up removed %zu sessions, %zu had expired", n, want);
            PBT_CHECK(mcp_session_manager_get_active_count(m) == w.all.size(), "%zu sessions counted after clean-up, %zu are alive", mcp_session_manager_get_active_count(m), w.all.size());
            expired += n;
            c.note("clean(%zu) ", n);
            break;
        }
        case 5: { // wait until just before or after one session's end
            if (w.all.empty()) break;
            auto it = w.all.begin();
            std::advance(it, (long)c.draw(w.all.size()));
            if (!it->second.timeout || it->second.timeout > 100000) break;
            int64_t d = it->second.last + (int64_t)it->second.timeout + (int64_t)c.draw(2) - vt::now();
            if (d > 0) vt::advance(d);
            c.note("to-end ");
            break;
        }
        case 6: {
            if (!ids.empty()) { // a held handle of a live session
                auto it = w.all.find(ids[c.draw(ids.size())]);
                if (it != w.all.end() && !it->second.noticed && !dead(it->second)) { mcp_session_touch(it->second.p); it->second.last = vt::now(); }
            }
            break;
        }
        default: {
            size_t alive = 0, n = mcp_session_manager_get_active_count(m);
            for (auto& e : w.all) alive += !e.second.noticed && !dead(e.second);
            PBT_CHECK(n >= alive && n <= w.all.size(), "%zu sessions counted, %zu are alive and %zu expired", n, alive, w.all.size() - alive);
        }
        }
        for (auto& e : w.ends) PBT_CHECK(e.second.size() == 1, "the end of session %s was reported %zu times", e.first.c_str(), e.second.size());
        for (auto& e : w.ends) {
            auto it = w.all.find(e.first);
            PBT_CHECK(it == w.all.end() || it->second.noticed, "session %s was reported as ended while alive", e.first.c_str());
        }
        for (auto& id : w.ever) if (!w.all.count(id) || w.all[id].noticed) PBT_CHECK(w.ends.count(id), "the end of session %s was not reported", id.c_str());
        // everyone alive stays findable with its data
        if (c.chance(1, 8)) for (auto& e : w.all) if (!e.second.noticed && !dead(e.second)) {
            mcp_http_session_t* p = mcp_session_manager_get_session(m, e.first.c_str());
            PBT_CHECK(p && mcp_session_get_user_data(p) == e.second.data, "live session %s lost", e.first.c_str());
        }
    }
    mcp_session_manager_destroy(m);
    m = nullptr;
    for (auto& id : w.ever) PBT_CHECK(w.ends[id].size() == 1, "by the end, the end of session %s was reported %zu times", id.c_str(), w.ends[id].size());
    if (expired) c.label("expired");
    if (terminated) c.label("terminated");
    c.nontrivial(found >= 2 && expired + terminated >= 1 && ids.size() >= 2);
}
static void full(Case& c) {
    vt::freeze(1700000000);
    struct Close { ~Close() { vt::off(); } } closer;
    mcp_http_session_manager_t* m = mcp_session_manager_create(100);
    std::vector<std::string> ids;
    char id[MCP_SESSION_ID_MAX_LENGTH];
    size_t cap = 0;
    while (cap < 20000 && mcp_session_manager_create_session(m, id, cap % 2 ? 0 : -1)) { ids.push_back(id); cap++; }
    PBT_CHECK(cap >= 1000, "only %zu sessions", cap);
    PBT_CHECK(std::set<std::string>(ids.begin(), ids.end()).size() == ids.size(), "ids repeat");
    for (int i = 0; i < 20; i++) { size_t q = c.draw(ids.size()); PBT_CHECK(mcp_session_manager_get_session(m, ids[q].c_str()), "session %zu of %zu lost", q, cap); }
    // ending some makes room for as many
    size_t n = 1 + c.draw(20), more = 0;
    std::set<std::string> ended;
    for (size_t i = 0; i < n; i++) { size_t q = c.draw(ids.size()); if (ended.insert(ids[q]).second) PBT_CHECK(mcp_session_manager_terminate_session(m, ids[q].c_str()), "terminate failed"); }
    while (more <= n && mcp_session_manager_create_session(m, id, -1)) more++;
    PBT_CHECK(cap >= 20000 || more == ended.size(), "%zu sessions fit after %zu ended", more, ended.size());
    vt::advance(101);
    mcp_session_manager_cleanup_expired(m);
    for (int i = 0; i < 40; i++) {
        size_t q = c.draw(ids.size());
        bool want = q % 2 == 0 && !ended.count(ids[q]);
        PBT_CHECK((mcp_session_manager_get_session(m, ids[q].c_str()) != nullptr) == want, "session %zu %s", q, want ? "lost" : "still there");
    }
    mcp_session_manager_destroy(m);
    c.nontrivial();
    c.note("%zu sessions, %zu ended", cap, ended.size());
}
static void threads(Case& c) {
    mcp_http_session_manager_t* m = mcp_session_manager_create(0);
    struct Ends { std::mutex mu; std::map<std::string, int> n; } ends;
    mcp_session_manager_set_event_callback(m, [](const char* id, mcp_session_state_t, void* u) { Ends* e = (Ends*)u; std::lock_guard<std::mutex> g(e->mu); e->n[id]++; }, &ends);
    size_t nt = 2 + c.draw(4);
    std::vector<std::thread> ts;
    std::mutex mu;
    std::set<std::string> ever;
    std::atomic<size_t> left{0};
    for (size_t t = 0; t < nt; t++) {
        std::vector<unsigned> ops;
        for (size_t i = 0, n = 20 + c.draw(100); i < n; i++) ops.push_back((unsigned)c.draw(1000));
        ts.emplace_back([&, ops, t] {
            std::map<std::string, void*> mine;
            char id[MCP_SESSION_ID_MAX_LENGTH];
            for (unsigned o : ops) {
                if (o < 400 || mine.empty()) {
                    mcp_http_session_t* p = mcp_session_manager_create_session(m, id, -1);
                    if (!p) { fail("create failed"); return; }
                    void* d = (void*)((t + 1) * 100000 + o);
                    mcp_session_set_user_data(p, d);
                    mine[id] = d;
                    std::lock_guard<std::mutex> g(mu);
                    if (!ever.insert(id).second) { fail("id handed out twice"); return; }
                } else {
                    auto it = mine.begin();
                    std::advance(it, (long)(o % mine.size()));
                    mcp_http_session_t* p = mcp_session_manager_get_session(m, it->first.c_str());
                    if (!p || mcp_session_get_user_data(p) != it->second) { fail("session %s %s", it->first.c_str(), p ? "has another's data" : "lost"); return; }
                    if (o < 600) {
                        if (!mcp_session_manager_terminate_session(m, it->first.c_str())) { fail("terminate failed"); return; }
                        if (mcp_session_manager_get_session(m, it->first.c_str())) { fail("found after termination"); return; }
                        mine.erase(it);
                    } else if (o < 640) mcp_session_manager_cleanup_expired(m);
                }
            }
            left += mine.size();
        });
    }
    for (auto& t : ts) t.join();
    PBT_CHECK(mcp_session_manager_get_active_count(m) == left, "%zu sessions counted, %zu are alive", mcp_session_manager_get_active_count(m), left.load());
    mcp_session_manager_destroy(m);
    for (auto& id : ever) PBT_CHECK(ends.n[id] == 1, "end of session %s reported %d times", id.c_str(), ends.n[id]);
    c.nontrivial();
    c.note("%zu threads, %zu sessions", nt, ever.size());
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P23";
    o.rule = "two or more sessions, two or more successful look-ups and at least one end of a session";
    o.assumptions = {"a session is touched only while it is alive", "an expired session may be counted as active until the next clean-up"};
    o.worker_init = [] { quiet_logs(); };
    o.tests = {{"history", history, 24000, 200000, 30, 400}, {"full", full, 64, 400, 60, 4}, {"threads", threads, 1500, 15000, 60, 40, 20}};
    return run(argc, argv, o);
}
