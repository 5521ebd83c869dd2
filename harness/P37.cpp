// TECHNIQUE: model-based property testing under a virtual clock: generated histories of saving, loading, updating, deleting, expiring and cleaning up sessions of several clients with related ids, against a map of what was last saved; round trip of every session; concurrent clients; oracle: the model
// NOTE: All files are in a scratch directory; the file operations of the code under test are wrapped at link time and refuse (and report) any path outside it.
// SHIM: mq_shim.c
// LINK: -Wl,--wrap=fopen -Wl,--wrap=unlink -Wl,--wrap=remove -Wl,--wrap=rename
#include "tidy.hpp"
#include "mq.hpp"
#include "mcp.hpp"
#include <atomic>
#include <map>
#include <set>
#include <thread>
using namespace pbt;

static std::string g_dir;
static bool inside(const char* p) {
    if (strncmp(p, g_dir.c_str(), g_dir.size()) != 0 || p[g_dir.size()] != '/') return false;
    return !strchr(p + g_dir.size() + 1, '/');
}
extern "C" {
FILE* __real_fopen(const char*, const char*);
int __real_unlink(const char*);
int __real_remove(const char*);
int __real_rename(const char*, const char*);
static bool g_guard;
static bool ok(const char* p) {
    if (!g_guard || inside(p)) return true;
    fail("a file outside the storage directory would be used: %s", esc(p).c_str());
    return false;
}
FILE* __wrap_fopen(const char* p, const char* m) { if (!ok(p)) { errno = EACCES; return nullptr; } return __real_fopen(p, m); }
int __wrap_unlink(const char* p) { return ok(p) ? __real_unlink(p) : -1; }
int __wrap_remove(const char* p) { return ok(p) ? __real_remove(p) : -1; }
int __wrap_rename(const char* a, const char* b) { return ok(a) && ok(b) ? __real_rename(a, b) : -1; }
}
struct Store {
    Store() {
        g_dir = scratch_dir() + "/mq";
        mkdir(g_dir.c_str(), 0700);
        for (auto& f : files_in(g_dir)) __real_unlink(f.c_str());
        g_guard = true;
        PBT_CHECK(mq_init(g_dir.c_str()) == 0, "init fails");
    }
    ~Store() { g_guard = false; for (auto& f : files_in(g_dir)) __real_unlink(f.c_str()); vt::off(); }
};
static int64_t g_ms;
static void wait_ms(int64_t d) { g_ms += d; vt::advance_ms(d); }
static std::string gen_id(Case& c, const std::vector<std::string>& had) {
    if (!had.empty() && c.chance(2, 3)) { // a relative of an id used before
        std::string s = had[c.draw(had.size())];
        switch (c.draw(7)) {
        case 0: return s;
        case 1: s += c.pick({'1', '2', '_', '.', '%', '/', ':'}); return s;
        case 2: if (s.size() > 1) s.pop_back(); return s;
        case 3: if (!s.empty()) s.back() = c.pick({'1', '2', '_', '/', ':', '*', 'x', '%'}); return s;
        case 4: for (char& ch : s) if (ch == '/' || ch == ':' || ch == '*' || ch == '?') { ch = c.pick({'_', '/', ':'}); break; } return s;
        case 5: s.insert(c.draw(s.size() + 1), 1, c.pick({'_', '/', '|', '<', '5', 'F'})); return s;
        default: return s + ".tmp";
        }
    }
    std::string s;
    for (size_t i = 0, n = 1 + c.draw(8); i < n; i++) s += c.chance(1, 4) ? c.pick({'/', '\\', ':', '*', '?', '"', '<', '>', '|', '%', '.', '_', ' ', '-', '~', '\n'}) : (char)('a' + c.draw(26));
    if (c.chance(1, 30)) s = c.pick({"..", ".", "../x", "../../etc/passwd", "a/../../b", "%2F", "\xc3\xa9t\xc3\xa9", ".new", "x%s%n"});
    return s;
}
struct Saved { std::string text; int64_t at; uint32_t expiry; uint64_t created; };
enum Life { ALIVE, EDGE, DEAD };
static Life life(const Saved& s) {
    if (!s.expiry) return ALIVE;
    int64_t e = g_ms - s.at;
    return e <= (int64_t)s.expiry * 1000 ? ALIVE : e >= ((int64_t)s.expiry + 1) * 1000 ? DEAD : EDGE;
}
static void check_load(const std::string& id, std::map<std::string, Saved>& m, bool& loaded) {
    Mq got(mq_new(0, 0, 0));
    int r = mq_load(id.c_str(), got.get());
    auto it = m.find(id);
    loaded = r == 0;
    if (it == m.end()) {
        PBT_CHECK(r != 0, "a session for %s loads although none is saved: %s", esc(id).c_str(), esc(mq_text(got.get()).substr(0, 200)).c_str());
    } else {
        Life l = life(it->second);
        if (l == ALIVE) PBT_CHECK(r == 0, "the session of %s does not load", esc(id).c_str());
        if (l == DEAD) PBT_CHECK(r != 0, "the expired session of %s loads", esc(id).c_str());
        if (r == 0) {
            std::string t = mq_text(got.get());
            PBT_CHECK(t == it->second.text, "the session of %s was saved as\n%s\nand loads as\n%s", esc(id).c_str(), esc(it->second.text.substr(0, 400)).c_str(), esc(t.substr(0, 400)).c_str());
        } else m.erase(it); // gone for good
    }
    if (r != 0) PBT_CHECK(mq_is_empty(got.get()), "a refused load leaves data");
}
static void history(Case& c) {
    vt::freeze(1700000000);
    g_ms = 1700000000000ll;
    Store st;
    std::map<std::string, Saved> m;
    std::vector<std::string> ids;
    std::set<std::string> used;
    size_t loads = 0, ends = 0, steps = 4 + c.draw(30);
    for (size_t i = 0; i < steps; i++) {
        std::string id = gen_id(c, ids);
        if (id.empty()) id = "q";
        ids.push_back(id);
        used.insert(id);
        switch (c.weighted({8u, 8u, 2u, 2u, 5u, 2u, 2u, 1u, 1u})) {
        case 0: {
            Mq s = gen_session(c);
            int r = mq_save(id.c_str(), s.get());
            PBT_CHECK(r == 0, "saving a session for %s fails", esc(id).c_str());
            uint64_t cr = 0, ac = 0;
            uint32_t ex = 0;
            PBT_CHECK(mq_info(id.c_str(), &cr, &ac, &ex) == 0 && (int64_t)ac == g_ms, "the information on %s is not that of the save", esc(id).c_str());
            m[id] = {mq_text(s.get()), g_ms, ex, cr};
            PBT_CHECK(m[id].text.find(fmt("created %llu expiry %u ", (unsigned long long)cr, ex)) == 0, "the information on %s differs from its session", esc(id).c_str());
            c.note("save %s; ", esc(id).c_str());
            break;
        }
        case 1: {
            bool l;
            bool known = m.count(id);
            check_load(id, m, l);
            loads += l;
            ends += known && !l;
            c.note("load %s; ", esc(id).c_str());
            break;
        }
        case 2: {
            int r = mq_delete(id.c_str());
            if (m.count(id)) PBT_CHECK(r == 0, "the session of %s cannot be deleted", esc(id).c_str());
            m.erase(id);
            c.note("delete %s; ", esc(id).c_str());
            break;
        }
        case 3: { // update the access time
            auto it = m.find(id);
            Life l = it == m.end() ? DEAD : life(it->second);
            int r = mq_touch(id.c_str());
            if (l == ALIVE) PBT_CHECK(r == 0, "the access time of %s cannot be updated", esc(id).c_str());
            if (l == DEAD) PBT_CHECK(r != 0, "the access time of a session that is not there was updated: %s", esc(id).c_str());
            if (it != m.end()) { if (r == 0) it->second.at = g_ms; else { m.erase(it); ends++; } }
            c.note("touch %s; ", esc(id).c_str());
            break;
        }
        case 4: {
            int64_t d = (int64_t)c.pick({1, 500, 999, 1000, 1001, 1999, 2000, 9000, 10000, 11000, 59000, 60000, 61000, 86400000, 86401000});
            wait_ms(d);
            c.note("+%lldms; ", (long long)d);
            break;
        }
        case 5: {
            int n = mq_clean_expired();
            int lo = 0, hi = 0;
            std::vector<std::string> gone;
            for (auto it = m.begin(); it != m.end();) {
                Life l = life(it->second);
                if (l == DEAD) { lo++; hi++; it = m.erase(it); ends++; continue; }
                if (l == EDGE) { hi++; if (!mq_exists(it->first.c_str())) { it = m.erase(it); continue; } }
                ++it;
            }
            PBT_CHECK(n >= lo && n <= hi, "clean-up removed %d sessions, %d to %d had expired", n, lo, hi);
            c.note("clean %d; ", n);
            break;
        }
        case 6: {
            auto it = m.find(id);
            bool ex = mq_exists(id.c_str()) != 0, dead = mq_expired(id.c_str()) != 0;
            PBT_CHECK(ex == (it != m.end()), "session of %s %s", esc(id).c_str(), ex ? "exists although deleted or never saved" : "is missing");
            if (it != m.end() && life(it->second) != EDGE) PBT_CHECK(dead == (life(it->second) == DEAD), "session of %s wrongly reported as %s", esc(id).c_str(), dead ? "expired" : "alive");
            break;
        }
        case 7: { // another run of the program
            mq_cleanup();
            PBT_CHECK(mq_init(g_dir.c_str()) == 0, "init fails again");
            c.label("restart");
            break;
        }
        default: // the clock is set back a little
            if (c.chance(1, 3)) { wait_ms(-5000); c.label("clock set back"); }
        }
        if (c.chance(1, 6)) { // every other session is untouched
            std::vector<std::string> k;
            for (auto& e : m) k.push_back(e.first);
            bool l;
            for (auto& id2 : k) { check_load(id2, m, l); loads += l; }
        }
    }
    size_t related = 0;
    for (auto& a : used) for (auto& b : used) related += a != b && a.size() + 1 == b.size() && b.compare(0, a.size(), a) == 0;
    if (related) c.label("ids that extend one another");
    c.nontrivial(loads >= 1 && used.size() >= 2 && (ends || loads >= 2));
}
static void threads(Case& c) {
    Store st;
    size_t nt = 2 + c.draw(3);
    struct Plan { std::string id; std::vector<Mq> v; std::vector<std::string> t; std::vector<unsigned> op; };
    std::vector<Plan> plans(nt);
    for (size_t t = 0; t < nt; t++) {
        plans[t].id = "client" + std::string(1, c.pick({'/', ':', '_'})) + std::to_string(t);
        for (size_t i = 0, n = 3 + c.draw(10); i < n; i++) {
            Mq s = gen_session(c);
            std::string x = mq_text(s.get());
            if (x.find("expiry 1 ") != std::string::npos) continue;
            plans[t].t.push_back(x);
            plans[t].v.push_back(std::move(s));
            plans[t].op.push_back((unsigned)c.draw(8));
        }
    }
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            Plan& p = plans[t];
            for (size_t i = 0; i < p.v.size(); i++) {
                if (mq_save(p.id.c_str(), p.v[i].get()) != 0) { fail("save fails"); return; }
                if (p.op[i] == 0) mq_clean_expired();
                if (p.op[i] == 1) mq_touch(p.id.c_str());
                Mq g(mq_new(0, 0, 0));
                if (mq_load(p.id.c_str(), g.get()) != 0) { fail("thread %zu: load after save fails", t); return; }
                if (mq_text(g.get()) != p.t[i]) { fail("thread %zu loads something else than it saved", t); return; }
                if (p.op[i] == 2 && (mq_delete(p.id.c_str()) != 0 || mq_exists(p.id.c_str()))) { fail("delete fails"); return; }
            }
        });
    for (auto& t : ts) t.join();
    c.nontrivial();
    c.note("%zu threads", nt);
}
// a session is saved anew while another thread finds the old one expired
static void renewal(Case& c) {
    vt::freeze(1700000000);
    g_ms = 1700000000000ll;
    Store st;
    for (size_t r = 0, n = 10 + c.draw(20); r < n; r++) {
        Mq old(mq_new(1, 1, 1)), fresh = gen_session(c);
        std::string want = mq_text(fresh.get());
        PBT_CHECK(mq_save("c", old.get()) == 0, "save fails");
        wait_ms(5000);
        std::vector<std::thread> ts;
        std::atomic<bool> go{false};
        std::atomic<int> saved{-1};
        for (int k = 0; k < 2; k++) ts.emplace_back([&] { while (!go) {} Mq g(mq_new(0, 0, 0)); int x = mq_load("c", g.get()); if (x == 0 && mq_text(g.get()) != want) fail("a session that was not saved last is loaded"); });
        ts.emplace_back([&] { while (!go) {} saved = mq_save("c", fresh.get()); });
        go = true;
        for (auto& t : ts) t.join();
        PBT_CHECK(saved == 0, "save fails");
        Mq g(mq_new(0, 0, 0));
        PBT_CHECK(mq_load("c", g.get()) == 0 && mq_text(g.get()) == want, "a session saved while its predecessor expired is gone");
    }
    c.nontrivial();
    c.note("renewed in a race with loads of the expired one");
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P37";
    o.rule = "two or more client ids, with two loads or one load and one expiry";
    o.assumptions = {"ids of up to a few dozen bytes, topics up to 65535 bytes", "a session's age is counted from its last save or access update; within the second in which it expires either answer is accepted"};
    o.worker_init = [] { quiet_logs(); };
    o.tests = {{"history", tidy<history>, 16000, 160000, 30, 200}, {"threads", tidy<threads>, 600, 6000, 60, 30, 20}, {"renewal", tidy<renewal>, 300, 3000, 60, 30, 20}};
    return run(argc, argv, o);
}
