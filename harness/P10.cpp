// TECHNIQUE: property-based testing: histories of rule changes, checks and clock advances against a reference model of rule selection and the four algorithms; concurrent checks against the exact allowance and the reported counts
// NOTE: Rates are multiples of 1/4 per second, so the model's arithmetic is exact. Rules of one key type have distinct priorities and patterns; which of two equals wins is not specified.
#include <atomic>
#include <thread>
#include "mcp.hpp"
extern "C" {
#include "mcp_advanced_rate_limiter.h"
}
using namespace pbt;

struct Rule {
    int type, alg;
    size_t window, max, max_tokens, cap;
    double rate, leak;
    bool any;
    std::string pat;
    int prio;
};
static bool matches(const Rule& r, const std::string& key) {
    if (r.any) return true;
    const std::string& p = r.pat;
    if (p == key) return true;
    bool s = p.front() == '*', e = p.back() == '*';
    std::string mid = p.substr(s, p.size() - s - e);
    if (s && e) return key.find(mid) != std::string::npos;
    if (e) return key.compare(0, mid.size(), mid) == 0;
    if (s) return key.size() >= mid.size() && key.compare(key.size() - mid.size(), mid.size(), mid) == 0;
    return false;
}
struct Entry {
    int alg = -1;
    int64_t start = 0, last = 0;
    size_t n = 0;
    std::vector<int64_t> times;
    double level = 0;
};
struct Model {
    std::vector<Rule> rules;
    std::map<std::pair<int, std::string>, Entry> e;
    size_t total = 0, allowed = 0, denied = 0, peak = 0;
    const Rule* find(int type, const std::string& k) {
        const Rule* b = nullptr;
        for (auto& r : rules)
            if (r.type == type && matches(r, k) && (!b || r.prio > b->prio)) b = &r;
        return b;
    }
    bool one(int type, const std::string& k, int64_t now) {
        const Rule* r = find(type, k);
        if (!r) return false;
        Entry& x = e[{type, k}];
        peak = std::max(peak, e.size());
        if (x.alg != r->alg) { // a caller new to this algorithm
            x = Entry();
            x.alg = r->alg;
            x.start = x.last = now;
            x.level = r->alg == 2 ? (double)r->max_tokens : 0;
        }
        switch (r->alg) {
        case 0:
            if (now - x.start >= (int64_t)r->window) { x.start = now; x.n = 0; }
            if (x.n < r->max) { x.n++; return true; }
            return false;
        case 1: {
            std::vector<int64_t> keep;
            for (int64_t t : x.times) if (now - t < (int64_t)r->window) keep.push_back(t);
            x.times = keep;
            if (x.times.size() < r->max) { x.times.push_back(now); return true; }
            return false;
        }
        case 2:
            x.level = std::min((double)r->max_tokens, x.level + (double)(now - x.last) * r->rate);
            x.last = now;
            if (x.level >= 1) { x.level -= 1; return true; }
            return false;
        default:
            x.level = std::max(0.0, x.level - (double)(now - x.last) * r->leak);
            x.last = now;
            if (x.level + 1 <= (double)r->cap) { x.level += 1; return true; }
            return false;
        }
    }
};
static const std::vector<std::string> WORDS = {"a", "b", "ab", "ba", "aba", "10.0.0.1", "10.0.0.12", "10.0.1.1", "admin", "admin2", "xadminx", "user.example.com", "example.com", "bb", "abab"};
static std::string gen_key(Case& c) { return c.chance(1, 4) ? fmt("%s%llu", c.pick(WORDS).c_str(), (unsigned long long)c.draw(60)) : c.pick(WORDS); }
static void gen_pattern(Case& c, Rule& r) {
    r.any = c.chance(1, 4);
    if (r.any) return;
    std::string w = gen_key(c);
    size_t a = c.draw(w.size()), n = 1 + c.draw(w.size() - a);
    switch (c.draw(4)) {
    case 0: r.pat = w; break;
    case 1: r.pat = w.substr(0, n) + "*"; break;
    case 2: r.pat = "*" + w.substr(w.size() - n); break;
    default: r.pat = "*" + w.substr(a, n) + "*";
    }
}
static Rule gen_rule(Case& c) {
    Rule r;
    r.type = (int)c.draw(4);
    r.alg = (int)c.draw(4);
    r.window = (size_t)c.pick({0, 1, 5, 10, 60});
    r.max = c.small(0, 8);
    r.rate = (double)c.draw(10) / 4;
    r.max_tokens = c.small(0, 8);
    r.leak = (double)c.draw(10) / 4;
    r.cap = c.small(0, 8);
    gen_pattern(c, r);
    r.prio = (int)c.range(0, 40) - 10;
    return r;
}
static bool add(mcp_advanced_rate_limiter_t* l, const Rule& m, bool ctor) {
    mcp_rate_limit_rule_t r;
    memset(&r, 0, sizeof r);
    if (ctor) {
        if (m.alg < 2) r = mcp_advanced_rate_limiter_create_default_rule((mcp_rate_limit_key_type_t)m.type, (mcp_rate_limit_algorithm_t)m.alg, m.window, m.max);
        else if (m.alg == 2) r = mcp_advanced_rate_limiter_create_token_bucket_rule((mcp_rate_limit_key_type_t)m.type, m.rate, m.max_tokens);
        else r = mcp_advanced_rate_limiter_create_leaky_bucket_rule((mcp_rate_limit_key_type_t)m.type, m.leak, m.cap);
    } else {
        r.key_type = (mcp_rate_limit_key_type_t)m.type;
        r.algorithm = (mcp_rate_limit_algorithm_t)m.alg;
        r.window_seconds = m.window;
        r.max_requests_per_window = m.max;
        r.tokens_per_second = m.rate;
        r.max_tokens = m.max_tokens;
        r.leak_rate_per_second = m.leak;
        r.burst_capacity = m.cap;
    }
    std::string p = m.pat;
    r.key_pattern = m.any ? nullptr : p.data();
    r.priority = m.prio;
    bool ok = mcp_advanced_rate_limiter_add_rule(l, &r);
    p.assign(p.size(), '!'); // the pattern is the caller's
    return ok;
}
static std::string show(const Rule& r) {
    static const char* T[] = {"ip", "user", "api-key", "custom"};
    std::string a = r.alg < 2 ? fmt("%s window %zu in %zu s", r.alg ? "sliding" : "fixed", r.max, r.window)
                    : r.alg == 2 ? fmt("token bucket %g/s up to %zu", r.rate, r.max_tokens) : fmt("leaky bucket %g/s up to %zu", r.leak, r.cap);
    return fmt("%s rule %s prio %d: %s", T[r.type], r.any ? "(any)" : r.pat.c_str(), r.prio, a.c_str());
}
static void stats(mcp_advanced_rate_limiter_t* l, Model& md) {
    mcp_advanced_rate_limiter_stats_t s;
    memset(&s, 0x55, sizeof s);
    PBT_CHECK(mcp_advanced_rate_limiter_get_stats(l, &s), "no statistics");
    PBT_CHECK(s.total_requests == md.total && s.allowed_requests == md.allowed && s.denied_requests == md.denied, "reported %zu requests, %zu allowed, %zu denied; were %zu, %zu, %zu",
              s.total_requests, s.allowed_requests, s.denied_requests, md.total, md.allowed, md.denied);
    PBT_CHECK(s.rule_count == md.rules.size(), "reported %zu rules, there are %zu", s.rule_count, md.rules.size());
    double rate = md.total ? (double)md.denied / (double)md.total : 0;
    PBT_CHECK(s.denial_rate > rate - 1e-9 && s.denial_rate < rate + 1e-9, "reported denial rate %g, is %g", s.denial_rate, rate);
    PBT_CHECK(s.active_clients == md.e.size(), "reported %zu tracked clients, there are %zu", s.active_clients, md.e.size());
    PBT_CHECK(s.peak_clients >= md.peak, "reported peak of %zu clients, was at least %zu", s.peak_clients, md.peak);
}
static void history(Case& c) {
    int64_t t0 = 1700000000 + (int64_t)c.draw(1000);
    vt::freeze(t0);
    mcp_advanced_rate_limiter_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.capacity_hint = (size_t)c.pick({0, 1, 4, 9});
    cfg.enable_burst_handling = c.flip();
    cfg.burst_multiplier = 2;
    cfg.burst_window_seconds = 10;
    mcp_advanced_rate_limiter_t* l = mcp_advanced_rate_limiter_create(c.chance(1, 10) ? nullptr : &cfg);
    PBT_CHECK(l, "limiter not created");
    Model md;
    size_t changed = 0, allowed_n = 0, denied_n = 0;
    auto add_one = [&] {
        Rule r = gen_rule(c);
        for (auto& q : md.rules)
            if (q.type == r.type && (q.prio == r.prio || (q.any == r.any && q.pat == r.pat))) return;
        c.note("+%lld add %s", (long long)(vt::now() - t0), show(r).c_str());
        size_t same = 0;
        for (auto& q : md.rules) same += q.type == r.type;
        bool ok = add(l, r, c.flip());
        PBT_CHECK(ok || same >= 32, "rule not accepted");
        if (ok) md.rules.push_back(r);
    };
    for (size_t i = 0, n = c.small(0, 6); i < n; i++) add_one();
    size_t steps = 1 + c.small(0, 30 + c.size() * 2);
    bool narrow = c.flip();
    std::string base[4];
    for (auto& b : base) b = gen_key(c);
    for (size_t i = 0; i < steps; i++) {
        switch (c.weighted({24, 4, 1, 1, 1})) {
        case 0: {
            bool use[4];
            std::string k[4];
            do
                for (int j = 0; j < 4; j++) use[j] = c.flip();
            while (!use[0] && !use[1] && !use[2] && !use[3] && (use[0] = true, false));
            if (!use[0] && !use[1] && !use[2] && !use[3]) use[0] = true;
            for (int j = 0; j < 4; j++) k[j] = narrow && !c.chance(1, 6) ? base[j] : gen_key(c);
            size_t reps = c.chance(1, 3) ? 1 + c.draw(10) : 1;
            for (size_t q = 0; q < reps; q++) {
                bool want = false;
                for (int t : {2, 1, 0, 3})
                    if (!want && use[t]) want = md.one(t, k[t], vt::now());
                md.total++;
                (want ? md.allowed : md.denied)++;
                std::string z[4];
                for (int j = 0; j < 4; j++) z[j] = k[j];
                bool got = mcp_advanced_rate_limiter_check(l, use[0] ? z[0].c_str() : nullptr, use[1] ? z[1].c_str() : nullptr, use[2] ? z[2].c_str() : nullptr, use[3] ? z[3].c_str() : nullptr);
                for (auto& s : z) s.assign(s.size(), '!');
                std::string who;
                for (int t : {2, 1, 0, 3})
                    if (use[t]) { const Rule* r = md.find(t, k[t]); who += fmt(" %s -> %s;", esc(k[t]).c_str(), r ? show(*r).c_str() : "no rule"); }
                if (q == 0) c.note("+%lld check%s (%zu times)", (long long)(vt::now() - t0), who.c_str(), reps);
                PBT_CHECK(got == want, "a request at +%lld s was %s:%s", (long long)(vt::now() - t0), got ? "admitted" : "refused", who.c_str());
                (want ? allowed_n : denied_n)++;
            }
            break;
        }
        case 1: {
            int64_t d = (int64_t)c.pick({1, 2, 4, 5, 9, 10, 11, 59, 60, 100000});
            vt::advance(d);
            break;
        }
        case 2: add_one(); changed++; break;
        case 3: {
            if (md.rules.empty() || c.chance(1, 5)) {
                Rule r = gen_rule(c);
                bool there = false;
                for (auto& q : md.rules) there |= q.type == r.type && q.any == r.any && q.pat == r.pat;
                if (there) break;
                PBT_CHECK(!mcp_advanced_rate_limiter_remove_rule(l, (mcp_rate_limit_key_type_t)r.type, r.any ? nullptr : r.pat.c_str()), "a rule that does not exist was removed");
                break;
            }
            size_t n = c.draw(md.rules.size());
            Rule r = md.rules[n];
            c.note("+%lld remove %s", (long long)(vt::now() - t0), show(r).c_str());
            PBT_CHECK(mcp_advanced_rate_limiter_remove_rule(l, (mcp_rate_limit_key_type_t)r.type, r.any ? nullptr : r.pat.c_str()), "rule not removed: %s", show(r).c_str());
            md.rules.erase(md.rules.begin() + (long)n);
            changed++;
            if (c.chance(2, 3)) { // often replaced by one with other limits
                Rule q = gen_rule(c);
                q.type = r.type, q.any = r.any, q.pat = r.pat, q.prio = r.prio;
                if (c.flip()) q.alg = r.alg;
                c.note("    replaced by %s", show(q).c_str());
                PBT_CHECK(add(l, q, c.flip()), "rule not accepted");
                md.rules.push_back(q);
            }
            break;
        }
        default:
            if (c.chance(1, 3)) {
                c.note("clear");
                PBT_CHECK(mcp_advanced_rate_limiter_clear_data(l), "clear failed");
                md.e.clear();
                md.total = md.allowed = md.denied = 0;
            }
            stats(l, md);
        }
    }
    stats(l, md);
    mcp_advanced_rate_limiter_destroy(l);
    vt::off();
    if (changed) c.label("rules changed under way");
    if (allowed_n && denied_n) c.label("admitted and refused");
    c.nontrivial(allowed_n && denied_n);
}
static void concurrent(Case& c) {
    vt::freeze(1700000000);
    mcp_advanced_rate_limiter_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.capacity_hint = 1;
    mcp_advanced_rate_limiter_t* l = mcp_advanced_rate_limiter_create(&cfg);
    Model md;
    for (int alg = 0; alg < 4; alg++) {
        Rule r;
        r.type = (int)c.draw(4);
        r.alg = alg;
        r.window = 100;
        r.max = r.max_tokens = r.cap = c.small(1, 50);
        r.rate = r.leak = 1;
        r.any = false;
        r.pat = fmt("%c*", 'a' + alg);
        r.prio = alg;
        PBT_CHECK(add(l, r, false), "rule not accepted");
        md.rules.push_back(r);
    }
    size_t nth = 2 + c.draw(6), clients = 4 + c.draw(40), per = 1 + c.small(0, 60);
    std::vector<std::vector<size_t>> script(nth);
    std::vector<size_t> asked(clients);
    for (auto& s : script)
        for (size_t i = 0; i < per; i++) { s.push_back(c.draw(clients)); asked[s.back()]++; }
    std::vector<std::atomic<size_t>> ok(clients);
    std::atomic<size_t> gate{0};
    std::vector<std::thread> th;
    for (size_t i = 0; i < nth; i++)
        th.emplace_back([&, i] {
            gate++;
            while (gate.load() < nth) {}
            for (size_t k : script[i]) {
                std::string key = fmt("%c-%zu", (char)('a' + k % 4), k);
                int t = md.rules[k % 4].type;
                if (mcp_advanced_rate_limiter_check(l, t == 0 ? key.c_str() : nullptr, t == 1 ? key.c_str() : nullptr, t == 2 ? key.c_str() : nullptr, t == 3 ? key.c_str() : nullptr)) ok[k]++;
            }
        });
    std::atomic<bool> stop{false};
    std::thread admin;
    std::string odd;
    if (c.chance(1, 3)) { // rules that fit none of the callers come and go
        int type = (int)c.draw(4);
        c.label("other rules change meanwhile");
        admin = std::thread([&, type] {
            for (size_t i = 0; !stop.load() && i < 3000; i++) {
                Rule r;
                r.type = (type + (int)i) % 4;
                r.alg = (int)i % 4;
                r.window = 100;
                r.max = r.max_tokens = r.cap = 1;
                r.rate = r.leak = 1;
                r.any = false;
                r.pat = i % 3 ? "z*" : "zz*";
                r.prio = 9;
                if (!add(l, r, false)) odd = "a rule was not accepted";
                mcp_advanced_rate_limiter_stats_t s;
                mcp_advanced_rate_limiter_get_stats(l, &s);
                if (!mcp_advanced_rate_limiter_remove_rule(l, (mcp_rate_limit_key_type_t)r.type, r.pat.c_str())) odd = "a rule was not removed";
            }
        });
    }
    for (auto& t : th) t.join();
    stop = true;
    if (admin.joinable()) admin.join();
    PBT_CHECK(odd.empty(), "%s", odd.c_str());
    size_t full = 0, seen = 0;
    for (size_t k = 0; k < clients; k++) {
        size_t max = md.rules[k % 4].max, want = std::min(asked[k], max);
        PBT_CHECK(ok[k].load() == want, "%zu of %zu concurrent requests of one caller were admitted under: %s", ok[k].load(), asked[k], show(md.rules[k % 4]).c_str());
        md.allowed += want;
        md.total += asked[k];
        full += asked[k] > max;
        seen += asked[k] > 0;
    }
    md.denied = md.total - md.allowed;
    mcp_advanced_rate_limiter_stats_t s;
    PBT_CHECK(mcp_advanced_rate_limiter_get_stats(l, &s), "no statistics");
    PBT_CHECK(s.total_requests == md.total && s.allowed_requests == md.allowed && s.denied_requests == md.denied, "reported %zu requests, %zu allowed, %zu denied; were %zu, %zu, %zu",
              s.total_requests, s.allowed_requests, s.denied_requests, md.total, md.allowed, md.denied);
    PBT_CHECK(s.active_clients == seen, "reported %zu tracked clients, there are %zu", s.active_clients, seen);
    mcp_advanced_rate_limiter_destroy(l);
    vt::off();
    c.note("%zu threads, %zu callers, %zu over their limit", nth, clients, full);
    c.nontrivial(full > 0);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P10";
    o.rule = "requests were both admitted and refused";
    o.tests = {{"history", history, 60000, 600000}, {"concurrent", concurrent, 3000, 30000, 30, 50, 40}};
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
