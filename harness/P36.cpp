// TECHNIQUE: model-based property testing: generated histories of arriving messages on related topics, replies, sends, link losses and failing publishes against a model queue and routing rule; generated schedules of concurrent senders; generated histories of tracked messages, acknowledgements and retries under a virtual clock; oracle: the model
// NOTE: The MQTT part of the installed libwebsockets is not available, so the library's publish call is replaced by a stand-in that records what it is given and fails on demand. Connecting to a broker is therefore not exercised.
// LINK: -Wl,--wrap=mcp_mutex_lock -Wl,--wrap=mcp_mutex_unlock
#include "P36_shim.h"
#include "mcp.hpp"
#include <atomic>
#include <deque>
#include <map>
#include <set>
#include <thread>
#include <unistd.h>
using namespace pbt;

// Locks of the code under test are points where a schedule may switch.
static std::atomic<bool> g_jitter;
static thread_local uint64_t tl_rng;
static void jitter() {
    if (!g_jitter.load(std::memory_order_relaxed)) return;
    tl_rng = tl_rng * 6364136223846793005ull + 1442695040888963407ull;
    unsigned k = (tl_rng >> 33) % 8;
    if (k == 0) usleep(30);
    else if (k < 3) sched_yield();
}
extern "C" {
int __real_mcp_mutex_lock(void*);
int __real_mcp_mutex_unlock(void*);
int __wrap_mcp_mutex_lock(void* m) { jitter(); return __real_mcp_mutex_lock(m); }
int __wrap_mcp_mutex_unlock(void* m) { int r = __real_mcp_mutex_unlock(m); jitter(); return r; }
}

struct Msg { std::string topic, payload; int qos; bool retain; };
struct World {
    std::vector<std::string> handled;                          // payloads given to the message handler
    std::vector<std::pair<std::string, std::string>> other;    // given to the handler of other messages
    std::vector<Msg> published;
    int fail_next = 0;                                         // that many publishes fail
    bool reply = false;
    std::string reply_text;
};
static char* on_message(void* u, const void* d, size_t n, int* err) {
    World* w = (World*)u;
    w->handled.emplace_back((const char*)d, n);
    *err = 0;
    return w->reply ? strdup(w->reply_text.c_str()) : nullptr;
}
static void on_other(const char* topic, const void* d, size_t n, void* u) { ((World*)u)->other.emplace_back(topic, std::string((const char*)d, n)); }
static int on_publish(void* u, const char* topic, size_t tn, const void* d, size_t n, int qos, int retain) {
    World* w = (World*)u;
    if (w->fail_next > 0) { w->fail_next--; return -1; }
    w->published.push_back({std::string(topic, tn), std::string((const char*)d, n), qos, retain != 0});
    return 0;
}
static std::string payload(Case& c) {
    unsigned k = c.weighted({5, 3, 1});
    std::string s = k == 0 ? "{\"jsonrpc\":\"2.0\",\"id\":" + std::to_string(c.draw(1000)) + "}" : k == 1 ? c.bytes(1 + c.small(0, 40)) : std::string(1 + c.draw(9000), 'x');
    if (s.empty()) s = "y";
    return s;
}
static std::string seg(Case& c) {
    static const std::vector<std::string> parts{"a", "b", "dev-1", "request", "response", "notification", "mcp", "a_b", "request/x", "é", "A"};
    return c.chance(1, 8) ? std::string(1 + c.draw(300), 'k') : c.pick(parts);
}
static std::string prefix_of(Case& c) {
    switch (c.weighted({4, 2, 2, 2, 2})) {
        case 0: return "mcp/";
        case 1: return "";
        case 2: return seg(c) + "/";
        case 3: return seg(c) + "/" + seg(c) + "/";
        default: return std::string(200 + c.draw(120), 'p') + "/";
    }
}

// ---- routing and the outgoing queue, one step at a time ----
static void t_history(Case& c) {
    World w;
    bool dflt = c.chance(1, 4);
    std::string prefix = dflt ? "mcp/" : prefix_of(c);
    bool own[3] = {c.chance(1, 8), c.chance(1, 6), c.chance(1, 6)};
    std::string custom[3] = {"own/req/" + seg(c), "own/res/" + seg(c), "own/note/" + seg(c)};
    int qos = (int)c.draw(3);
    bool retain = c.flip();
    uint32_t limit = (uint32_t)(1 + c.small(0, 12));
    m36* m = m36_new(dflt ? nullptr : prefix.c_str(), own[0] ? custom[0].c_str() : nullptr, own[1] ? custom[1].c_str() : nullptr, own[2] ? custom[2].c_str() : nullptr, qos, retain, limit);
    PBT_CHECK(m, "the transport is not created");
    struct Free { m36* m; ~Free() { m36_free(m); } } fr{m};
    m36_handlers(m, on_message, on_other, &w);
    m36_on_publish(on_publish, &w);
    std::string id = c.chance(1, 4) ? std::string(230 + c.draw(60), 'c') + c.ident(1, 3) : seg(c);
    while (id.find('/') != std::string::npos) id.erase(id.find('/'), 1);
    if (c.chance(7, 8)) PBT_CHECK(m36_resolve(m, id.c_str()) == 0, "topics are not resolved");
    bool resolved = m36_topic(m, 0) != nullptr;
    std::string topic[3];
    static const char* kind[3] = {"request/", "response/", "notification/"};
    if (resolved) {
        std::set<std::string> ids;
        for (int i = 0; i < 3; i++) {
            topic[i] = m36_topic(m, i);
            if (own[i]) { PBT_CHECK(topic[i] == custom[i], "configured topic %s is resolved to %s", esc(custom[i]).c_str(), esc(topic[i]).c_str()); continue; }
            std::string lead = prefix + kind[i] + id;
            PBT_CHECK(topic[i].compare(0, lead.size(), lead) == 0, "client %s has topic %s", esc(id).c_str(), esc(topic[i]).c_str());
            PBT_CHECK(topic[i].size() >= lead.size() + 16, "the topic of client %s carries no token of its own: %s", esc(id).c_str(), esc(topic[i]).c_str());
            ids.insert(topic[i].substr(prefix.size() + strlen(kind[i])));
        }
        PBT_CHECK(ids.size() <= 1, "the topics of one client belong to different ids");
        c.label("resolved");
    }
    bool up = false;
    std::deque<Msg> queue;
    std::vector<std::string> handled;
    std::vector<std::pair<std::string, std::string>> other;
    std::vector<Msg> published;
    uint64_t bytes = 0, sent = 0;
    int steps = 3 + (int)c.small(0, 30), requests = 0, refused = 0, sends = 0, held = 0;
    auto put = [&](const Msg& x) { if (queue.size() >= limit) { refused++; return false; } queue.push_back(x); return true; };
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({6, 4, 2, 6, 2})) {
            case 0: {   // something arrives
                std::string t;
                switch (c.weighted({4, 2, 2, 2, 3, 2})) {
                    case 0: t = prefix + "request/" + seg(c); break;
                    case 1: t = resolved ? topic[1] : prefix + "response/" + id; break;
                    case 2: t = resolved ? topic[2] : prefix + "notification/" + id; break;
                    case 3: t = resolved ? topic[0] : prefix + "request/" + id; break;
                    case 4: t = resolved ? topic[c.draw(3)] : prefix + "x"; if (c.flip()) t += c.flip() ? "x" : "/x"; else if (t.size() > 1) t.pop_back(); break;
                    default: t = c.flip() ? prefix + seg(c) + "/" + seg(c) : seg(c) + "/" + seg(c); break;
                }
                std::string p = payload(c);
                w.reply = c.chance(2, 3);
                w.reply_text = c.chance(1, 10) ? std::string(5000, 'r') : "{\"result\":" + std::to_string(c.draw(1000)) + "}";
                bool request = t.compare(0, prefix.size() + 8, prefix + "request/") == 0;
                bool ours = request || (resolved && (t == topic[1] || t == topic[2]));
                c.note("arrives %s (%zu bytes), reply %d", esc(t).c_str(), p.size(), (int)w.reply);
                m36_incoming(m, t.c_str(), p.data(), p.size());
                if (ours) handled.push_back(p); else other.emplace_back(t, p);
                if (request && w.reply) { put({prefix + "response/" + t.substr(prefix.size() + 8), w.reply_text, qos, retain}); requests++; }
                break;
            }
            case 1: {   // the client sends
                std::string p = payload(c);
                int r;
                if (c.flip()) r = m36_send(m, p.data(), p.size());
                else {
                    std::vector<const void*> parts;
                    std::vector<size_t> lens;
                    size_t at = 0;
                    while (at < p.size() && parts.size() < 15) { size_t n = 1 + c.draw(p.size() - at); parts.push_back(p.data() + at); lens.push_back(n); at += n; }
                    if (at < p.size()) { parts.push_back(p.data() + at); lens.push_back(p.size() - at); }
                    r = m36_sendv(m, parts.data(), lens.data(), parts.size());
                }
                bool want = up && resolved && put({topic[0], p, qos, retain});
                c.note("send %zu bytes -> %d", p.size(), r);
                PBT_CHECK((r == 0) == want, "sending %zu bytes gives %d (connected %d, resolved %d, %zu queued of %u)", p.size(), r, (int)up, (int)resolved, queue.size(), limit);
                sends += want;
                break;
            }
            case 2: {   // an arbitrary message
                std::string p = payload(c), t = seg(c) + "/" + seg(c);
                int q = (int)c.draw(3);
                bool rt = c.flip(), want = put({t, p, q, rt});
                int r = m36_post(m, t.c_str(), p.data(), p.size(), q, rt);
                c.note("publish on %s -> %d", esc(t).c_str(), r);
                PBT_CHECK((r == 0) == want, "publishing gives %d with %zu queued of %u", r, queue.size(), limit);
                break;
            }
            case 3: {   // the connection becomes writable
                w.fail_next = up && c.chance(1, 6);
                bool ok = up && !w.fail_next && !queue.empty();
                c.note("write, connected %d, failing %d, queued %zu", (int)up, w.fail_next, queue.size());
                m36_process(m);
                w.fail_next = 0;
                if (ok) { published.push_back(queue.front()); sent++; bytes += queue.front().payload.size(); queue.pop_front(); }
                else if (!queue.empty()) held++;
                break;
            }
            default: up = !up; m36_link(m, up); c.note("connection %s", up ? "up" : "down"); break;
        }
        PBT_CHECK(m36_queued(m) == (int)queue.size(), "%d messages are queued, %zu should be", m36_queued(m), queue.size());
        PBT_CHECK(w.handled == handled, "the message handler got %zu messages, %zu are meant for it, or one was altered", w.handled.size(), handled.size());
        PBT_CHECK(w.other == other, "the handler of other messages got %zu messages, %zu are meant for it, or one was altered", w.other.size(), other.size());
    }
    m36_link(m, 1);
    for (size_t i = queue.size() + 2; i--;) m36_process(m);
    for (auto& q : queue) { published.push_back(q); sent++; bytes += q.payload.size(); }
    PBT_CHECK(w.published.size() == published.size(), "%zu messages were published, %zu were accepted", w.published.size(), published.size());
    for (size_t i = 0; i < published.size(); i++) {
        auto &a = w.published[i], &b = published[i];
        PBT_CHECK(a.topic == b.topic && a.payload == b.payload && a.qos == b.qos && a.retain == b.retain, "message %zu: published on %s, %zu bytes, qos %d, retain %d; should be on %s, %zu bytes, qos %d, retain %d", i, esc(a.topic).c_str(), a.payload.size(), a.qos, (int)a.retain, esc(b.topic).c_str(), b.payload.size(), b.qos, (int)b.retain);
    }
    uint64_t ms, bs;
    m36_sent(m, &ms, &bs);
    PBT_CHECK(ms == sent && bs == bytes, "%llu messages of %llu bytes are counted as sent, %llu of %llu were", (unsigned long long)ms, (unsigned long long)bs, (unsigned long long)sent, (unsigned long long)bytes);
    if (requests) c.label("replies");
    if (refused) c.label("queue full");
    if (held) c.label("held back");
    if (prefix.size() > 240) c.label("long prefix");
    c.nontrivial(published.size() >= 2 && (requests || sends) && handled.size());
}

// ---- several senders and one writer at once ----
struct Crowd { std::vector<std::pair<int, int>> out; std::atomic<int>* flying; uint64_t rng; };
static int crowd_publish(void* u, const char*, size_t, const void* d, size_t n, int, int) {
    Crowd* w = (Crowd*)u;
    w->rng = w->rng * 6364136223846793005ull + 1442695040888963407ull;
    if ((w->rng >> 40) % 5 == 0) return -1;
    std::string s((const char*)d, n);
    int a, b;
    PBT_CHECK(sscanf(s.c_str(), "%d:%d;", &a, &b) == 2 && s.back() == ';', "published %s", esc(s).c_str());
    w->out.emplace_back(a, b);
    w->flying->fetch_sub(1);
    return 0;
}
static void t_crowd(Case& c) {
    int senders = 2 + (int)c.draw(6), each = 5 + (int)c.draw(40);
    uint32_t limit = (uint32_t)(1 + c.draw(12));
    bool writer = c.chance(2, 3);
    uint64_t seed = c.draw(1u << 30);
    m36* m = m36_new("mcp/", nullptr, nullptr, nullptr, 1, 0, limit);
    PBT_CHECK(m, "the transport is not created");
    struct Free { m36* m; ~Free() { g_jitter = false; m36_free(m); } } fr{m};
    std::atomic<int> flying{0};                       // accepted and not yet published, a lower bound
    Crowd w{{}, &flying, seed};
    m36_on_publish(crowd_publish, &w);
    PBT_CHECK(m36_resolve(m, "c") == 0, "topics are not resolved");
    m36_link(m, 1);
    std::vector<std::vector<int>> accepted(senders);
    std::atomic<int> peak{0}, left{senders};
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    g_jitter = true;
    for (int i = 0; i < senders; i++) ts.emplace_back([&, i] {
        tl_rng = seed * 31 + i;
        while (!go) sched_yield();
        for (int k = 0; k < each; k++) {
            char buf[64];
            int n = snprintf(buf, sizeof buf, "%d:%d;", i, k);
            if (m36_send(m, buf, n) == 0) {
                accepted[i].push_back(k);
                int f = flying.fetch_add(1) + 1, p = peak.load();
                while (p < f && !peak.compare_exchange_weak(p, f)) {}
            }
        }
        left--;
    });
    if (writer) ts.emplace_back([&] {
        tl_rng = seed * 31 + 99;
        while (!go) sched_yield();
        while (left) m36_process(m);
    });
    go = true;
    for (auto& t : ts) t.join();
    g_jitter = false;
    int queued = m36_queued(m);
    PBT_CHECK(queued <= (int)limit, "%d messages are queued, the limit is %u (%d senders, %d messages each)", queued, limit, senders, each);
    PBT_CHECK(peak.load() <= (int)limit, "%d messages were accepted and not yet published at one time, the limit is %u", peak.load(), limit);
    for (int k = 0; k < 100000 && m36_queued(m); k++) m36_process(m);
    size_t total = 0;
    std::vector<size_t> at(senders, 0);
    for (auto& a : accepted) total += a.size();
    for (auto& [i, k] : w.out) {
        PBT_CHECK(i >= 0 && i < senders && at[i] < accepted[i].size(), "a message of sender %d is published that was not accepted: %d", i, k);
        PBT_CHECK(accepted[i][at[i]] == k, "sender %d: message %d is published where %d is next", i, k, accepted[i][at[i]]);
        at[i]++;
    }
    PBT_CHECK(w.out.size() == total, "%zu messages were published, %zu were accepted", w.out.size(), total);
    PBT_CHECK(total >= limit || total == (size_t)senders * each, "only %zu messages were accepted, the queue holds %u", total, limit);
    if (total < (size_t)senders * each) c.label("some refused");
    if (writer) c.label("writer at work");
    c.nontrivial(true);
}

// ---- messages waiting for their acknowledgement ----
static void t_retry(Case& c) {
    World w;
    m36* m = m36_new("mcp/", nullptr, nullptr, nullptr, 1, 0, 100);
    PBT_CHECK(m, "the transport is not created");
    struct Free { m36* m; ~Free() { m36_free(m); vt::off(); } } fr{m};
    m36_on_publish(on_publish, &w);
    uint32_t most = 1 + (uint32_t)c.small(0, 8), interval = (uint32_t)c.pick(std::vector<uint32_t>{100, 1000, 5000}), retries = (uint32_t)c.draw(4);
    m36_retry_rules(m, most, interval, retries);
    if (c.flip()) m36_set_next_id(m, (uint16_t)(65530 + c.draw(6)));
    vt::freeze(1700000000);
    struct T { Msg m; uint64_t at; uint32_t tries; };
    std::map<uint16_t, T> model;
    std::set<uint16_t> used;
    bool up = true;
    m36_link(m, 1);
    uint64_t now = 0;
    int steps = 4 + (int)c.small(0, 30), retried = 0, given_up = 0;
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({4, 2, 4, 4, 1})) {
            case 0: {
                uint16_t id = m36_next_id(m);
                PBT_CHECK(id != 0, "packet id 0 is handed out");
                PBT_CHECK(used.insert(id).second, "packet id %u is handed out again", id);
                Msg x{seg(c), payload(c), 1 + (int)c.draw(2), c.flip()};
                int r = m36_track(m, id, x.topic.c_str(), x.payload.data(), x.payload.size(), x.qos, x.retain);
                bool want = model.size() < most;
                PBT_CHECK((r == 0) == want, "tracking message %u gives %d with %zu of %u tracked", id, r, model.size(), most);
                if (want) model[id] = {x, now, 0};
                c.note("track %u -> %d", id, r);
                break;
            }
            case 1: {
                if (used.empty()) break;
                auto it = used.begin();
                std::advance(it, c.draw(used.size()));
                m36_ack(m, *it);
                model.erase(*it);
                c.note("ack %u", *it);
                break;
            }
            case 2: { uint64_t d = c.pick(std::vector<uint64_t>{1, interval - 1, interval, interval + 1, 2 * interval}); vt::advance_ms(d); now += d; break; }
            case 3: {
                w.published.clear();
                int n = m36_retry(m), want = 0;
                std::multiset<std::string> expect, got;
                for (auto& [id, x] : model)
                    if (now - x.at > interval) {
                        if (x.tries >= retries) { given_up++; continue; }
                        if (!up) continue;
                        x.tries++;
                        x.at = now;
                        want++;
                        expect.insert(fmt("%s|%s|%d|%d", x.m.topic.c_str(), x.m.payload.c_str(), x.m.qos, (int)x.m.retain));
                    }
                for (auto& p : w.published) got.insert(fmt("%s|%s|%d|%d", p.topic.c_str(), p.payload.c_str(), p.qos, (int)p.retain));
                PBT_CHECK(n == want && got == expect, "%zu messages are sent again (%d reported), %d are due", got.size(), n, want);
                retried += want;
                c.note("retry -> %d", n);
                break;
            }
            default: up = !up; m36_link(m, up); break;
        }
    }
    if (retried) c.label("retried");
    if (given_up) c.label("given up");
    c.nontrivial(retried > 0);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P36";
    o.rule = "history: something was handled and at least two messages were published; crowd: always; retry: at least one message was sent again";
    o.tests = {{"history", t_history, 200000, 2000000}, {"crowd", t_crowd, 12000, 100000}, {"retry", t_retry, 100000, 1000000}};
    o.assumptions = {"a publish call that returns a negative value has not sent the message"};
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
