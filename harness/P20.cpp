// TECHNIQUE: stateful property-based testing over real loopback connections: generated histories of event streams (with sessions, event filters and resuming by last id) that connect and drop while addressed and broadcast events are sent, also from several threads at once and beyond the number of retained events; oracle: reference list of events with the streams each of them is meant for
// NOTE: Event data without CR (the event-stream format cannot carry it). Session names are compared without regard to case, as the code documents. Events sent shortly before a fresh stream connects may reach it or not.
#include "pbt.hpp"
#include "mcp.hpp"
#include "http.hpp"
#include "sse.hpp"
#include <algorithm>
#include <mutex>
#include <thread>
extern "C" {
#include "mcp_http_transport.h"
}
#include <libwebsockets.h>
using namespace pbt;

static char* on_message(void*, const void*, size_t, int* err) { *err = 0; return strdup("{}"); }
static mcp_transport_t* start(mcp_http_config_t& cfg, std::string& host) {
    static unsigned serial = 0;
    host = own_host();
    for (int t = 0; t < 50; t++) {
        cfg.host = host.c_str();
        cfg.port = (uint16_t)(22000 + serial++ % 9000);
        mcp_transport_t* tr = mcp_transport_http_create(&cfg);
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, on_message, nullptr, nullptr) == 0) return tr;
        mcp_transport_destroy(tr);
    }
    fail("the transport does not start");
    return nullptr;
}
static std::string show(const std::string& s) { return s.size() > 80 ? esc(s.substr(0, 60)) + fmt("...(%zu bytes)", s.size()) : esc(s); }
static std::string encode(Case& c, const std::string& s) {
    std::string out;
    for (unsigned char ch : s) {
        if ((isalnum(ch) || strchr("-_.~", ch)) && !c.chance(1, 10)) out += (char)ch;
        else if (ch == ' ' && c.flip()) out += '+';
        else out += fmt("%%%02X", ch);
    }
    return out;
}

struct Sent { std::string data; bool typed, addressed; std::string type, session; long id = -1; };
struct Slot {
    std::unique_ptr<HttpClient> h;
    bool has_session = false, has_filter = false, connected = false;
    std::string session, filter, text;
    size_t next = 0, soft = 0; // index of the next event to see; events before `soft` may be missing at the start
    bool started = false;
    size_t seen = 0;
    long last = 0;             // the last id seen
    size_t last_at = 0;        // its index + 1
    bool meant(const Sent& e) const {
        if (has_filter && e.typed && e.type != filter) return false;
        if (!e.addressed) return !has_session;
        return has_session && strcasecmp(session.c_str(), e.session.c_str()) == 0;
    }
};
static size_t following(const Slot& s, const std::vector<Sent>& sent, size_t i) {
    while (i < sent.size() && !s.meant(sent[i])) i++;
    return i;
}
static std::string describe(const Sent& e) {
    return fmt("%s%s%s%s", e.typed ? (esc(e.type) + ":").c_str() : "", show(e.data).c_str(), e.addressed ? " to " : "", e.addressed ? esc(e.session).c_str() : "");
}
// reads what has come; "" or what is wrong with it
static std::string take(Slot& s, std::vector<Sent>& sent) {
    s.h->pump();
    s.text += s.h->in;
    s.h->in.clear();
    std::string rest;
    auto ev = sse_read(s.text, &rest);
    s.text = rest;
    for (auto& e : ev) {
        if (!s.connected) {
            if (e.has_id || e.data != "connected") return "a first event " + show(e.data);
            s.connected = true;
            continue;
        }
        size_t i = following(s, sent, s.next);
        auto same = [&](size_t k) { return e.data == sent[k].data && e.has_type == sent[k].typed && e.type == (sent[k].typed ? sent[k].type : ""); };
        while (!s.started && i < s.soft && !same(i)) i = following(s, sent, i + 1);
        if (i >= sent.size()) return fmt("an event not meant for it: %s", show(e.data).c_str());
        if (!same(i)) return fmt("%s%s where %s is next", e.has_type ? (esc(e.type) + ":").c_str() : "", show(e.data).c_str(), describe(sent[i]).c_str());
        if (!e.has_id) return fmt("event %s without an id", describe(sent[i]).c_str());
        long id = atol(e.id.c_str());
        if (id <= 0 || (sent[i].id >= 0 && sent[i].id != id)) return fmt("event %s with id %s, it had %ld", describe(sent[i]).c_str(), esc(e.id).c_str(), sent[i].id);
        sent[i].id = id;
        for (size_t k = i; k-- > 0;) if (sent[k].id >= 0) { if (sent[k].id >= id) return fmt("event %s with id %ld after one with %ld", describe(sent[i]).c_str(), id, sent[k].id); break; }
        for (size_t k = i + 1; k < sent.size(); k++) if (sent[k].id >= 0) { if (sent[k].id <= id) return fmt("event %s with id %ld before one with %ld", describe(sent[i]).c_str(), id, sent[k].id); break; }
        s.started = true;
        s.next = i + 1;
        s.last = id;
        s.last_at = i + 1;
        s.seen++;
    }
    return "";
}
static bool pending(const Slot& s, const std::vector<Sent>& sent) {
    size_t i = following(s, sent, s.next);
    if (!s.started && i < s.soft) i = following(s, sent, s.soft);
    return i < sent.size() || !s.connected;
}
static void settle(std::vector<Slot>& slots, std::vector<Sent>& sent, const std::string& trail) {
    for (size_t i = 0; i < slots.size(); i++) {
        auto& s = slots[i];
        if (!s.h) continue;
        double t0 = mono();
        std::string bad;
        size_t seen = s.seen;
        for (;;) {
            bad = take(s, sent);
            if (!bad.empty() || !pending(s, sent) || s.h->eof || mono() - t0 > 15) break;
            if (s.seen != seen) { seen = s.seen; t0 = mono(); }
            struct pollfd p = {s.h->fd, POLLIN, 0};
            poll(&p, 1, 5);
        }
        PBT_CHECK(bad.empty(), "%s; stream %zu receives %s", trail.c_str(), i, bad.c_str());
        PBT_CHECK(!s.h->eof, "%s; stream %zu is closed by the server", trail.c_str(), i);
        if (pending(s, sent)) {
            size_t k = following(s, sent, s.next);
            if (!s.started && k < s.soft) k = following(s, sent, s.soft);
            fail("%s; stream %zu does not receive %s", trail.c_str(), i, k < sent.size() ? describe(sent[k]).c_str() : "its first event");
        }
    }
}
static std::string gen_data(Case& c, size_t n) {
    std::string d = fmt("e%zu ", n);
    switch (c.draw(6)) {
    case 0: d += "two\nlines"; break;
    case 1: d += c.pick(std::vector<std::string>{"\n", "\n\n", "\nid: 7", "\n\ndata: x\n\n", " ", "\ndata", "\n:", "\t"}); break;
    case 2: { size_t k = c.chance(1, 2) ? c.draw(300) : c.range(1000, 9000); for (size_t j = 0; j < k; j++) d += (char)(j % 61 == 60 && c.chance(1, 8) ? '\n' : 33 + (j * 7 + n) % 90); break; }
    case 3: d = c.pick(std::vector<std::string>{"", " ", "x", "\n", "{\"a\":1}"}); break;
    default: d += c.printable(30);
    }
    return d;
}
static const std::vector<std::string>& sessions() { static const std::vector<std::string> v = {"alpha", "ALPHA", "beta", "be ta", "b&c=d", "caf\xc3\xa9", "a", "alphabet", "a%41"}; return v; }
static const std::vector<std::string>& types() { static const std::vector<std::string> v = {"tool_call", "tool_result", "x", "tool", "a b"}; return v; }

static void connect_slot(Case& c, Slot& s, const std::string& host, uint16_t port, const std::string& args, const std::string& header, const std::string& trail) {
    s.h.reset(new HttpClient);
    s.connected = s.started = false;
    s.text.clear();
    PBT_CHECK(s.h->open(host, port), "%s: no connection", trail.c_str());
    std::string rq = fmt("GET /events%s%s HTTP/1.1\r\nHost: x\r\nAccept: text/event-stream\r\n%s\r\n", args.empty() ? "" : "?", args.c_str(), header.c_str());
    (void)c;
    s.h->feed(rq);
    HttpReply r;
    PBT_CHECK(s.h->wait_head(r) && r.status == 200, "%s: status %d", trail.c_str(), r.status);
    PBT_CHECK(r.get("content-type").find("text/event-stream") == 0, "%s: content type %s", trail.c_str(), esc(r.get("content-type")).c_str());
}
static void streams(Case& c) {
    mcp_http_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    cfg.enable_cors = c.flip();
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    std::vector<Slot> slots((size_t)c.range(1, 5));
    std::vector<Sent> sent;
    std::string trail;
    size_t resumed = 0, kept_out = 0;
    int steps = 4 + (int)c.size() / 8;
    size_t certain = 0; // events before this one were delivered before now
    for (int st = 0; st < steps; st++) {
        size_t i = c.draw(slots.size());
        auto& s = slots[i];
        switch (c.weighted({5, 4, 2})) {
        case 0: {
            int n = c.chance(1, 4) ? (int)c.range(2, 10) : 1;
            for (int k = 0; k < n; k++) {
                Sent e;
                e.data = gen_data(c, sent.size() + 1);
                for (auto& o : sent) if (o.data == e.data) { e.data = fmt("e%zu", sent.size() + 1); break; }
                e.typed = c.chance(2, 3);
                e.addressed = c.chance(1, 2);
                if (e.typed) e.type = c.pick(types());
                if (e.addressed) {
                    std::vector<std::string> open;
                    for (auto& o : slots) if (o.h && o.has_session) open.push_back(o.session);
                    e.session = !open.empty() && c.chance(2, 3) ? c.pick(open) : c.pick(sessions());
                }
                if (c.chance(1, 12)) { // not sendable
                    std::string d = e.data, t = e.type, sid = e.session;
                    std::string* which = e.addressed && c.flip() ? &sid : e.typed && c.flip() ? &t : &d;
                    bool line = which == &t && c.flip();
                    *which += line ? "\nid: 99\ndata: y" : c.flip() ? "\x01" : "\x1b";
                    trail += fmt("; send unsendable %s", esc(*which).c_str());
                    PBT_CHECK(mcp_http_transport_send_sse(tr, e.typed ? t.c_str() : nullptr, d.c_str(), e.addressed ? sid.c_str() : nullptr) != 0, "%s: it is accepted", trail.c_str());
                    continue;
                }
                trail += fmt("; send %s", describe(e).c_str());
                sent.push_back(e);
                PBT_CHECK(mcp_http_transport_send_sse(tr, e.typed ? e.type.c_str() : nullptr, e.data.c_str(), e.addressed ? e.session.c_str() : nullptr) == 0, "%s: sending fails", trail.c_str());
                for (auto& o : slots) if (o.h && !o.meant(e)) kept_out++;
                if (c.chance(1, 2)) {
                    settle(slots, sent, trail);
                    for (auto& o : slots) if (o.h && o.meant(sent.back())) certain = sent.size();
                }
            }
            break;
        }
        case 1: {
            if (s.h) break;
            bool fresh = s.last == 0 || c.chance(1, 3);
            if (fresh) {
                s.has_session = c.flip();
                s.has_filter = c.chance(1, 3);
                s.session = c.pick(sessions());
                s.filter = c.pick(types());
            }
            std::vector<std::string> args;
            std::string header;
            if (s.has_session) args.push_back("session_id=" + encode(c, s.session));
            if (s.has_filter) args.push_back("filter=" + encode(c, s.filter));
            long last = 0;
            if (fresh) {
                s.next = certain;
                s.soft = sent.size();
                // it may also start from an id another stream saw
                std::vector<size_t> known;
                for (size_t k = 0; k < sent.size(); k++) if (sent[k].id > 0) known.push_back(k);
                if (!known.empty() && c.chance(1, 3)) { size_t k = c.pick(known); last = sent[k].id; s.next = s.soft = k + 1; }
            } else {
                last = s.last;
                s.next = s.soft = s.last_at;
            }
            if (last && c.flip()) header = fmt("Last-Event-ID: %ld\r\n", last);
            else if (last) args.push_back(fmt("lastEventId=%ld", last));
            else if (c.chance(1, 8)) args.push_back(c.pick(std::vector<std::string>{"lastEventId=0", "lastEventId=", "lastEventId=none", "lastEventId=-3"}));
            if (c.chance(1, 5)) args.insert(args.begin(), c.pick(std::vector<std::string>{"my_session_id=other", "nofilter=zzz", "x=session_id%3Dalpha", "xlastEventId=1", "v"}));
            for (size_t k = args.size(); k > 1; k--) std::swap(args[k - 1], args[c.draw(k)]);
            std::string q;
            for (auto& a : args) q += (q.empty() ? "" : "&") + a;
            trail += fmt("; stream %zu connects %s%s", i, q.c_str(), header.empty() ? "" : fmt(" after %ld", last).c_str());
            size_t seen = s.seen;
            connect_slot(c, s, host, cfg.port, q, header, trail);
            settle(slots, sent, trail);
            if (last && s.seen > seen) resumed++;
            break;
        }
        default:
            if (!s.h) break;
            settle(slots, sent, trail);
            s.h->close_now(c.flip());
            s.h.reset();
            trail += fmt("; stream %zu drops", i);
            if (c.flip()) usleep(30000);
        }
    }
    settle(slots, sent, trail);
    usleep(5000);
    size_t delivered = 0;
    for (size_t i = 0; i < slots.size(); i++) {
        delivered += slots[i].seen;
        if (!slots[i].h) continue;
        std::string bad = take(slots[i], sent);
        PBT_CHECK(bad.empty(), "%s; stream %zu receives %s", trail.c_str(), i, bad.c_str());
    }
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(delivered > 1 && kept_out > 0);
    if (resumed) c.label("resumed with events missed");
    if (kept_out) c.label("events not meant for a stream");
    c.note("%s", trail.c_str());
}

// more events than are retained
static void overflow(Case& c) {
    mcp_http_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    const size_t keep = 5000; // what the transport retains
    size_t before = c.range(1, 40), more = c.chance(1, 3) ? keep - before + c.range(0, 3) - 1 : keep + c.range(0, 900);
    std::vector<Slot> slots(2);
    std::vector<Sent> sent;
    std::string trail;
    bool odd_to_session = c.flip();
    slots[0].has_session = odd_to_session && c.flip();
    slots[0].session = slots[1].session = "s";
    connect_slot(c, slots[0], host, cfg.port, slots[0].has_session ? "session_id=s" : "", "", trail);
    settle(slots, sent, trail);
    auto send = [&](size_t n) {
        for (size_t k = 0; k < n; k++) {
            Sent e;
            e.data = fmt("number %zu", sent.size() + 1);
            e.typed = false;
            e.addressed = odd_to_session && sent.size() % 2;
            e.session = "s";
            sent.push_back(e);
            PBT_CHECK(mcp_http_transport_send_sse(tr, nullptr, e.data.c_str(), e.addressed ? "s" : nullptr) == 0, "sending fails");
        }
    };
    send(before);
    trail = fmt("%zu events", before);
    settle(slots, sent, trail);
    bool away = c.flip();
    Slot old;
    old.last = slots[0].last;
    old.last_at = slots[0].last_at;
    if (away) { slots[0].h->close_now(); slots[0].h.reset(); usleep(20000); }
    send(more);
    trail += fmt(", then %zu", more);
    settle(slots, sent, trail);
    // the second stream resumes where the first one was
    Slot& s = slots[1];
    s.has_session = slots[0].has_session;
    size_t oldest = sent.size() > keep ? sent.size() - keep : 0;
    s.next = s.soft = std::max(old.last_at, oldest);
    trail += fmt(", a stream resumes after %ld", old.last);
    connect_slot(c, s, host, cfg.port, fmt("lastEventId=%ld%s", old.last, s.has_session ? "&session_id=s" : ""), "", trail);
    if (old.last == 0) s.next = s.soft = sent.size(); // nothing seen, nothing to resume
    settle(slots, sent, trail);
    send(2);
    settle(slots, sent, trail);
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(s.seen > 2);
    if (sent.size() > keep) c.label("more sent than retained");
    c.note("%s, receives %zu", trail.c_str(), s.seen);
}

// senders on several threads while streams come and go
static void crowd(Case& c) {
    mcp_http_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    int n = (int)c.range(10, 40), readers = (int)c.range(2, 4), senders = (int)c.range(1, 3);
    unsigned gap = (unsigned)c.draw(3) * 400;
    size_t big = c.chance(1, 2) ? c.range(2000, 9000) : 10;
    bool slow = c.flip();
    std::string filler(big, 'f');
    std::atomic<bool> done{false};
    std::vector<std::string> bad((size_t)readers);
    std::vector<std::thread> ts, ss;
    auto name = [](int group) { return group ? fmt("group%d", group) : std::string(); };
    auto reader = [&](int i) {
        auto& b = bad[(size_t)i];
        int group = i % 3;
        std::vector<int> count((size_t)senders, -1); // the last event seen of each sender
        long last = 0;
        bool complete = false;
        for (int round = 0; round < 3 && b.empty() && !complete; round++) {
            HttpClient h;
            if (!h.open(host, cfg.port)) { b = "cannot connect"; return; }
            std::string args = group ? "session_id=" + name(group) : "v=1";
            h.feed(fmt("GET /events?%s%s HTTP/1.1\r\nHost: x\r\n\r\n", args.c_str(), last ? fmt("&lastEventId=%ld", last).c_str() : ""));
            HttpReply r;
            if (!h.wait_head(r) || r.status != 200) { b = fmt("status %d", r.status); return; }
            std::string text;
            double t0 = mono();
            size_t got = 0, quota = round < 2 ? 10 : (size_t)-1;
            while (got < quota && !complete) {
                if (mono() - t0 > 20) { b = fmt("events do not come after id %ld (%zu received on this stream)", last, got); return; }
                if (h.eof) { b = fmt("the stream is closed by the server after id %ld", last); return; }
                struct pollfd p = {h.fd, POLLIN, 0};
                poll(&p, 1, 10);
                if (slow) usleep(3000);
                h.pump();
                text += h.in;
                h.in.clear();
                std::string rest;
                for (auto& e : sse_read(text, &rest)) {
                    if (!e.has_id) continue;
                    long id = atol(e.id.c_str());
                    int s = -1, k = -1, g = -1;
                    size_t len = 0;
                    if (sscanf(e.data.c_str(), "s%d:%d:%d:%zu:", &s, &g, &k, &len) != 4 || s < 0 || s >= senders || e.data.size() < len || e.data.substr(e.data.size() - len) != filler) { b = fmt("event %ld is damaged: %s", id, show(e.data).c_str()); return; }
                    if (g != group) { b = fmt("event %s is not meant for session %d", show(e.data).c_str(), group); return; }
                    if (id <= last) { b = fmt("event %ld follows event %ld", id, last); return; }
                    if ((last > 0 && count[(size_t)s] >= 0) ? k != count[(size_t)s] + 1 : k <= count[(size_t)s]) { b = fmt("event %d of sender %d follows %d", k, s, count[(size_t)s]); return; }
                    count[(size_t)s] = k;
                    last = id;
                    got++;
                    t0 = mono();
                }
                text = rest;
                complete = true;
                for (int s = 0; s < senders; s++) if (count[(size_t)s] != n - 1) complete = false;
                // it may have come after the last event
                if (done && mono() - t0 > 0.2) { bool none = false; for (int s = 0; s < senders; s++) if (count[(size_t)s] < 0) none = true; if (none) return; }
            }
        }
    };
    for (int i = 0; i < readers; i++) ts.emplace_back(reader, i);
    std::atomic<int> failed{0};
    for (int s = 0; s < senders; s++) ss.emplace_back([&, s] {
        for (int k = 0; k < n; k++) for (int g = 0; g < 3; g++) {
            std::string d = fmt("s%d:%d:%d:%zu:", s, g, k, big) + filler, to = name(g);
            if (mcp_http_transport_send_sse(tr, "t", d.c_str(), g ? to.c_str() : nullptr) != 0) failed++;
            usleep(gap);
        }
    });
    for (auto& t : ss) t.join();
    done = true;
    for (auto& t : ts) t.join();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    std::string what = fmt("%d senders of %d events of %zu bytes to each of 3 sessions, %d %s streams", senders, n, big, readers, slow ? "slow" : "quick");
    for (auto& b : bad) PBT_CHECK(b.empty(), "%s: %s", what.c_str(), b.c_str());
    PBT_CHECK(failed == 0, "%s: sending failed %d times", what.c_str(), failed.load());
    c.nontrivial(true);
    c.note("%s", what.c_str());
}

// streams stay open and are served for longer than any request timeout
static void patience(Case& c) {
    mcp_http_config_t cfg;
    memset(&cfg, 0, sizeof cfg);
    std::string host;
    mcp_transport_t* tr = start(cfg, host);
    std::vector<std::unique_ptr<HttpClient>> hs;
    for (int i = 0; i < 3; i++) {
        hs.emplace_back(new HttpClient);
        PBT_CHECK(hs.back()->open(host, cfg.port), "no connection");
        hs.back()->feed(fmt("GET /events%s HTTP/1.1\r\nHost: x\r\n\r\n", i ? "?v=1" : ""));
        PBT_CHECK(hs.back()->until([&] { return hs.back()->in.find("data: connected") != std::string::npos; }, 15), "no first event");
    }
    std::vector<double> when = {0.1 * (double)c.range(0, 100), 17.0, 17.5 + 0.1 * (double)c.draw(10)};
    std::sort(when.begin(), when.end());
    double t0 = mono();
    for (size_t k = 0; k < when.size(); k++) {
        while (mono() - t0 < when[k]) { usleep(20000); for (auto& h : hs) h->pump(); }
        PBT_CHECK(mcp_http_transport_send_sse(tr, "t", fmt("late %zu", k).c_str(), nullptr) == 0, "after %.1f s: sending to 3 streams fails", when[k]);
        for (size_t i = 0; i < hs.size(); i++)
            PBT_CHECK(hs[i]->until([&] { size_t n = 0; for (auto& e : sse_read(hs[i]->in)) if (e.has_id) n++; return n == k + 1; }, 15),
                      "a stream open for %.1f s does not receive an event%s", when[k], hs[i]->eof ? ": it was closed by the server" : "");
    }
    for (auto& h : hs) h->close_now();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    c.nontrivial(true);
    c.note("events after %.1f, %.1f and %.1f s", when[0], when[1], when[2]);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P20";
    o.rule = "streams that received more than one event while others were not meant for them; resuming with events missed; several threads sending";
    o.tests = {
        {"streams", streams, 900, 4000, 120, 10, 5},
        {"overflow", overflow, 96, 400, 120, 4, 3},
        {"crowd", crowd, 200, 600, 120, 4, 5},
        {"patience", patience, 8, 32, 120, 1, 2},
    };
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    return run(argc, argv, o);
}
