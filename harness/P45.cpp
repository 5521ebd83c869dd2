// P45: The log holds every message that passes the level, once, whole and in order.
// TECHNIQUE: stateful property-based testing: generated histories of messages, level, format and quiet changes, log files opened, closed, reopened and failing to open, and generated concurrent writers; oracle: model of the records the standard error stream and every log file must hold, records read back by an independent parser
// NOTE: Only the text of the time stamps is left open. Messages are valid UTF-8. The logger's own announcements are skipped. All files are in a scratch directory.
#include "pbt.hpp"
#include "mcp.hpp"
#include "jval.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <map>
#include <sstream>
#include <thread>
using namespace pbt;

static const char* kLevels[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
static const size_t kWhole = 1000; // messages up to this long are kept whole
static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static std::string shown(const std::string& s) {
    std::string o;
    for (unsigned char ch : s.substr(0, 90)) { if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += (char)ch; }
    return o;
}
static bool utf8(const std::string& s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char a = (unsigned char)s[i];
        size_t n = a < 0x80 ? 1 : a < 0xC2 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF5 ? 4 : 0;
        if (!n || i + n > s.size()) return false;
        for (size_t k = 1; k < n; k++) if (((unsigned char)s[i + k] & 0xC0) != 0x80) return false;
        i += n;
    }
    return true;
}
// standard error of the process, caught in a file while it lives
struct Stderr {
    std::string path;
    int saved, fd;
    explicit Stderr(const std::string& p) : path(p) {
        fflush(stderr);
        saved = dup(2);
        fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND | O_CLOEXEC, 0600);
        dup2(fd, 2);
    }
    void stop() {
        if (saved < 0) return;
        fflush(stderr);
        dup2(saved, 2);
        close(saved);
        close(fd);
        saved = -1;
    }
    ~Stderr() { stop(); }
};

struct Rec {
    bool json = false, structured = false, color = false;
    int level = 0, line = 0;
    std::string file, comp, event, msg;
};
static bool stamp(const std::string& s, size_t& at) { // YYYY-MM-DD HH:MM:SS
    static const char* pat = "dddd-dd-dd dd:dd:dd";
    for (size_t i = 0; pat[i]; i++, at++) {
        if (at >= s.size()) return false;
        if (pat[i] == 'd' ? !isdigit((unsigned char)s[at]) : s[at] != pat[i]) return false;
    }
    return true;
}
static bool lit(const std::string& s, size_t& at, const std::string& w) {
    if (s.compare(at, w.size(), w) != 0) return false;
    at += w.size();
    return true;
}
// a text that may have been cut
static bool same(const std::string& got, const std::string& want, size_t whole) {
    if (got == want) return true;
    return want.size() > whole && got.size() + 4 >= whole && want.compare(0, got.size(), got) == 0 && utf8(got);
}
static const size_t kName = 240; // names up to this long, escaped, are kept whole
static std::string escd(const std::string& s) { J j = J::str(s); std::string d = jdump(j); return d.substr(1, d.size() - 2); }
static bool named(const std::string& got, const std::string& want) {
    if (got == want) return true;
    return escd(want).size() > kName && want.compare(0, got.size(), got) == 0 && escd(got).size() + 12 > kName;
}
static std::string base(const std::string& f) { size_t k = f.rfind('/'); return k == std::string::npos ? f : f.substr(k + 1); }
// takes the record at `at` of what was written; empty on success
static std::string take(const std::string& s, size_t& at, const Rec& r, bool colored) {
    if (r.json) {
        size_t e = s.find('\n', at);
        if (e == std::string::npos) return "a line is not complete";
        std::string line = s.substr(at, e - at);
        J j;
        if (jparse(line, j) != 1 || j.t != J::Obj) return "a line is not a JSON object: " + shown(line) + " ... " + shown(line.substr(line.size() > 60 ? line.size() - 60 : 0));
        auto str = [&](const char* k) { return j.o.count(k) && j.o[k].t == J::Str ? j.o[k].s : std::string("(none)"); };
        size_t z = 0;
        std::string ts = str("timestamp");
        if (!stamp(ts, z) || z != ts.size()) return "time stamp " + shown(ts);
        if (str("level") != kLevels[r.level]) return "level " + shown(str("level"));
        if (r.structured) {
            if (!named(str("component"), r.comp)) return "component " + shown(str("component"));
            if (!named(str("event"), r.event)) return "event " + shown(str("event"));
        } else {
            if (!named(str("file"), base(r.file))) return "file " + shown(str("file"));
            if (!j.o.count("line") || j.o["line"].n != r.line) return "line number";
        }
        if (!same(str("message"), r.msg, kWhole)) return fmt("message of %zu bytes for %zu: ", str("message").size(), r.msg.size()) + shown(str("message"));
        at = e + 1;
        return "";
    }
    static const char* start[] = {"\x1b[90m", "\x1b[36m", "\x1b[32m", "\x1b[33m", "\x1b[31m", "\x1b[35m"};
    if (colored && !r.structured && !lit(s, at, start[r.level])) return "no colour: " + shown(s.substr(at));
    if (!lit(s, at, "[") || !stamp(s, at) || !lit(s, at, "] ")) return "no time stamp: " + shown(s.substr(at));
    if (r.structured) {
        if (!lit(s, at, fmt("[%s] [", kLevels[r.level]) + r.comp + "|" + r.event + "] ")) return "head: " + shown(s.substr(at));
    } else if (!lit(s, at, "[" + base(r.file) + fmt(":%d] [%s] ", r.line, kLevels[r.level]))) return "head: " + shown(s.substr(at));
    std::string tail = (colored && !r.structured ? std::string("\x1b[0m") : std::string()) + "\n";
    if (s.compare(at, r.msg.size(), r.msg) == 0 && s.compare(at + r.msg.size(), tail.size(), tail) == 0) {
        at += r.msg.size() + tail.size();
        return "";
    }
    if (r.msg.size() <= kWhole) return "message: " + shown(s.substr(at));
    size_t n = 0;
    while (at + n < s.size() && n < r.msg.size() && s[at + n] == r.msg[n]) n++;
    if (n + 4 < kWhole) return fmt("message agrees for %zu of %zu bytes", n, r.msg.size());
    // it was cut there, or a little before if the message goes on like the end of the record
    for (size_t k = n; k + 8 > n; k--) {
        if (s.compare(at + k, tail.size(), tail) == 0 && utf8(r.msg.substr(0, k))) { at += k + tail.size(); return ""; }
        if (!k) break;
    }
    return "a cut message does not end its record: " + shown(s.substr(at + n));
}
static bool skip_own(const std::string& s, size_t& at) { // the logger's announcements, one line each
    size_t e = s.find('\n', at);
    if (e == std::string::npos) return false;
    std::string line = s.substr(at, e - at);
    if (line.find("[mcp_log.c:") == std::string::npos && line.find("\"file\":\"mcp_log.c\"") == std::string::npos && line.find("[ERROR] ") != 0 && line.find("[WARN] Invalid") != 0) return false;
    at = e + 1;
    return true;
}
static void compare(const std::string& what, const std::string& s, const std::vector<Rec>& want, bool err) {
    size_t at = 0;
    for (size_t i = 0; i < want.size(); i++) {
        while (skip_own(s, at)) {}
        std::string w = take(s, at, want[i], err && want[i].color);
        PBT_CHECK(w.empty(), "%s, record %zu of %zu (%s, %s, %zu bytes): %s", what.c_str(), i, want.size(), want[i].json ? "JSON" : "text", want[i].structured ? "structured" : "plain", want[i].msg.size(), w.c_str());
    }
    while (skip_own(s, at)) {}
    PBT_CHECK(at == s.size(), "%s holds more than was logged: %s", what.c_str(), shown(s.substr(at)).c_str());
}

static std::string message(Case& c) {
    switch (c.weighted({6, 2, 2, 1})) {
    case 0: return c.text((size_t)c.small(0, 60));
    case 1: { // dense in what needs escaping, at the limits of the buffers
        std::string unit = c.pick({std::string("\""), std::string("\\"), std::string("\x01"), std::string("\n"), std::string("\xc3\xa9"), std::string("\xe2\x82\xac"), std::string("\xf0\x9f\x98\x80"), std::string("a")}), s;
        size_t n = (size_t)c.range(200, 1300);
        s = std::string((size_t)c.draw(4), 'x');
        while (s.size() < n) s += unit;
        return s;
    }
    case 2: {
        std::string s;
        size_t n = (size_t)c.range(900, 1100);
        while (s.size() < n) s += c.text(60) + "y";
        return s;
    }
    default: return "%s %n %d" + c.text(20);
    }
}
static std::string name(Case& c) {
    if (c.chance(1, 4)) {
        std::string unit = c.pick({std::string("\""), std::string("\xc3\xa9"), std::string("c"), std::string("\x02")}), s = std::string((size_t)c.draw(4), 'n');
        size_t n = (size_t)c.range(20, 300);
        while (s.size() < n) s += unit;
        return s;
    }
    std::string s = c.text((size_t)c.small(0, 20));
    for (auto& ch : s) if (ch == '/' || ch == '\n') ch = '_';
    return s + "n";
}

static void history(Case& c) {
    std::string dir = scratch_dir() + "/log";
    std::string rm = "rm -rf '" + dir + "'";
    if (system(rm.c_str()) != 0) _exit(3);
    mkdir(dir.c_str(), 0700);
    { std::ofstream f(dir + "/plain"); f << ""; }
    std::vector<std::string> paths = {dir + "/a.log", dir + "/d1/d2/b.log", dir + "/c.log", dir + "/d1/e.log"};
    std::map<std::string, std::vector<Rec>> want;
    std::vector<Rec> err;
    mcp_log_set_quiet(false);
    Stderr cap(dir + "/stderr");
    std::string cur;
    int level = (int)c.range(0, 5);
    bool quiet = false, json = false, color = false;
    mcp_log_set_color(false);
    mcp_log_set_format(MCP_LOG_FORMAT_TEXT);
    PBT_CHECK(mcp_log_init(nullptr, (mcp_log_level_t)level) == 0, "init without a file failed");
    int steps = (int)c.range(3, 25), written = 0, changes = 0;
    for (int i = 0; i < steps; i++) {
        switch (c.weighted({9, 4, 2, 2, 1, 1, 2, 1, 1})) {
        case 0:
        case 1: {
            Rec r;
            r.structured = c.chance(1, 3);
            r.level = (int)c.range(0, 5);
            r.msg = message(c);
            if (r.structured) {
                r.comp = name(c), r.event = name(c);
                bool nc = c.chance(1, 8), ne = c.chance(1, 8);
                mcp_log_structured((mcp_log_level_t)r.level, nc ? nullptr : r.comp.c_str(), ne ? nullptr : r.event.c_str(), "%s", r.msg.c_str());
                if (nc) r.comp = json ? "" : "-";
                if (ne) r.event = json ? "" : "-";
            } else {
                r.file = c.chance(1, 2) ? "/some/where/" + name(c) : name(c);
                r.line = (int)c.range(0, 100000);
                mcp_log_log((mcp_log_level_t)r.level, r.file.c_str(), r.line, "%s", r.msg.c_str());
            }
            r.json = json, r.color = color;
            bool out = !quiet && r.level >= level;
            c.note("%s %s, %zu bytes%s", kLevels[r.level], r.structured ? "structured" : "plain", r.msg.size(), out ? "" : " (held back)");
            if (!out) break;
            written++;
            err.push_back(r);
            if (!cur.empty()) want[cur].push_back(r);
            if (!cur.empty() && c.chance(1, 3)) compare("the log file meanwhile", slurp(cur), want[cur], false);
            break;
        }
        case 2: {
            int l = (int)c.range(-1, 6);
            mcp_log_set_level((mcp_log_level_t)l);
            if (l >= 0 && l <= 5) level = l;
            PBT_CHECK(mcp_log_get_level() == level, "the level is %d, it was set to %d", (int)mcp_log_get_level(), level);
            c.note("level %d", l);
            changes++;
            break;
        }
        case 3:
            json = c.flip();
            mcp_log_set_format(json ? MCP_LOG_FORMAT_JSON : MCP_LOG_FORMAT_TEXT);
            c.note("format %s", json ? "JSON" : "text");
            changes++;
            break;
        case 4: quiet = c.flip(); mcp_log_set_quiet(quiet); c.note("quiet %d", quiet); changes++; break;
        case 5: color = c.flip(); mcp_log_set_color(color); c.note("colour %d", color); break;
        case 6: {
            std::string p = c.pick(paths);
            int l = (int)c.range(-1, 6);
            PBT_CHECK(mcp_log_init(p.c_str(), (mcp_log_level_t)l) == 0, "opening %s failed", p.c_str());
            level = l < 0 || l > 5 ? 2 : l;
            cur = p;
            want[p];
            c.note("open %s at level %d", p.c_str() + dir.size(), l);
            changes++;
            break;
        }
        case 7:
            mcp_log_close();
            cur.clear();
            c.note("close");
            changes++;
            break;
        default:
            PBT_CHECK(mcp_log_init((dir + "/plain/x/y.log").c_str(), (mcp_log_level_t)level) != 0, "a log file below a plain file was opened");
            cur.clear();
            c.note("open fails");
        }
    }
    mcp_log_close();
    cap.stop();
    mcp_log_set_color(false);
    quiet_logs();
    compare("standard error", slurp(dir + "/stderr"), err, true);
    for (auto& w : want) compare(w.first.substr(dir.size() + 1), slurp(w.first), w.second, false);
    PBT_CHECK(access((dir + "/plain/x").c_str(), F_OK) != 0, "directory below a plain file");
    c.nontrivial(written >= 3 && changes >= 2);
}

static void writers(Case& c) {
    std::string dir = scratch_dir() + "/log";
    std::string rm = "rm -rf '" + dir + "'";
    if (system(rm.c_str()) != 0) _exit(3);
    mkdir(dir.c_str(), 0700);
    bool json = c.flip(), toggle = c.chance(1, 3), reopen = c.chance(1, 3);
    int n = (int)c.range(2, 5);
    std::vector<std::vector<Rec>> work((size_t)n);
    for (int t = 0; t < n; t++) {
        int m = (int)c.small(1, 30);
        for (int i = 0; i < m; i++) {
            Rec r;
            r.structured = c.chance(1, 3);
            r.level = 2 + (int)c.draw(4);
            r.comp = "c", r.event = "e", r.file = "f.c", r.line = i;
            std::string s = c.printable((size_t)c.small(0, 400));
            for (auto& ch : s) if (ch == '\n') ch = ' ';
            r.msg = fmt("t%d n%d ", t, i) + s + " end";
            work[(size_t)t].push_back(r);
        }
    }
    mcp_log_set_quiet(false);
    Stderr cap(dir + "/stderr");
    mcp_log_set_color(false);
    PBT_CHECK(mcp_log_init((dir + "/a.log").c_str(), MCP_LOG_LEVEL_INFO) == 0, "opening the log file failed");
    mcp_log_set_format(json ? MCP_LOG_FORMAT_JSON : MCP_LOG_FORMAT_TEXT);
    c.note("%d writers, %s%s%s", n, json ? "JSON" : "text", toggle ? ", settings changing" : "", reopen ? ", file changing" : "");
    std::atomic<int> left{n};
    std::vector<std::thread> th;
    for (auto& w : work) th.emplace_back([&] {
        for (auto& r : w) {
            if (r.structured) mcp_log_structured((mcp_log_level_t)r.level, r.comp.c_str(), r.event.c_str(), "%s", r.msg.c_str());
            else mcp_log_log((mcp_log_level_t)r.level, r.file.c_str(), r.line, "%s", r.msg.c_str());
        }
        left--;
    });
    for (int k = 0; left && k < 400; k++) {
        if (toggle) mcp_log_set_level(k & 1 ? MCP_LOG_LEVEL_INFO : MCP_LOG_LEVEL_DEBUG);
        if (toggle && k % 4 == 0) mcp_log_set_format(k & 4 ? MCP_LOG_FORMAT_JSON : MCP_LOG_FORMAT_TEXT);
        if (reopen && k % 8 == 3) mcp_log_init((dir + (k & 8 ? "/a.log" : "/b.log")).c_str(), MCP_LOG_LEVEL_INFO);
        usleep(100);
    }
    for (auto& x : th) x.join();
    mcp_log_close();
    cap.stop();
    quiet_logs();
    mcp_log_set_format(MCP_LOG_FORMAT_TEXT);
    // every line is one whole record; each writer's are in order
    std::vector<size_t> infile((size_t)n, 0);
    auto scan = [&](const char* what, const std::string& s, bool all) {
        size_t at = 0;
        std::vector<int> last((size_t)n, -1);
        std::vector<size_t> count((size_t)n, 0);
        while (at < s.size()) {
            if (skip_own(s, at)) continue;
            size_t k = s.find("t", at), e = s.find('\n', at);
            int t = -1, i = -1;
            std::string line = s.substr(at, e == std::string::npos ? e : e - at);
            for (size_t q = line.find(" end"); k != std::string::npos && q != std::string::npos;) {
                size_t b = line.find("] t") != std::string::npos ? line.find("] t") + 2 : line.find("\"message\":\"t") + 11;
                sscanf(line.c_str() + std::min(b, line.size()), "t%d n%d ", &t, &i);
                break;
            }
            PBT_CHECK(t >= 0 && t < n && i >= 0 && (size_t)i < work[(size_t)t].size(), "%s holds a line that is no record: %s", what, shown(line).c_str());
            Rec r = work[(size_t)t][(size_t)i];
            r.json = line[0] == '{';
            PBT_CHECK(toggle || r.json == json, "%s: a record in the other format", what);
            std::string w = take(s, at, r, false);
            PBT_CHECK(w.empty(), "%s: record %d of writer %d: %s", what, i, t, w.c_str());
            PBT_CHECK(last[(size_t)t] < i, "%s: record %d of writer %d comes after %d", what, i, t, last[(size_t)t]);
            last[(size_t)t] = i;
            count[(size_t)t]++;
        }
        for (int t = 0; t < n; t++) {
            infile[(size_t)t] += all ? 0 : count[(size_t)t];
            if (all) PBT_CHECK(count[(size_t)t] == work[(size_t)t].size(), "%s holds %zu of the %zu records of writer %d", what, count[(size_t)t], work[(size_t)t].size(), t);
        }
    };
    scan("standard error", slurp(dir + "/stderr"), true);
    scan("the log file", slurp(dir + "/a.log"), false);
    if (reopen) scan("the second log file", slurp(dir + "/b.log"), false);
    for (int t = 0; t < n; t++) {
        if (!reopen) PBT_CHECK(infile[(size_t)t] == work[(size_t)t].size(), "the log file holds %zu of the %zu records of writer %d", infile[(size_t)t], work[(size_t)t].size(), t);
        else PBT_CHECK(infile[(size_t)t] <= work[(size_t)t].size(), "records are in the files twice");
    }
    c.nontrivial(n >= 2);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P45";
    o.rule = "history: at least three records and two changes of settings or files; writers: always, there are at least two";
    o.tests = {
        {"history", history, 20000, 200000, 120, 25},
        {"writers", writers, 6000, 60000, 120, 25},
    };
    o.assumptions = {"one thread opens and closes log files", "levels are one of the six"};
    o.worker_init = [] { mcp_log_init(nullptr, MCP_LOG_LEVEL_FATAL); quiet_logs(); };
    return run(argc, argv, o);
}
