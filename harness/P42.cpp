// TECHNIQUE: property-based testing over real loopback connections: generated document trees with secrets beside them, and generated request paths (plain, encoded, doubly encoded, with dot segments, repeated slashes, over-long); oracle: reference map from path to file contents, and a marker that no response may contain
// NOTE: Files are read only; everything lies in a scratch directory. No symbolic links. Requests that name no file must get an error response or a redirect; which one is left open.
#include "tidy.hpp"
#include "pbt.hpp"
#include "mcp.hpp"
#include "http.hpp"
#include <algorithm>
#include <sys/stat.h>
extern "C" {
#include "mcp_http_transport.h"
#include "mcp_sthttp_transport.h"
}
#include <libwebsockets.h>
using namespace pbt;

static int g_calls;
static char* on_message(void*, const void* d, size_t n, int* err) {
    *err = 0;
    g_calls++;
    return strdup(("got " + std::string((const char*)d, n)).c_str());
}
static mcp_transport_t* start(bool streamable, const std::string& root, std::string& host, uint16_t& port) {
    static unsigned serial = 0;
    host = own_host();
    for (int t = 0; t < 50; t++) {
        port = (uint16_t)(22000 + serial++ % 9000);
        mcp_transport_t* tr;
        if (streamable) {
            mcp_sthttp_config_t cfg = MCP_STHTTP_CONFIG_DEFAULT;
            cfg.host = host.c_str();
            cfg.port = port;
            cfg.doc_root = root.c_str();
            tr = mcp_transport_sthttp_create(&cfg);
        } else {
            mcp_http_config_t cfg;
            memset(&cfg, 0, sizeof cfg);
            cfg.host = host.c_str();
            cfg.port = port;
            cfg.doc_root = root.c_str();
            tr = mcp_transport_http_create(&cfg);
        }
        PBT_CHECK(tr != nullptr, "no transport");
        if (mcp_transport_start(tr, on_message, nullptr, nullptr) == 0) return tr;
        mcp_transport_destroy(tr);
    }
    fail("the transport does not start");
    return nullptr;
}
static std::string show(const std::string& s) { return s.size() > 120 ? esc(s.substr(0, 100)) + fmt("...(%zu bytes)", s.size()) : esc(s); }
static const char* MARK = "S3CR3T-MARKER";

static void put(const std::string& path, const std::string& bytes) {
    FILE* f = fopen(path.c_str(), "wb");
    PBT_CHECK(f != nullptr, "cannot write %s", path.c_str());
    fwrite(bytes.data(), 1, bytes.size(), f);
    fclose(f);
}
static std::string encode(Case& c, const std::string& s, int rate) {
    std::string out;
    for (unsigned char ch : s) {
        if (ch == '/' && !c.chance(1, 20)) { out += '/'; continue; }
        if ((isalnum(ch) || strchr("-_.~", ch)) && !c.chance(1, (uint64_t)rate)) out += (char)ch;
        else out += fmt(c.flip() ? "%%%02X" : "%%%02x", ch);
    }
    return out;
}
static void files(Case& c) {
    std::string base = scratch_dir() + fmt("/w%u", (unsigned)c.draw(1));
    std::string clean = "rm -rf '" + base + "'";
    PBT_CHECK(system(clean.c_str()) == 0, "cannot clean up");
    mkdir(base.c_str(), 0755);
    std::string root = base + "/www";
    mkdir(root.c_str(), 0755);
    put(base + "/secret.txt", std::string(MARK) + " beside");
    mkdir((base + "/www-private").c_str(), 0755);
    put(base + "/www-private/secret.txt", std::string(MARK) + " prefix");
    put(base + "/wwwsecret.txt", std::string(MARK) + " joined");
    std::map<std::string, std::string> tree;
    std::vector<std::string> dirs = {""};
    for (int i = 0, n = (int)c.draw(3); i < n; i++) {
        std::string d = c.pick(dirs) + "/" + c.pick(std::vector<std::string>{"sub", "a b", "x.y", "deep", "%41", "...", "caf\xc3\xa9"});
        if (mkdir((root + d).c_str(), 0755) == 0) dirs.push_back(d);
    }
    static const char* exts[] = {".html", ".css", ".js", ".json", ".txt", ".png", ".svg", ".xml", ".md", ".pdf", ".HTML", ".gif", ".woff2", ".unknown", ""};
    for (int i = 0, n = (int)c.range(1, 6); i < n; i++) {
        std::string d = c.pick(dirs), f = c.chance(1, 4) ? "index.html" : (c.chance(1, 3) ? c.pick(std::vector<std::string>{"a b", "100%", "c++", "a&b", "semi;colon", "q?x", "h#x", "tools2", ".hidden", "caf\xc3\xa9", "%2e%2e"}) : c.ident(1, 8)) + exts[c.draw(15)];
        std::string p = d + "/" + f;
        struct stat st;
        if (stat((root + p).c_str(), &st) == 0) continue;
        std::string bytes;
        size_t k = c.chance(1, 3) ? c.range(1, 20000) : c.range(1, 200);
        uint64_t x = c.draw(1u << 30) + 1;
        for (size_t j = 0; j < k; j++) { x = x * 6364136223846793005ull + 1442695040888963407ull; bytes += (char)(x >> 40); }
        put(root + p, bytes);
        tree[p] = bytes;
    }
    std::string given = c.chance(1, 6) ? root + "/" : root;
    bool streamable = c.chance(1, 3);
    std::string host;
    uint16_t port;
    mcp_transport_t* tr = start(streamable, given, host, port);
    HttpClient h;
    int n = (int)c.range(1, 12);
    size_t served = 0, escapes = 0;
    std::string trail;
    for (int k = 0; k < n; k++) {
        std::string path, want;
        bool known = false, call = false, tricky = false;
        switch (c.weighted({5, 5, 2, 1, 1})) {
        case 0: {
            if (tree.empty()) continue;
            auto it = tree.begin();
            std::advance(it, (long)c.draw(tree.size()));
            path = encode(c, it->first, 8);
            want = it->second;
            known = true;
            break;
        }
        case 1: { // towards the secrets
            std::string p = c.flip() ? c.pick(dirs) : "";
            int ups = (int)c.range(1, 4);
            static const std::vector<std::string> up = {"/..", "/%2e%2e", "/.%2E", "/%252e%252e", "%2f..", "/../", "//..", "/./..", "/....//", "\\..", "%5c..", "/..;", "/%c0%ae%c0%ae", "..", "%2F%2E%2E"};
            for (int i = 0; i < ups; i++) p += c.pick(up);
            p += c.pick(std::vector<std::string>{"/secret.txt", "/www-private/secret.txt", "-private/secret.txt", "secret.txt", "%2fsecret.txt", "/www/../secret.txt", "%00/secret.txt"});
            if (c.chance(1, 10)) p = base + "/secret.txt"; // an absolute path
            if (c.chance(1, 10)) p = "/" + p;
            std::string q;
            for (char ch : p) q += ch == ' ' ? std::string("%20") : std::string(1, ch);
            path = q[0] == '/' ? q : (c.flip() ? "/" + q : q);
            escapes++;
            tricky = true;
            break;
        }
        case 2: path = "/no" + encode(c, c.ident(1, 10), 8) + exts[c.draw(15)]; break;
        case 3: path = c.pick(std::vector<std::string>{"/tools", "/call_tool?name=x", "/events2", "/call_tool"}); call = !streamable && path == "/call_tool?name=x"; break;
        default: path = "/" + std::string(c.range(300, 900), 'l') + c.ident(1, 3); // over-long
        }
        trail += (k ? ", " : "") + esc(path.size() > 60 ? path.substr(0, 60) + "..." : path);
        if (h.fd < 0 || h.eof || c.chance(1, 4)) { h.close_now(); PBT_CHECK(h.open(host, port), "%s: cannot connect", trail.c_str()); }
        int before = g_calls;
        h.feed(fmt("GET %s HTTP/1.1\r\nHost: x\r\n\r\n", path.c_str()));
        HttpReply got;
        std::string how;
        bool ok = h.reply(got, how);
        PBT_CHECK(got.body.find(MARK) == std::string::npos && h.in.find(MARK) == std::string::npos, "%s: the response has a file from outside the document root: %s", trail.c_str(), show(got.body).c_str());
        if (known) {
            PBT_CHECK(ok, "%s: %s", trail.c_str(), how.c_str());
            PBT_CHECK(got.status == 200, "%s: status %d", trail.c_str(), got.status);
            PBT_CHECK(got.body == want, "%s: the response is %s, the file has %s", trail.c_str(), show(got.body).c_str(), show(want).c_str());
            served++;
        } else if (call) {
            PBT_CHECK(ok && got.status == 200 && g_calls == before + 1, "%s: status %d, %d calls", trail.c_str(), got.status, g_calls - before);
        } else {
            // libwebsockets itself may drop a request it cannot make sense of
            PBT_CHECK(ok || tricky, "%s: %s", trail.c_str(), how.c_str());
            PBT_CHECK(!ok || tricky || got.status >= 300 || path == "/tools" || path.compare(0, 10, "/call_tool") == 0, "%s: status %d", trail.c_str(), got.status);
            if (!ok) c.label(how.c_str());
            h.close_now();
        }
    }
    h.close_now();
    mcp_transport_stop(tr);
    mcp_transport_destroy(tr);
    PBT_CHECK(system(clean.c_str()) == 0, "cannot clean up");
    c.nontrivial(served > 0 && escapes > 0);
    c.note("%s%zu files; GET %s", streamable ? "streamable, " : "", tree.size(), trail.c_str());
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P42";
    o.rule = "at least one file served and at least one attempt to leave the document root";
    o.tests = {
        {"files", tidy<files>, 600, 8000, 120, 20, 3},
    };
    o.worker_init = [] { quiet_logs(); lws_set_log_level(0, nullptr); };
    return run(argc, argv, o);
}
