// TECHNIQUE: property-based testing: generated pattern lists and names against a reference matcher, directly and through complete requests with handler invocation counts
// NOTE: At the very second of its expiry an identity may be treated either way.
// SHIM: srv_shim.c
#include "srv.hpp"
extern "C" {
#include "mcp_auth.h"
#include "mcp_string_utils.h"
char* p06_request(mcp_server_t* s, uint64_t id, const char* method, const char* params, const mcp_auth_context_t* a, int* err);
}
using namespace pbt;

static bool ref_match(const std::string& p, const std::string& n) {
    if (!p.empty() && p.back() == '*') return n.compare(0, p.size() - 1, p, 0, p.size() - 1) == 0 && n.size() >= p.size() - 1;
    return p == n;
}
static std::string gen_name(Case& c) {
    std::string s;
    switch (c.draw(5)) {
    case 0: s = c.ident(0, 12); break;
    case 1: { size_t n = c.small(0, 6); for (size_t i = 0; i < n; i++) s += "ab*"[c.draw(3)]; break; }
    case 2: s = "res://" + c.ident(0, 4) + "/" + c.ident(0, 3); break;
    case 3: s = c.text(16); break;
    default: { size_t n = c.small(0, 4); for (size_t i = 0; i < n; i++) s += "ab"[c.draw(2)]; break; }
    }
    return std::string(s.c_str());
}
static std::string gen_pattern(Case& c, const std::vector<std::string>& names) {
    std::string s = c.pick(names);
    switch (c.draw(9)) {
    case 0: return s;
    case 1: return s + "*";
    case 2: return s.substr(0, c.draw(s.size() + 1)) + "*";
    case 3: return s.substr(0, c.draw(s.size() + 1));
    case 4: return "*";
    case 5: return "";
    case 6: { if (s.empty()) return s; s[c.draw(s.size())] = '*'; return s; }
    case 7: return gen_name(c) + (c.flip() ? "*" : "");
    default: { if (!s.empty()) s[c.draw(s.size())] ^= 0x20; for (auto& ch : s) if (ch & 0x80 || !ch) ch = 'q'; return s; }
    }
}
struct Identity {
    mcp_auth_context_t ctx{};
    std::vector<std::string> res, tools;
    std::vector<char*> pr, pt;
    void fill() {
        for (auto& s : res) pr.push_back((char*)s.c_str());
        for (auto& s : tools) pt.push_back((char*)s.c_str());
        ctx.type = MCP_AUTH_API_KEY;
        ctx.identifier = (char*)"someone";
        ctx.allowed_resources = pr.empty() ? nullptr : pr.data();
        ctx.allowed_resources_count = pr.size();
        ctx.allowed_tools = pt.empty() ? nullptr : pt.data();
        ctx.allowed_tools_count = pt.size();
    }
    // 1 allowed, 0 denied, -1 either
    int want(bool tool, const std::string& n) const {
        if (ctx.expiry) {
            if (vt::now() > ctx.expiry) return 0;
            if (vt::now() == ctx.expiry) return -1;
        }
        for (auto& p : tool ? tools : res) if (ref_match(p, n)) return 1;
        return 0;
    }
};
static void gen_identity(Case& c, Identity& d, const std::vector<std::string>& rn, const std::vector<std::string>& tn) {
    size_t a = c.small(0, 4), b = c.small(0, 4);
    for (size_t i = 0; i < a; i++) d.res.push_back(gen_pattern(c, rn));
    for (size_t i = 0; i < b; i++) d.tools.push_back(gen_pattern(c, tn));
    if (c.chance(1, 3)) d.ctx.expiry = vt::now() + (time_t)c.range(-3, 30);
    if (d.ctx.expiry < 0) d.ctx.expiry = 1;
    d.fill();
}

static void direct(Case& c) {
    vt::freeze(1700000000);
    std::vector<std::string> rn, tn;
    for (int i = 0; i < 4; i++) { rn.push_back(gen_name(c)); tn.push_back(gen_name(c)); }
    Identity d;
    gen_identity(c, d, rn, tn);
    int yes = 0, no = 0;
    int n = (int)c.range(3, 12);
    for (int i = 0; i < n; i++) {
        if (c.chance(1, 4)) vt::advance(c.pick({1, 2, 10, 40}));
        bool tool = c.flip();
        std::string name = c.chance(3, 4) ? c.pick(c.chance(4, 5) == tool ? tn : rn) : gen_name(c);
        if (c.chance(1, 4)) name += c.ident(0, 3);
        bool got = tool ? mcp_auth_check_tool_access(&d.ctx, name.c_str()) : mcp_auth_check_resource_access(&d.ctx, name.c_str());
        int want = d.want(tool, name);
        std::string ps;
        for (auto& p : tool ? d.tools : d.res) ps += " " + esc(p);
        c.note("%s %s against%s (expiry in %ld): %d", tool ? "tool" : "resource", esc(name).c_str(), ps.c_str(), d.ctx.expiry ? (long)(d.ctx.expiry - vt::now()) : 0L, got);
        PBT_CHECK(want < 0 || got == (want == 1), "%s %s is %s", tool ? "tool" : "resource", esc(name).c_str(), got ? "allowed without a matching pattern or after expiry" : "denied although a pattern matches");
        (got ? yes : no)++;
    }
    vt::off();
    if (yes) c.label("allowed");
    if (no) c.label("denied");
    c.nontrivial(yes && no);
}

// Through the request handlers: denied requests reach no handler and no cached data.
static void requests(Case& c) {
    vt::freeze(1700000000);
    Srv s;
    s.open(nullptr, true, true);
    std::vector<std::string> rn, tn;
    for (int i = 0; i < 4; i++) { rn.push_back("r" + gen_name(c)); tn.push_back("t" + gen_name(c)); }
    std::vector<std::unique_ptr<Identity>> ids;
    for (int i = 0; i < 3; i++) { ids.emplace_back(new Identity); gen_identity(c, *ids.back(), rn, tn); }
    int yes = 0, no = 0, n = (int)c.range(2, 14);
    for (int i = 0; i < n; i++) {
        Identity& d = *ids[c.draw(ids.size())];
        if (c.chance(1, 6)) vt::advance(c.pick({1, 2, 10, 40}));
        bool tool = c.flip();
        std::string name = tool ? c.pick(tn) : c.pick(rn);
        J p = J::obj();
        p.o[tool ? "name" : "uri"] = J::str(name);
        int err = 0, r0 = s.reads, c0 = s.calls;
        std::string ps = jdump(p);
        char* out = p06_request(s.s, 1 + i, tool ? "call_tool" : "read_resource", ps.c_str(), &d.ctx, &err);
        std::string o = out ? out : "";
        free(out);
        mcp_arena_reset_current_thread();
        int want = d.want(tool, name);
        c.note("%s %s: %s", tool ? "tool" : "resource", esc(name).c_str(), esc(o, 200).c_str());
        if (want < 0) continue;
        J r;
        bool result = jparse(o, r) != 0 && r.get("result");
        if (want == 1) {
            yes++;
            PBT_CHECK(result, "an allowed request failed: %s", esc(o, 300).c_str());
        } else {
            no++;
            PBT_CHECK(!result && s.reads == r0 && s.calls == c0, "a denied request was performed: %s", esc(o, 300).c_str());
            PBT_CHECK(!o.empty() && r.get("error"), "a denied request got no error: %s", esc(o, 300).c_str());
        }
    }
    vt::off();
    if (yes) c.label("allowed");
    c.nontrivial(no > 0);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P06";
    o.level = "bounded";
    o.rule = "direct: both an allowed and a denied answer; requests: at least one denied request";
    o.tests = {{"direct", direct, 600000, 4000000}, {"requests", requests, 40000, 300000}};
    o.assumptions = {"names and patterns contain no NUL"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
