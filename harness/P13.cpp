// TECHNIQUE: stateful property-based testing: generated histories of template, access-list and validator registrations with accesses in between, directly and through a running server, against a rule model that records every validator and handler call
// NOTE: Validators are functions of template, parameters and their data. Through the server a read carries no role (known finding), so there only validators decide.
// SHIM: srv_shim.c
#include "srv.hpp"
#include "tpl.hpp"
extern "C" {
#include "mcp_template_security.h"
#include "mcp_thread_local.h"
}
using namespace pbt;

// A validator accepts by a hash of what it was given; what it was given is recorded.
struct VCall { int id; std::string tpl; J params; };
static std::vector<VCall> g_calls;
struct V { int id; int mode; };
static uint64_t mix(const std::string& s) { return fnv(s.data(), s.size()); }
static bool verdict(int id, int mode, const std::string& tpl, const J& ps) {
    if (mode == 0) return true;
    if (mode == 1) return false;
    return (mix(jdump(ps) + "|" + tpl) + (uint64_t)id) % 2 == 0;
}
static bool validator(const char* tpl, const mcp_json_t* params, void* ud) {
    V* v = (V*)ud;
    J ps = params ? from_node(params) : J::null();
    g_calls.push_back({v->id, tpl, ps});
    return verdict(v->id, v->mode, tpl, ps);
}
struct Rule {
    bool entry = false;          // the template has an access list or a validator
    std::set<std::string> roles; // empty: open to every role
    int val = -1;
};
struct Model {
    std::map<std::string, Rule> rules;
    int def = -1;
};
static const std::vector<std::string> ROLES = {"admin", "user", "Admin", "adm", "admin2", "guest", "", "user ", "\xc3\xa9", "root"};

static void rules(Case& c) {
    std::vector<std::unique_ptr<V>> vs;
    std::vector<std::string> ts;
    size_t nt = 1 + c.small(0, c.chance(1, 8) ? 40 : 6);
    for (size_t i = 0; i < nt; i++) {
        std::string t = i && c.chance(1, 3) ? mutate(c, ts[c.draw(ts.size())]) : show(gen_tpl(c));
        t.erase(std::remove(t.begin(), t.end(), '\0'), t.end());
        ts.push_back(t);
    }
    mcp_template_security_t* s = mcp_template_security_create();
    PBT_CHECK(s, "creation failed");
    Model m;
    int refused = 0, granted = 0, valcalls = 0;
    for (size_t i = 0, n = 2 + c.small(0, 60); i < n; i++) {
        const std::string& t = c.pick(ts);
        switch (c.weighted({3, 2, 1, 8, 5})) {
        case 0: {
            std::vector<std::string> rs;
            for (size_t k = 0, q = c.small(0, c.chance(1, 10) ? 12 : 3); k < q; k++) rs.push_back(c.chance(1, 12) ? "*" : c.pick(ROLES));
            // the caller's strings go away afterwards
            std::vector<std::unique_ptr<Exact>> keep;
            std::vector<const char*> p;
            for (auto& r : rs) { keep.emplace_back(new Exact(r)); p.push_back(keep.back()->p); }
            Exact tx(t);
            PBT_CHECK(mcp_template_security_add_acl(s, tx.p, p.empty() && c.flip() ? nullptr : p.data(), p.size()) == 0, "access list refused");
            Rule& r = m.rules[t];
            r.entry = true;
            for (auto& x : rs) r.roles.insert(x);
            std::string l;
            for (auto& x : rs) l += " '" + esc(x) + "'";
            c.note("access list of %s:%s", esc(t).c_str(), l.c_str());
            break;
        }
        case 1: {
            vs.emplace_back(new V{(int)vs.size(), (int)c.draw(4)});
            Exact tx(t);
            PBT_CHECK(mcp_template_security_set_validator(s, tx.p, validator, vs.back().get()) == 0, "validator refused");
            m.rules[t].entry = true;
            m.rules[t].val = vs.back()->id;
            c.note("validator %d (mode %d) for %s", vs.back()->id, vs.back()->mode, esc(t).c_str());
            break;
        }
        case 2:
            vs.emplace_back(new V{(int)vs.size(), (int)c.draw(4)});
            PBT_CHECK(mcp_template_security_set_default_validator(s, validator, vs.back().get()) == 0, "default validator refused");
            m.def = vs.back()->id;
            c.note("default validator %d (mode %d)", vs.back()->id, vs.back()->mode);
            break;
        default: {
            J ps = J::obj();
            for (size_t k = 0, q = c.small(0, 3); k < q; k++) ps.o[c.ident(1, 4)] = c.flip() ? J::str(gen_text(c)) : J::num((double)c.draw(100));
            mcp_json_t* node = jbuild(ps);
            bool access = c.flip(), has_role = c.chance(4, 5);
            std::string role = c.chance(1, 15) ? "*" : c.pick(ROLES);
            const Rule none, &r = m.rules.count(t) ? m.rules[t] : none;
            int val = r.val >= 0 ? r.val : m.def;
            bool vok = val < 0 || verdict(val, vs[val]->mode, t, ps);
            g_calls.clear();
            Exact tx(t), rx(role);
            if (access) {
                bool got = mcp_template_security_check_access(s, tx.p, has_role ? rx.p : nullptr, node);
                bool role_ok = !has_role || r.roles.empty() || r.roles.count("*") || r.roles.count(role);
                if (!r.entry) {
                    PBT_CHECK(got == !has_role, "access of %s to %s, which has no rules, was %s", has_role ? "a role" : "no role", esc(t).c_str(), got ? "granted" : "refused");
                } else {
                    PBT_CHECK(!got || role_ok, "role '%s' was granted access to %s, whose list does not name it", esc(role).c_str(), esc(t).c_str());
                    PBT_CHECK(!got || vok, "access to %s was granted though its validator rejects %s", esc(t).c_str(), jdump(ps).c_str());
                    PBT_CHECK(got || !role_ok || !vok, "access of %s%s%s to %s was refused", has_role ? "role '" : "no role", has_role ? esc(role).c_str() : "", has_role ? "'" : "", esc(t).c_str());
                }
                got ? granted++ : refused++;
            } else {
                bool got = mcp_template_security_validate_params(s, tx.p, node);
                PBT_CHECK(got == vok, "parameters %s of %s were %s, the validator in force (%d) %s them", jdump(ps).c_str(), esc(t).c_str(), got ? "accepted" : "rejected", val, vok ? "accepts" : "rejects");
                if (val >= 0) PBT_CHECK(!g_calls.empty(), "no validator was asked about %s", esc(t).c_str());
            }
            for (auto& k : g_calls) {
                valcalls++;
                PBT_CHECK(k.id == val, "validator %d was asked about %s, in force is %d", k.id, esc(t).c_str(), val);
                PBT_CHECK(k.tpl == t && k.params == ps, "the validator was asked about %s with %s, the access was to %s with %s", esc(k.tpl).c_str(), jdump(k.params).c_str(), esc(t).c_str(), jdump(ps).c_str());
            }
            mcp_json_destroy(node);
        }
        }
    }
    mcp_template_security_destroy(s);
    mcp_arena_reset_current_thread();
    c.nontrivial(refused && granted && valcalls);
}

// ---- through a server
struct Route { std::string tpl; int gen; int* ran; int* ran_gen; std::string* uri; bool fails; };
static mcp_error_code_t on_tpl(mcp_server_t*, const char* uri, void* ud, mcp_content_item_t*** content, size_t* n, char** msg) {
    Route* r = (Route*)ud;
    ++*r->ran;
    *r->ran_gen = r->gen;
    *r->uri = uri;
    if (r->fails) { *msg = strdup("no"); return MCP_ERROR_INTERNAL_ERROR; }
    mk_content({mk_item(MCP_CONTENT_TYPE_TEXT, "text/plain", fmt("%d|", r->gen) + uri)}, content, n);
    return MCP_ERROR_NONE;
}
static void server(Case& c) {
    Srv srv;
    srv.open(nullptr, true, false, c.flip());
    int ran = 0, ran_gen = -1;
    std::string ran_uri;
    std::vector<std::unique_ptr<V>> vs;
    std::vector<std::unique_ptr<Route>> routes;
    struct T { Tpl t; std::string s; int route = -1; };
    std::vector<T> ts;
    Model m;
    for (size_t i = 0, n = 1 + c.small(0, 5); i < n; i++) {
        T t;
        do { t.t = gen_tpl(c); t.s = show(t.t); } while (t.s.find('{') == std::string::npos && c.chance(9, 10));
        bool dup = false;
        for (auto& o : ts) dup |= o.s == t.s;
        if (!dup) ts.push_back(t);
    }
    for (size_t i = 0, n = 1 + c.small(0, 10); i < n; i++) {
        T& t = ts[c.draw(ts.size())];
        switch (c.weighted({5, 2, 2, 1})) {
        case 0:
            routes.emplace_back(new Route{t.s, (int)routes.size(), &ran, &ran_gen, &ran_uri, c.chance(1, 10)});
            PBT_CHECK(mcp_server_register_template_handler(srv.s, Exact(t.s).p, on_tpl, routes.back().get()) == 0, "template handler refused");
            t.route = routes.back()->gen;
            c.note("handler %d for %s", t.route, esc(t.s).c_str());
            break;
        case 1: {
            const char* roles[2] = {"admin", "user"};
            PBT_CHECK(mcp_server_add_template_acl(srv.s, Exact(t.s).p, roles, 1 + c.draw(2)) == 0, "access list refused");
            m.rules[t.s].entry = true;
            m.rules[t.s].roles = {"admin"};
            c.note("access list for %s", esc(t.s).c_str());
            break;
        }
        case 2:
            vs.emplace_back(new V{(int)vs.size(), (int)c.draw(4)});
            PBT_CHECK(mcp_server_set_template_validator(srv.s, Exact(t.s).p, validator, vs.back().get()) == 0, "validator refused");
            m.rules[t.s].val = vs.back()->id;
            c.note("validator %d (mode %d) for %s", vs.back()->id, vs.back()->mode, esc(t.s).c_str());
            break;
        default:
            vs.emplace_back(new V{(int)vs.size(), (int)c.draw(4)});
            PBT_CHECK(mcp_server_set_default_template_validator(srv.s, validator, vs.back().get()) == 0, "default validator refused");
            m.def = vs.back()->id;
            c.note("default validator %d (mode %d)", vs.back()->id, vs.back()->mode);
        }
    }
    int served = 0, rejected = 0;
    std::set<std::string> done;
    for (size_t i = 0, n = 1 + c.small(0, 14); i < n; i++) {
        T& t = ts[c.draw(ts.size())];
        std::string uri = gen_uri(c, t.t, c.chance(4, 5));
        if (c.chance(1, 8)) uri = mutate(c, uri);
        J probe;
        // text that JSON carries unchanged
        bool plain = true;
        for (unsigned char ch : uri) plain &= ch >= 0x20;
        if (!plain || uri.empty() || jparse(jdump(J::str(uri)), probe) != 1 || done.count(uri)) continue;
        done.insert(uri);
        ran = 0;
        ran_gen = -1;
        g_calls.clear();
        int reads0 = srv.reads;
        J ps = J::obj(), msg = J::obj();
        ps.o["uri"] = J::str(uri);
        msg.o = {{"jsonrpc", J::str("2.0")}, {"id", J::num((double)i + 1)}, {"method", J::str("read_resource")}, {"params", ps}};
        std::string out;
        PBT_CHECK(srv.ask(jdump(msg), out), "no answer");
        J r;
        PBT_CHECK(jparse(out, r) == 1, "the answer is no JSON");
        int code = r.get("error") && r.get("error")->get("code") ? (int)r.get("error")->get("code")->n : 0;
        c.note("read %s: %d", esc(uri).c_str(), code);
        // templates the URI fits
        std::vector<const T*> fits;
        bool somewhere = false; // fits in some other, less strict way
        for (auto& x : ts) {
            std::vector<std::string> vals;
            int fuel = 20000;
            if (x.route < 0) continue;
            if (first_fit(x.t, uri, vals)) fits.push_back(&x);
            else if (derivable(x.t, 0, uri, 0, fuel)) somewhere = true;
        }
        auto rule_of = [&](const std::string& tt) { return m.rules.count(tt) && m.rules[tt].val >= 0 ? m.rules[tt].val : m.def; };
        // every validator that was asked is the one in force for a template that the URI fits, and saw the URI's values
        bool all_ok = true;
        for (auto& k : g_calls) {
            const T* x = nullptr;
            for (auto& y : ts) if (y.s == k.tpl) x = &y;
            PBT_CHECK(x && x->route >= 0, "a validator was asked about %s, which has no handler", esc(k.tpl).c_str());
            PBT_CHECK(k.id == rule_of(k.tpl), "validator %d was asked about %s, in force is %d", k.id, esc(k.tpl).c_str(), rule_of(k.tpl));
            all_ok &= verdict(k.id, vs[k.id]->mode, k.tpl, k.params);
            std::vector<std::string> vals;
            if (!first_fit(x->t, uri, vals)) continue;
            size_t j = 0;
            for (auto& p : x->t) {
                if (p.lit) continue;
                const std::string& v = vals[j++];
                const J* g = k.params.get(p.text);
                if (!v.empty()) PBT_CHECK(g && *g == typed(p, v), "the validator of %s saw %s for %s in %s", esc(k.tpl).c_str(), g ? jdump(*g).c_str() : "nothing", p.text.c_str(), esc(uri).c_str());
            }
        }
        if (ran) {
            PBT_CHECK(ran == 1 && ran_uri == uri, "the handler ran %d times, with %s", ran, esc(ran_uri).c_str());
            const std::string& tt = routes[ran_gen]->tpl;
            const T* x = nullptr;
            for (auto& y : ts) if (y.s == tt) x = &y;
            int fuel = 200000;
            PBT_CHECK(x->route == ran_gen, "an outdated handler of %s ran", esc(tt).c_str());
            PBT_CHECK(derivable(x->t, 0, uri, 0, fuel), "%s was served by %s, which it does not fit", esc(uri).c_str(), esc(tt).c_str());
            PBT_CHECK(all_ok, "the handler of %s ran although a validator rejected the parameters of %s", esc(tt).c_str(), esc(uri).c_str());
            if (rule_of(tt) >= 0) {
                bool asked = false;
                for (auto& k : g_calls) asked |= k.tpl == tt;
                PBT_CHECK(asked, "the handler of %s ran without its validator being asked", esc(tt).c_str());
            }
            PBT_CHECK(srv.reads == reads0, "the general handler ran as well");
            if (routes[ran_gen]->fails) PBT_CHECK(code, "the handler failed and the answer is a result");
            else PBT_CHECK(!code && out.find(jdump(J::str(fmt("%d|", ran_gen) + uri))) != std::string::npos, "the handler's content is not in the answer %s", esc(out).c_str());
            served++;
            if (m.rules.count(tt) && !m.rules[tt].roles.empty())
                known_finding("a read_resource request reaches the handler of a template that has an access list: the server checks every request as a caller without a role");
        } else if (!fits.empty()) {
            PBT_CHECK(code, "%s fits %s, whose handler did not run", esc(uri).c_str(), esc(fits[0]->s).c_str());
            PBT_CHECK(!g_calls.empty() && !all_ok, "%s was refused (%d) without a validator rejecting it", esc(uri).c_str(), code);
            PBT_CHECK(code == MCP_ERROR_INVALID_PARAMS || code == MCP_ERROR_UNAUTHORIZED, "a rejected read is answered with %d", code);
            PBT_CHECK(srv.reads == reads0, "a rejected read went to the general handler");
            rejected++;
        } else if (!somewhere) {
            PBT_CHECK(g_calls.empty(), "a validator was asked about %s, which fits no template", esc(uri).c_str());
        }
    }
    c.nontrivial(served && (rejected || vs.size() || m.rules.size()));
    if (rejected) c.label("rejected");
}

int main(int argc, char** argv) {

    Options o;
    o.property = "P13";
    o.rule = "rules: at least one access granted, one refused and one validator asked; server: at least one read served by a template handler with a validator or access list registered";
    o.assumptions = {"validators are deterministic functions of the template, the parameters and their data", "rules and handlers are registered before the first read through the server"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    o.tests = {{"rules", rules, 200000, 3000000}, {"server", server, 40000, 800000}};
    return run(argc, argv, o);
}
