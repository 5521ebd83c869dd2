// TECHNIQUE: property-based testing: generated templates, parameters and URIs against a reference model (expansion, round trip, derivability of every accepted URI by exhaustive search, exact parameter values)
// NOTE: Matching is claimed complete only where each value ends at the first occurrence of the literal text after it; values are at most 255 bytes, placeholders at most 255.
#include "tpl.hpp"
extern "C" {
#include "mcp_thread_local.h"
}
using namespace pbt;

static void check_uri(Case& c, const Tpl& t, const std::string& ts, const std::string& uri, bool& matched) {
    Exact u(uri), x(ts);
    bool m = mcp_template_matches(u.p, x.p) != 0;
    mcp_json_t* n = mcp_template_extract_params(u.p, x.p);
    std::vector<std::string> vals;
    bool fit = first_fit(t, uri, vals);
    int fuel = 200000;
    matched = m;
    if (m) PBT_CHECK(derivable(t, 0, uri, 0, fuel), "URI %s matches %s, from which it cannot be had", esc(uri).c_str(), esc(ts).c_str());
    if (n) { fuel = 200000; PBT_CHECK(derivable(t, 0, uri, 0, fuel), "parameters were extracted from %s with %s, from which it cannot be had", esc(uri).c_str(), esc(ts).c_str()); }
    if (fit) {
        PBT_CHECK(m, "URI %s does not match %s", esc(uri).c_str(), esc(ts).c_str());
        PBT_CHECK(n, "no parameters extracted from %s with %s", esc(uri).c_str(), esc(ts).c_str());
        J got = from_node(n);
        size_t k = 0;
        for (auto& p : t) {
            if (p.lit) continue;
            const std::string& v = vals[k++];
            const J* g = got.get(p.text);
            if (v.empty()) { // missing: nothing, an empty text or the default
                if (p.type == TStr || p.type == TPat) PBT_CHECK(!g || *g == J::str("") || (p.has_def && *g == J::str(p.def)), "missing %s was extracted as %s", p.text.c_str(), jdump(*g).c_str());
                else PBT_CHECK(!g || *g == J::str("") || (p.has_def && (!value_ok(p, p.def) || *g == typed(p, p.def))), "missing %s was extracted as %s", p.text.c_str(), jdump(*g).c_str());
                continue;
            }
            PBT_CHECK(g, "parameter %s was not extracted from %s with %s", p.text.c_str(), esc(uri).c_str(), esc(ts).c_str());
            PBT_CHECK(*g == typed(p, v), "parameter %s of %s was extracted as %s, is %s", p.text.c_str(), esc(uri).c_str(), jdump(*g).c_str(), jdump(typed(p, v)).c_str());
        }
        PBT_CHECK(got.o.size() <= k, "more parameters than placeholders were extracted");
    }
    PBT_CHECK(m == (n != nullptr), "%s %s the template %s, but parameters were %sextracted", esc(uri).c_str(), m ? "matches" : "does not match", esc(ts).c_str(), n ? "" : "not ");
    mcp_json_destroy(n);
    (void)c;
}
static void expand(Case& c) {
    Tpl t = gen_tpl(c);
    std::string ts = show(t);
    J ps = J::obj();
    std::string want, tail;
    bool fails = false, frac = false;
    double frac_v = 0;
    const Part* frac_p = nullptr;
    size_t np = 0;
    std::map<std::string, std::string> sent;
    for (auto& p : t) {
        std::string& out = frac ? tail : want;
        if (p.lit) { out += p.text; continue; }
        np++;
        bool required = !p.opt && !p.has_def;
        std::string v;
        bool have = true;
        switch (c.weighted({6, 2, required ? 1u : 5u, 1, 1, 1})) {
        case 0: v = gen_value(c, p, !c.chance(1, 12)); ps.o[p.text] = J::str(v); break;
        case 1: { // a number
            double d = c.chance(1, 3) ? (double)c.range(0, 2000000000000LL) - 1e12 : (double)c.range(0, 2000) - 1000;
            if (!frac && c.chance(1, 3)) {
                d = ((double)c.range(0, 1000000) + 1) / (double)(1 + 2 * c.range(1, 500));
                if (d == std::floor(d)) d += 0.1;
                frac = true, frac_v = d, frac_p = &p;
                ps.o[p.text] = J::num(d);
                continue;
            }
            v = fmt("%.0f", d);
            if (v == "-0") v = "0";
            ps.o[p.text] = J::num(d);
            break;
        }
        case 2: have = false; break;
        case 3: have = false; ps.o[p.text] = c.flip() ? J::null() : J::arr(); break;
        case 4: { bool b = c.flip(); v = b ? "true" : "false"; ps.o[p.text] = J::boolean(b); break; }
        default: v = gen_value(c, p, true); ps.o[p.text] = J::str(v);
        }
        if (!have) {
            if (required) fails = true;
            else if (p.has_def) { v = p.def; fails |= !value_ok(p, v); }
        } else if (!value_ok(p, v)) fails = true;
        out += v;
    }
    if (c.chance(1, 4)) ps.o["unrelated"] = J::str("zzz");
    mcp_json_t* n = jbuild(ps);
    Exact x(ts);
    char* r = mcp_template_expand(x.p, n);
    c.note("template %s", esc(ts).c_str());
    c.note("params %s -> %s", jdump(ps).c_str(), r ? esc(r).c_str() : "(none)");
    std::string got = r ? r : "";
    bool had = r != nullptr;
    free(r);
    mcp_json_destroy(n);
    if (frac) { // any text with the same value, in its place
        if (had) {
            PBT_CHECK(!fails, "expanded in spite of missing or invalid parameters");
            PBT_CHECK(got.size() >= want.size() + tail.size() && got.compare(0, want.size(), want) == 0 && got.compare(got.size() - tail.size(), tail.size(), tail) == 0, "wrong expansion: expected %s<number>%s", esc(want).c_str(), esc(tail).c_str());
            std::string num = got.substr(want.size(), got.size() - want.size() - tail.size());
            char* e;
            PBT_CHECK(!num.empty() && strtod(num.c_str(), &e) == frac_v && !*e, "number %.17g expanded to %s", frac_v, esc(num).c_str());
            PBT_CHECK(value_ok(*frac_p, num), "an invalid value was expanded");
        } else PBT_CHECK(fails || frac_p->type == TInt || frac_p->type == TBool || frac_p->type == TPat, "expansion failed");
    } else {
        PBT_CHECK(had == !fails, fails ? "expanded in spite of missing or invalid parameters" : "expansion failed");
        if (had) PBT_CHECK(got == want, "wrong expansion: expected %s", esc(want).c_str());
    }
    bool matched = false;
    if (had) check_uri(c, t, ts, got, matched);
    c.nontrivial(np > 0 && had);
    if (!had) c.label("refused expansion");
    if (matched) c.label("round trip");
}
static void match(Case& c) {
    Tpl t = gen_tpl(c);
    std::string ts = show(t);
    std::string uri;
    switch (c.weighted({3, 2, 4, 1})) {
    case 0: uri = gen_uri(c, t, true); break;
    case 1: uri = gen_uri(c, t, false); break;
    case 2: uri = mutate(c, gen_uri(c, t, true)); break;
    default: uri = gen_uri(c, gen_tpl(c), true);
    }
    c.note("template %s URI %s", esc(ts).c_str(), esc(uri).c_str());
    bool m;
    check_uri(c, t, ts, uri, m);
    c.label(m ? "match" : "no match");
    bool params = false;
    for (auto& p : t) params |= !p.lit;
    c.nontrivial(params && !uri.empty());
}
static void validate(Case& c) {
    mcp_template_param_validation_t v;
    Part p;
    p.type = (int)c.draw(5);
    static const mcp_template_param_type_t T[] = {MCP_TEMPLATE_PARAM_TYPE_STRING, MCP_TEMPLATE_PARAM_TYPE_INT, MCP_TEMPLATE_PARAM_TYPE_FLOAT, MCP_TEMPLATE_PARAM_TYPE_BOOL, MCP_TEMPLATE_PARAM_TYPE_CUSTOM};
    bool req = c.flip();
    PBT_CHECK(mcp_template_init_validation(&v, T[p.type], req, c.flip() ? "d" : nullptr) == 0, "init failed");
    long long lo = INT_MIN, hi = INT_MAX;
    float flo = -FLT_MAX, fhi = FLT_MAX;
    size_t smin = 0, smax = SIZE_MAX;
    bool bounded = c.chance(2, 3);
    if (bounded) {
        lo = (long long)c.range(0, 200) - 100, hi = lo + (long long)c.draw(100);
        flo = (float)lo / 4, fhi = (float)hi / 4;
        smin = c.draw(5), smax = smin + c.draw(6);
        if (p.type == TInt) v.range.int_range.min = (int)lo, v.range.int_range.max = (int)hi;
        if (p.type == TFloat) v.range.float_range.min = flo, v.range.float_range.max = fhi;
        if (p.type == TStr) v.range.string_range.min_len = smin, v.range.string_range.max_len = smax;
    }
    bool pat = p.type == TPat && c.chance(9, 10);
    if (pat) {
        for (size_t i = 0, n = c.small(0, 6); i < n; i++) p.pat += c.chance(1, 3) ? '*' : (char)('a' + c.draw(2));
        v.pattern = strdup(p.pat.c_str());
    }
    std::string s;
    if (p.type == TInt && bounded && c.chance(2, 3)) s = fmt("%lld", lo - 2 + (long long)c.draw((uint64_t)(hi - lo) + 5));
    else if (p.type == TFloat && bounded && c.chance(2, 3)) s = fmt("%g", ((double)lo - 2 + (double)c.draw((uint64_t)(hi - lo) + 5)) / 4);
    else if (pat && c.flip()) for (size_t i = 0, n = c.small(0, 8); i < n; i++) s += (char)('a' + c.draw(2));
    else s = gen_value(c, p, c.flip());
    if (p.type == TPat && !pat) p.pat = "*";
    bool want = value_ok(p, s);
    long long n;
    if (want && p.type == TInt) { int_text(s, n); want = n >= lo && n <= hi; }
    if (want && p.type == TFloat) { float f = strtof(s.c_str(), nullptr); want = f >= flo && f <= fhi; }
    if (p.type == TStr) want = s.size() >= smin && s.size() <= smax;
    Exact x(s);
    bool got = mcp_template_validate_param(x.p, &v) != 0;
    c.note("type %d value %s pattern %s int %lld..%lld float %g..%g len %zu..%zu", p.type, esc(s).c_str(), p.pat.c_str(), lo, hi, flo, fhi, smin, smax);
    PBT_CHECK(got == want, "value was %s", got ? "accepted" : "refused");
    PBT_CHECK((mcp_template_validate_param(nullptr, &v) != 0) == !req, "a missing value of a %s parameter was %s", req ? "required" : "optional", req ? "accepted" : "refused");
    mcp_template_free_validation(&v);
    c.label(want ? "valid" : "invalid");
    c.nontrivial(p.type != TStr || bounded);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P11";
    o.rule = "the template has placeholders and was expanded, or was matched against a non-empty URI, or a value was checked against a type, range or pattern";
    o.tests = {{"expand", expand, 200000, 2000000}, {"match", match, 400000, 4000000}, {"validate", validate, 200000, 2000000}};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
