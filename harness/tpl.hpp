// Reference model of URI templates.
#pragma once
#include <cfloat>
#include <climits>
#include <cmath>
#include "jval.hpp"
#define template template_
extern "C" {
#include "mcp_template.h"
#include "mcp_template_optimized.h"
}
#undef template

enum { TStr, TInt, TFloat, TBool, TPat };
struct Part {
    bool lit = false;
    std::string text; // literal, or name
    int type = TStr;
    bool opt = false, has_def = false;
    std::string def, pat, spec;
};
using Tpl = std::vector<Part>;

inline bool glob(const char* v, const char* p) { // each * stands for any text
    if (!*p) return !*v;
    if (*p == '*') return glob(v, p + 1) || (*v && glob(v + 1, p));
    return *v == *p && glob(v + 1, p + 1);
}
inline bool int_text(const std::string& s, long long& out) {
    size_t i = 0;
    while (i < s.size() && isspace((unsigned char)s[i])) i++;
    bool neg = i < s.size() && s[i] == '-';
    if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++;
    if (i == s.size()) return false;
    long long v = 0;
    for (; i < s.size(); i++) {
        if (s[i] < '0' || s[i] > '9') return false;
        if (v < (1LL << 50)) v = v * 10 + (s[i] - '0');
    }
    out = neg ? -v : v;
    return true;
}
inline bool value_ok(const Part& p, const std::string& v) { // of a value that is present
    long long n;
    switch (p.type) {
    case TInt: return int_text(v, n) && n >= INT_MIN && n <= INT_MAX;
    case TFloat: {
        char* e;
        float f = strtof(v.c_str(), &e);
        return e != v.c_str() && !*e && f >= -FLT_MAX && f <= FLT_MAX;
    }
    case TBool: return v == "true" || v == "false" || v == "1" || v == "0";
    case TPat: return glob(v.c_str(), p.pat.c_str());
    default: return true;
    }
}
inline bool uri_value_ok(const Part& p, const std::string& v) { return v.empty() ? p.opt || p.has_def : value_ok(p, v) && v.size() < 256; }
inline J typed(const Part& p, const std::string& v) {
    long long n;
    if (v.empty()) return J::str("");
    switch (p.type) {
    case TInt: int_text(v, n); return J::num((double)n);
    case TFloat: return J::num((double)strtof(v.c_str(), nullptr));
    case TBool: return J::boolean(v == "true" || v == "1");
    default: return J::str(v);
    }
}
inline std::string show(const Tpl& t) {
    std::string s;
    for (auto& p : t) s += p.lit ? p.text : "{" + p.spec + "}";
    return s;
}
// Can the URI be had from the template at all?
inline bool derivable(const Tpl& t, size_t i, const std::string& uri, size_t at, int& fuel) {
    if (--fuel < 0) return true; // undecided: no claim
    if (i == t.size()) return at == uri.size();
    if (t[i].lit) return uri.compare(at, t[i].text.size(), t[i].text) == 0 && derivable(t, i + 1, uri, at + t[i].text.size(), fuel);
    for (size_t e = at; e <= uri.size(); e++)
        if (uri_value_ok(t[i], uri.substr(at, e - at)) && derivable(t, i + 1, uri, e, fuel)) return true;
    return false;
}
// Values when each one ends at the first occurrence of the literal text after it.
inline bool first_fit(const Tpl& t, const std::string& uri, std::vector<std::string>& vals) {
    size_t at = 0;
    vals.clear();
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i].lit) {
            if (uri.compare(at, t[i].text.size(), t[i].text) != 0) return false;
            at += t[i].text.size();
            continue;
        }
        size_t e = uri.size();
        if (i + 1 < t.size() && t[i + 1].lit) {
            e = uri.find(t[i + 1].text, at);
            if (e == std::string::npos) return false;
        }
        vals.push_back(uri.substr(at, e - at));
        if (!uri_value_ok(t[i], vals.back())) return false;
        at = e;
    }
    return at == uri.size();
}
inline std::string gen_lit(pbt::Case& c) {
    static const std::vector<std::string> L = {"/", "://", "-", ".", "/a", "/ab/", "a", "ab", "aba", "?x=", "&y=", "}", "b/b", "_", ".txt", "/items/", " ", "\xc3\xa9", "#"};
    return c.chance(1, 6) ? c.ident(1, 8) : c.pick(L);
}
inline std::string gen_text(pbt::Case& c) { // text of a value
    static const std::vector<std::string> A = {"a", "b", "ab", "/", "-", "0", "1", "x", ".", "%20", "\xc3\xa9", "Z", "abc"};
    std::string s;
    for (size_t i = 0, n = c.small(0, c.chance(1, 25) ? 140 : 8); i < n; i++) s += c.pick(A);
    return s;
}
inline std::string gen_value(pbt::Case& c, const Part& p, bool want_ok) {
    std::string v;
    for (int tries = 0; tries < 30; tries++) {
        switch (want_ok ? p.type : (int)c.draw(5)) {
        case TInt: v = c.chance(1, 6) ? c.pick({std::string("2147483647"), std::string("-2147483648"), std::string("2147483648"), std::string("-2147483649"), std::string("99999999999999999999"), std::string("+7"), std::string("007"), std::string("-")}) : pbt::fmt("%d", (int)c.range(0, 2000000) - 1000000); break;
        case TFloat: v = c.chance(1, 6) ? c.pick({std::string("1e39"), std::string("-1e39"), std::string("1e"), std::string("."), std::string(".5"), std::string("5."), std::string("1e-3"), std::string("1.2.3")}) : pbt::fmt("%g", ((double)c.range(0, 200000) - 100000) / 64); break;
        case TBool: v = c.pick({std::string("true"), std::string("false"), std::string("1"), std::string("0"), std::string("True"), std::string("2"), std::string("tru")}); break;
        case TPat: {
            v.clear();
            for (char ch : p.pat) if (ch == '*') v += gen_text(c); else v += ch;
            if (c.chance(1, 5) && !v.empty()) v.erase(c.draw(v.size()), 1);
            break;
        }
        default: v = gen_text(c);
        }
        if (v.size() > 255) v.resize(255);
        if (!want_ok || (!v.empty() && value_ok(p, v))) return v;
    }
    if (p.type == TInt) return "5";
    if (p.type == TFloat) return "0.5";
    if (p.type == TBool) return "true";
    if (p.type == TPat) { v.clear(); for (char ch : p.pat) v += ch == '*' ? "q" : std::string(1, ch); return v; }
    return "val";
}
inline Part gen_param(pbt::Case& c, size_t idx) {
    Part p;
    p.text = c.chance(1, 30) ? std::string(100, 'n') + pbt::fmt("%zu", idx) : c.ident(1, 6) + pbt::fmt("%zu", idx);
    p.type = (int)c.weighted({4, 3, 2, 2, 3});
    static const char* N[] = {"string", "int", "float", "bool", ""};
    std::string ty;
    if (p.type == TPat) {
        static const std::vector<std::string> P = {"dark*", "*.txt", "a*c", "*ab*", "a*b*c", "abc", "*", "v*", "a-very-long-pattern-indeed-it-is-*", "*x*y", "**b"};
        p.pat = c.pick(P);
        ty = ":pattern:" + p.pat;
    } else if (p.type != TStr || c.chance(1, 4)) ty = std::string(":") + N[p.type];
    p.opt = c.chance(1, 4);
    if (!p.opt || c.chance(1, 4)) p.has_def = c.chance(1, 4);
    if (p.has_def) p.def = gen_value(c, p, !c.chance(1, 10));
    for (auto& ch : p.def) if (ch == '}' || ch == '{') ch = '_';
    bool early = c.flip();
    p.spec = p.text;
    if (p.opt && early) p.spec += "?";
    p.spec += ty;
    if (p.opt && !early) p.spec += p.has_def && ty.empty() ? "" : "?";
    if (p.has_def) p.spec += "=" + p.def;
    if (p.opt && !early && ty.empty() && !p.has_def && p.spec.back() != '?') p.spec += "?";
    if (p.spec.size() > 250) { p.def.resize(p.def.size() > 120 ? 20 : p.def.size()); p.has_def = false, p.opt = false, p.type = TStr, p.spec = p.text; }
    return p;
}
inline Tpl gen_tpl(pbt::Case& c, bool adjacent = false) {
    Tpl t;
    size_t n = c.small(0, 5);
    if (c.chance(4, 5)) { Part l; l.lit = true; l.text = c.chance(1, 2) ? "example://" : gen_lit(c); t.push_back(l); }
    for (size_t i = 0; i < n; i++) {
        if (!t.empty() && !t.back().lit && !(adjacent && c.chance(1, 4))) { Part l; l.lit = true; l.text = gen_lit(c); t.push_back(l); }
        t.push_back(gen_param(c, i));
    }
    if (c.flip() || t.empty()) { Part l; l.lit = true; l.text = gen_lit(c); if (!t.empty() && t.back().lit) t.back().text += l.text; else t.push_back(l); }
    return t;
}
inline std::string gen_uri(pbt::Case& c, const Tpl& t, bool ok) {
    std::string u;
    for (auto& p : t) {
        if (p.lit) u += p.text;
        else if ((p.opt || p.has_def || !ok) && c.chance(1, 4)) ;
        else u += gen_value(c, p, ok || c.chance(2, 3));
    }
    return u;
}
inline std::string mutate(pbt::Case& c, const std::string& s) {
    std::string u = s;
    for (size_t i = 0, n = 1 + c.small(0, 2); i < n; i++) {
        size_t at = c.draw(u.size() + 1);
        switch (c.draw(5)) {
        case 0: if (at < u.size()) u.erase(at, 1 + c.draw(3)); break;
        case 1: u.insert(at, gen_lit(c)); break;
        case 2: if (at < u.size()) u[at] = (char)('a' + c.draw(26)); break;
        case 3: u.resize(at); break;
        default: u += gen_text(c);
        }
    }
    return u;
}
// JSON object of the code under test as a model value
inline J from_node(const mcp_json_t* n) {
    J j = J::obj();
    char** names = nullptr;
    size_t k = 0;
    PBT_CHECK(mcp_json_get_type(n) == MCP_JSON_OBJECT && mcp_json_object_get_property_names(n, &names, &k) == 0, "the parameters are not an object");
    for (size_t i = 0; i < k; i++) {
        mcp_json_t* v = mcp_json_object_get_property(n, names[i]);
        const char* str;
        double d;
        bool b;
        if (mcp_json_get_string(v, &str) == 0) j.o[names[i]] = J::str(str);
        else if (mcp_json_get_number(v, &d) == 0) j.o[names[i]] = J::num(d);
        else if (mcp_json_get_boolean(v, &b) == 0) j.o[names[i]] = J::boolean(b);
        else j.o[names[i]] = J::null();
        free(names[i]);
    }
    free(names);
    return j;
}
