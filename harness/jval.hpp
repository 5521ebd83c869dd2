// Reference model of JSON: values, a generator, a renderer and a strict parser.
#pragma once
#include "mcp.hpp"

struct J {
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    bool b = false;
    double n = 0;
    std::string s;
    std::vector<J> a;
    std::map<std::string, J> o;
    static J null() { return J(); }
    static J boolean(bool v) { J j; j.t = Bool; j.b = v; return j; }
    static J num(double v) { J j; j.t = Num; j.n = v; return j; }
    static J str(const std::string& v) { J j; j.t = Str; j.s = v; return j; }
    static J arr() { J j; j.t = Arr; return j; }
    static J obj() { J j; j.t = Obj; return j; }
    bool operator==(const J& r) const {
        if (t != r.t) return false;
        switch (t) {
        case Null: return true;
        case Bool: return b == r.b;
        case Num: return n == r.n;
        case Str: return s == r.s;
        case Arr: return a == r.a;
        default: return o == r.o;
        }
    }
    bool operator!=(const J& r) const { return !(*this == r); }
    const J* get(const std::string& k) const {
        if (t != Obj) return nullptr;
        auto i = o.find(k);
        return i == o.end() ? nullptr : &i->second;
    }
    size_t nodes() const {
        size_t c = 1;
        for (auto& x : a) c += x.nodes();
        for (auto& x : o) c += x.second.nodes();
        return c;
    }
};

inline void jquote(const std::string& s, std::string& out) {
    out += '"';
    for (unsigned char c : s) {
        if (c == '"') out += "\\\"";
        else if (c == '\\') out += "\\\\";
        else if (c < 32) out += pbt::fmt("\\u%04x", c);
        else out += (char)c;
    }
    out += '"';
}
// canonical rendering
inline void jdump(const J& j, std::string& out) {
    switch (j.t) {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Num: out += pbt::fmt("%.17g", j.n); break;
    case J::Str: jquote(j.s, out); break;
    case J::Arr: {
        out += '[';
        for (size_t i = 0; i < j.a.size(); i++) { if (i) out += ','; jdump(j.a[i], out); }
        out += ']';
        break;
    }
    default: {
        out += '{';
        bool f = true;
        for (auto& p : j.o) { if (!f) out += ','; f = false; jquote(p.first, out); out += ':'; jdump(p.second, out); }
        out += '}';
    }
    }
}
inline std::string jdump(const J& j) { std::string s; jdump(j, s); return s; }

// Strict RFC 8259 parser. Result: 1 valid, 0 invalid, -1 valid or invalid
// depending on a reading the specification leaves open (NUL and lone surrogate
// escapes, invalid UTF-8, raw white-space controls in strings, numbers out of range).
struct JParser {
    const std::string& in;
    size_t p = 0;
    bool open = false;
    int maxdepth = 0;
    explicit JParser(const std::string& s) : in(s) {}
    char at(size_t i) const { return i < in.size() ? in[i] : 0; }
    void ws() { while (p < in.size() && (in[p] == ' ' || in[p] == '\t' || in[p] == '\n' || in[p] == '\r')) p++; }
    static void utf8(std::string& s, uint32_t cp) {
        if (cp < 0x80) s += (char)cp;
        else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
        else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
        else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    }
    bool hex4(uint32_t& v) {
        v = 0;
        for (int i = 0; i < 4; i++) {
            char c = at(p + i);
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) return false;
            v = v * 16 + (uint32_t)d;
        }
        p += 4;
        return true;
    }
    bool string(std::string& out) {
        if (at(p) != '"') return false;
        p++;
        while (p < in.size() && in[p] != '"') {
            unsigned char c = in[p];
            if (c == '\\') {
                p++;
                switch (at(p)) {
                case '"': out += '"'; p++; break;
                case '\\': out += '\\'; p++; break;
                case '/': out += '/'; p++; break;
                case 'b': out += '\b'; p++; break;
                case 'f': out += '\f'; p++; break;
                case 'n': out += '\n'; p++; break;
                case 'r': out += '\r'; p++; break;
                case 't': out += '\t'; p++; break;
                case 'u': {
                    p++;
                    uint32_t v, w;
                    if (!hex4(v)) return false;
                    if (v == 0) open = true;
                    if (v >= 0xD800 && v < 0xDC00 && at(p) == '\\' && at(p + 1) == 'u') {
                        size_t save = p;
                        p += 2;
                        if (!hex4(w)) return false;
                        if (w >= 0xDC00 && w < 0xE000) v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                        else { p = save; open = true; }
                    } else if (v >= 0xD800 && v < 0xE000) open = true;
                    utf8(out, v);
                    break;
                }
                default: return false;
                }
                continue;
            }
            if (c < 32) {
                if (c == '\t' || c == '\n' || c == '\r' || c == '\b' || c == '\f') open = true;
                else return false;
            }
            if (c >= 0x80) {
                int n = c >= 0xF0 && c < 0xF5 ? 3 : c >= 0xE0 && c < 0xF0 ? 2 : c >= 0xC2 && c < 0xE0 ? 1 : -1;
                if (n < 0) open = true;
                else {
                    bool good = true;
                    for (int i = 1; i <= n; i++) if (((unsigned char)at(p + i) & 0xC0) != 0x80) good = false;
                    if (good) { out.append(in, p, n + 1); p += n + 1; continue; }
                    open = true;
                }
            }
            out += (char)c;
            p++;
        }
        if (p >= in.size()) return false;
        p++;
        return true;
    }
    bool number(double& v) {
        size_t st = p;
        auto dig = [&] { return at(p) >= '0' && at(p) <= '9'; };
        if (at(p) == '-') p++;
        if (!dig()) return false;
        if (at(p) == '0') { p++; if (dig()) return false; }
        else while (dig()) p++;
        if (at(p) == '.') { p++; if (!dig()) return false; while (dig()) p++; }
        if (at(p) == 'e' || at(p) == 'E') {
            p++;
            if (at(p) == '+' || at(p) == '-') p++;
            if (!dig()) return false;
            while (dig()) p++;
        }
        v = strtod(in.substr(st, p - st).c_str(), nullptr);
        if (std::isinf(v)) open = true;
        return true;
    }
    bool value(J& out, int depth) {
        ws();
        if (depth > maxdepth) maxdepth = depth;
        if (p >= in.size()) return false;
        switch (in[p]) {
        case '{': {
            out.t = J::Obj;
            p++;
            ws();
            if (at(p) == '}') { p++; return true; }
            for (;;) {
                ws();
                std::string k;
                if (!string(k)) return false;
                ws();
                if (at(p) != ':') return false;
                p++;
                J v;
                if (!value(v, depth + 1)) return false;
                out.o[k] = v;
                ws();
                if (at(p) == '}') { p++; return true; }
                if (at(p) != ',') return false;
                p++;
            }
        }
        case '[': {
            out.t = J::Arr;
            p++;
            ws();
            if (at(p) == ']') { p++; return true; }
            for (;;) {
                J v;
                if (!value(v, depth + 1)) return false;
                out.a.push_back(v);
                ws();
                if (at(p) == ']') { p++; return true; }
                if (at(p) != ',') return false;
                p++;
            }
        }
        case '"': out.t = J::Str; return string(out.s);
        case 'n': if (in.compare(p, 4, "null") == 0) { p += 4; out.t = J::Null; return true; } return false;
        case 't': if (in.compare(p, 4, "true") == 0) { p += 4; out.t = J::Bool; out.b = true; return true; } return false;
        case 'f': if (in.compare(p, 5, "false") == 0) { p += 5; out.t = J::Bool; out.b = false; return true; } return false;
        default: out.t = J::Num; return number(out.n);
        }
    }
};
inline int jparse(const std::string& text, J& out, int* depth = nullptr) {
    JParser q(text);
    out = J();
    bool ok = q.value(out, 0);
    if (ok) { q.ws(); ok = q.p == text.size(); }
    if (depth) *depth = q.maxdepth;
    if (!ok) return q.open ? -1 : 0;
    return q.open ? -1 : 1;
}

// ---- generator
inline double gen_num(pbt::Case& c) {
    switch (c.draw(8)) {
    case 0: return (double)c.small(0, 1000);
    case 1: return -(double)c.small(0, 1000000);
    case 2: return (double)c.range(-(1ll << 53), 1ll << 53);
    case 3: return (double)c.range(-100000, 100000) / 1000.0;
    case 4: { uint64_t b = c.draw(~0ull); double d; memcpy(&d, &b, 8); return std::isfinite(d) ? d : 0.5; }
    case 5: return c.pick({0.1, -0.0, 1e300, 5e-324, 1.7976931348623157e308, 2147483648.0, 4294967295.0, 9007199254740993.0, 1e21, 123456789012345680.0});
    case 6: return (double)c.draw(1ull << 32);
    default: return ldexp((double)c.range(-1000000, 1000000), (int)c.range(-60, 60));
    }
}
inline std::string gen_key(pbt::Case& c) {
    switch (c.draw(4)) {
    case 0: return std::string(1, (char)('a' + c.draw(5)));
    case 1: return c.ident(1, 12);
    case 2: return c.text(20);
    default: return c.pick({std::string(""), std::string("id"), std::string("method"), std::string("k1"), std::string("k2"), std::string("k10")});
    }
}
inline J gen_json(pbt::Case& c, int depth, int& budget, size_t maxstr = 60) {
    budget--;
    unsigned k = (unsigned)c.draw(depth > 0 && budget > 0 ? 8 : 5);
    switch (k) {
    case 0: return J::null();
    case 1: return J::boolean(c.flip());
    case 2: return J::num(gen_num(c));
    case 3: case 4: return J::str(c.text(maxstr));
    case 5: {
        J j = J::arr();
        int n = (int)c.small(0, 12);
        for (int i = 0; i < n && budget > 0; i++) j.a.push_back(gen_json(c, depth - 1, budget, maxstr));
        return j;
    }
    default: {
        J j = J::obj();
        int n = (int)c.small(0, c.chance(1, 6) ? 60 : 10);
        for (int i = 0; i < n && budget > 0; i++) { std::string key = gen_key(c); j.o[key] = gen_json(c, depth - 1, budget, maxstr); }
        return j;
    }
    }
}
inline J gen_json(pbt::Case& c) {
    int budget = 3 + c.size() * 2;
    size_t maxstr = c.chance(1, 20) ? 3000 : 60;
    int depth = 1 + c.size() / 12;
    if (c.draw(8) == 0) return gen_json(c, depth, budget, maxstr);
    J j = c.flip() ? J::obj() : J::arr();
    int n = (int)c.range(1, c.chance(1, 8) ? 70 : 8);
    for (int i = 0; i < n && budget > 0; i++) {
        J x = gen_json(c, depth, budget, maxstr);
        if (j.t == J::Arr) j.a.push_back(x); else j.o[gen_key(c)] = x;
    }
    return j;
}
// free-style rendering of a value: white space, escapes, number notations, member order
inline void render(pbt::Case& c, const J& j, std::string& out, unsigned style);
inline void rws(pbt::Case& c, std::string& out, unsigned style) {
    if (style == 0) return;
    int n = (int)c.small(0, 3);
    for (int i = 0; i < n; i++) out += " \t\n\r"[c.draw(4)];
}
inline void render_str(pbt::Case& c, const std::string& s, std::string& out, unsigned style) {
    out += '"';
    for (size_t i = 0; i < s.size();) {
        unsigned char ch = s[i];
        bool must = ch == '"' || ch == '\\' || ch < 32;
        if (!must && (style == 0 || c.draw(6))) { out += (char)ch; i++; continue; }
        // escaped
        if (ch < 0x80) {
            const char* sh = ch == '"' ? "\\\"" : ch == '\\' ? "\\\\" : ch == '/' ? "\\/" : ch == '\b' ? "\\b" : ch == '\f' ? "\\f" : ch == '\n' ? "\\n" : ch == '\r' ? "\\r" : ch == '\t' ? "\\t" : nullptr;
            if (sh && (style == 0 || c.flip())) out += sh;
            else out += pbt::fmt(c.flip() ? "\\u%04x" : "\\u%04X", ch);
            i++;
            continue;
        }
        if (ch < 0xC0) { out += (char)ch; i++; continue; } // stray byte (cannot happen in valid UTF-8)
        int n = ch >= 0xF0 ? 3 : ch >= 0xE0 ? 2 : 1;
        uint32_t cp = n == 3 ? ch & 7 : n == 2 ? ch & 15 : ch & 31;
        for (int k = 1; k <= n; k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
        if (cp >= 0x10000) {
            uint32_t v = cp - 0x10000;
            out += pbt::fmt("\\u%04x\\u%04X", 0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF));
        } else out += pbt::fmt(c.flip() ? "\\u%04x" : "\\u%04X", cp);
        i += (size_t)n + 1;
    }
    out += '"';
}
inline std::string render_num(pbt::Case& c, double v, unsigned style) {
    if (style == 0) return pbt::fmt("%.17g", v);
    std::string s;
    switch (c.draw(4)) {
    case 0: s = pbt::fmt("%.17g", v); break;
    case 1: s = pbt::fmt("%.20e", v); break;
    case 2: s = pbt::fmt("%.17E", v); break;
    default: s = fabs(v) < 1e15 && fabs(v) > 1e-3 ? pbt::fmt("%.25f", v) : pbt::fmt("%.17g", v);
    }
    if (v == floor(v) && fabs(v) < 1e15 && c.flip()) s = pbt::fmt("%s%.0f%s", "", v, c.flip() ? ".000" : c.flip() ? "e0" : "");
    if (strtod(s.c_str(), nullptr) != v) s = pbt::fmt("%.17g", v);
    return s;
}
inline void render(pbt::Case& c, const J& j, std::string& out, unsigned style) {
    rws(c, out, style);
    switch (j.t) {
    case J::Null: out += "null"; break;
    case J::Bool: out += j.b ? "true" : "false"; break;
    case J::Num: out += render_num(c, j.n, style); break;
    case J::Str: render_str(c, j.s, out, style); break;
    case J::Arr:
        out += '[';
        for (size_t i = 0; i < j.a.size(); i++) { if (i) out += ','; render(c, j.a[i], out, style); }
        if (j.a.empty()) rws(c, out, style);
        out += ']';
        break;
    default: {
        std::vector<const std::pair<const std::string, J>*> m;
        for (auto& p : j.o) m.push_back(&p);
        if (style) for (size_t i = m.size(); i > 1; i--) std::swap(m[i - 1], m[c.draw(i)]);
        out += '{';
        for (size_t i = 0; i < m.size(); i++) {
            if (i) out += ',';
            rws(c, out, style);
            render_str(c, m[i]->first, out, style);
            rws(c, out, style);
            out += ':';
            render(c, m[i]->second, out, style);
        }
        if (m.empty()) rws(c, out, style);
        out += '}';
    }
    }
    rws(c, out, style);
}

// ---- bridges to the code under test
inline mcp_json_t* jbuild(const J& j, pbt::Case* c = nullptr) {
    switch (j.t) {
    case J::Null: return mcp_json_null_create();
    case J::Bool: return mcp_json_boolean_create(j.b);
    case J::Num: return mcp_json_number_create(j.n);
    case J::Str: return mcp_json_string_create(j.s.c_str());
    case J::Arr: {
        mcp_json_t* r = c && c->flip() ? mcp_json_array_create_with_capacity(c->draw(9)) : mcp_json_array_create();
        for (auto& x : j.a) PBT_CHECK(mcp_json_array_add_item(r, jbuild(x, c)) == 0, "array_add_item failed");
        return r;
    }
    default: {
        mcp_json_t* r = c && c->flip() ? mcp_json_object_create_with_capacity(c->draw(40)) : mcp_json_object_create();
        for (auto& x : j.o) PBT_CHECK(mcp_json_object_set_property(r, x.first.c_str(), jbuild(x.second, c)) == 0, "set_property failed");
        return r;
    }
    }
}
inline bool jsame(const mcp_json_t* m, const J& j, std::string& why, const std::string& path = "$") {
    static const mcp_json_type_t ty[] = {MCP_JSON_NULL, MCP_JSON_BOOLEAN, MCP_JSON_NUMBER, MCP_JSON_STRING, MCP_JSON_ARRAY, MCP_JSON_OBJECT};
    if (!m) { why = path + ": NULL pointer"; return false; }
    if (mcp_json_get_type(m) != ty[j.t]) { why = path + pbt::fmt(": type %d, expected %d", (int)mcp_json_get_type(m), (int)ty[j.t]); return false; }
    bool b;
    double d;
    const char* s;
    // accessors of another type must refuse
    if ((mcp_json_get_boolean(m, &b) == 0) != (j.t == J::Bool) || (mcp_json_get_number(m, &d) == 0) != (j.t == J::Num) ||
        (mcp_json_get_string(m, &s) == 0) != (j.t == J::Str) || (mcp_json_array_get_size(m) >= 0) != (j.t == J::Arr)) {
        why = path + ": an accessor disagrees with the type";
        return false;
    }
    switch (j.t) {
    case J::Null: return true;
    case J::Bool: if (b != j.b) { why = path + ": boolean differs"; return false; } return true;
    case J::Num: if (d != j.n) { why = path + pbt::fmt(": number %.17g, expected %.17g", d, j.n); return false; } return true;
    case J::Str: if (j.s != s) { why = path + ": string " + pbt::esc(s) + ", expected " + pbt::esc(j.s); return false; } return true;
    case J::Arr: {
        if ((size_t)mcp_json_array_get_size(m) != j.a.size()) { why = path + pbt::fmt(": %d items, expected %zu", mcp_json_array_get_size(m), j.a.size()); return false; }
        for (size_t i = 0; i < j.a.size(); i++) if (!jsame(mcp_json_array_get_item(m, (int)i), j.a[i], why, path + pbt::fmt("[%zu]", i))) return false;
        if (mcp_json_array_get_item(m, (int)j.a.size()) || mcp_json_array_get_item(m, -1)) { why = path + ": item beyond the end"; return false; }
        return true;
    }
    default: {
        char** names = nullptr;
        size_t n = 0;
        if (mcp_json_object_get_property_names(m, &names, &n) != 0) { why = path + ": property names failed"; return false; }
        std::multiset<std::string> got, want;
        for (size_t i = 0; i < n; i++) { got.insert(names[i]); free(names[i]); }
        free(names);
        for (auto& p : j.o) want.insert(p.first);
        if (got != want) { why = path + pbt::fmt(": member names differ (%zu vs %zu)", got.size(), want.size()); return false; }
        for (auto& p : j.o) {
            if (!mcp_json_object_has_property(m, p.first.c_str())) { why = path + ": has_property false for " + pbt::esc(p.first); return false; }
            if (!jsame(mcp_json_object_get_property(m, p.first.c_str()), p.second, why, path + "." + p.first)) return false;
        }
        return true;
    }
    }
}
// a copy in an exactly sized heap block, so that ASan sees any over-read
struct Exact {
    char* p;
    explicit Exact(const std::string& s) : p((char*)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
    ~Exact() { free(p); }
    operator const char*() const { return p; }
};
