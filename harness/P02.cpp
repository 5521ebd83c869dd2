// TECHNIQUE: fuzzing by grammar mutation, differential against a strict reference parser
// NOTE: Random malformed and valid texts under ASan/UBSan; trusts the reference parser in harness/jval.hpp.
#include "jval.hpp"
using namespace pbt;

// Runs the parser on `text` and holds it to the reference parser's verdict.
static void judge(Case& c, const std::string& text) {
    // the API takes NUL-terminated text: only the part before a NUL is seen
    std::string t = text.substr(0, text.find('\0'));
    J ref;
    int depth = 0;
    int want = jparse(t, ref, &depth);
    c.note("text %s", esc(t, 400).c_str());
    Exact e(t);
    mcp_json_t* v = mcp_json_parse(e);
    if (want == 0) {
        c.label("invalid");
        PBT_CHECK(!v, "text that is not JSON was accepted: %s", esc(t, 800).c_str());
    } else if (want == 1) {
        c.label("valid");
        if (depth <= 100) PBT_CHECK(v, "valid JSON rejected: %s", esc(t, 800).c_str());
        std::string why;
        if (v) PBT_CHECK(jsame(v, ref, why), "parsed as another value: %s; text %s", why.c_str(), esc(t, 800).c_str());
    } else
        c.label("left open by the specification");
    if (v) mcp_json_destroy(v);
    mcp_arena_reset_current_thread();
}
static const char* TOK[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\"a\"", "\"b\"", "1", "0", "-", "-1", "1.", ".5", "1.5", "1e", "1e5", "1E+2", "e", "+", "01", "00",
                            "null", "true", "false", "nul", "nulll", "True", "tru", "fals", "NaN", "Infinity", " ", "\n", "\t", "\"\\u12", "\"\\u12G4\"", "\"\\x\"", "\"\\u0041\"",
                            "\"\x01\"", "'a'", "/*", "//", ";", "\"\\\"", "\"\"", "[]", "{}", "\v", "\xa0", "\xff", "\"k\":", ",,", "0x1", "1 2", "--1", "-0", "1.e1", "\x7f"};
static const size_t NTOK = sizeof TOK / sizeof *TOK;

static void mutated(Case& c) {
    int budget = 2 + c.size() / 2;
    J m = J::arr();
    if (c.flip()) m = J::obj();
    int n = (int)c.range(1, 4);
    for (int i = 0; i < n; i++) { J x = gen_json(c, 2, budget, 12); if (m.t == J::Arr) m.a.push_back(x); else m.o[gen_key(c)] = x; }
    if (c.draw(6) == 0) m = gen_json(c, 0, budget, 12);
    std::string t;
    render(c, m, t, (unsigned)c.draw(2));
    int k = 1 + (int)c.draw(3);
    for (int i = 0; i < k; i++) {
        size_t p = c.draw(t.size() + 1);
        switch (c.draw(7)) {
        case 0: t = t.substr(0, p); c.label("mutation: truncated"); break;
        case 1: if (p < t.size()) t.erase(p, 1 + c.draw(3)); break;
        case 2: t.insert(p, TOK[c.draw(NTOK)]); break;
        case 3: if (p < t.size()) t[p] = (char)(1 + c.draw(255)); break;
        case 4: t += TOK[c.draw(NTOK)]; c.label("mutation: appended"); break;
        case 5: { // structural characters only
            std::vector<size_t> at;
            for (size_t q = 0; q < t.size(); q++) if (strchr("{}[]:,\"\\", t[q])) at.push_back(q);
            if (at.empty()) break;
            size_t q = c.pick(at);
            if (c.flip()) t.erase(q, 1); else t[q] = "{}[]:,\"\\"[c.draw(8)];
            c.label("mutation: structural");
            break;
        }
        default: if (t.size() > 1) { size_t q = c.draw(t.size()), r = c.draw(t.size()); std::swap(t[q], t[r]); }
        }
    }
    c.nontrivial(t.size() >= 3);
    judge(c, t);
}
static void tokens(Case& c) {
    std::string t;
    int n = (int)c.range(1, 2 + c.size() / 5);
    for (int i = 0; i < n; i++) t += TOK[c.draw(NTOK)];
    c.nontrivial(n >= 2);
    judge(c, t);
}
static void numbers(Case& c) {
    std::string t;
    int n = (int)c.range(1, 9);
    for (int i = 0; i < n; i++) t += "0123456789-+.eE"[c.draw(15)];
    bool wrap = c.flip();
    if (wrap) t = "[" + t + "]";
    c.nontrivial(n >= 2);
    judge(c, t);
}
static void strings(Case& c) {
    std::string t = "\"";
    int n = (int)c.range(0, 8);
    for (int i = 0; i < n; i++) {
        switch (c.draw(6)) {
        case 0: t += (char)('a' + c.draw(26)); break;
        case 1: t += '\\'; t += (char)(32 + c.draw(95)); break;
        case 2: t += "\\u"; for (unsigned k = (unsigned)c.range(2, 5); k; k--) t += "0123456789abcdefABCDEFgG\""[c.draw(25)]; break;
        case 3: t += (char)(1 + c.draw(31)); break;
        case 4: t += "\\ud83d"; break;
        default: t += "\\ude00"; break;
        }
    }
    if (c.draw(5)) t += '"';
    c.nontrivial(n >= 1);
    judge(c, t);
}
static void bytes_(Case& c) {
    std::string t = c.bytes(20 + c.size() * 3);
    c.nontrivial(t.size() >= 2);
    judge(c, t);
}
static void depth(Case& c) {
    // 101 containers: the outermost one and one hundred levels below it
    size_t n = c.draw(3) == 0 ? (size_t)c.small(1, 60000) : (size_t)c.range(90, 112);
    std::string open, close;
    unsigned mode = (unsigned)c.draw(3);
    for (size_t i = 0; i < n; i++) {
        bool obj = mode == 0 ? false : mode == 1 ? true : c.flip();
        open += obj ? "{\"k\":" : "[";
        close += obj ? "}" : "]";
    }
    std::reverse(close.begin(), close.end());
    bool broken = n > 101 && c.draw(3) == 0;
    std::string t = open + c.pick({std::string("1"), std::string("\"x\""), std::string("null")}) + (broken ? "" : close);
    c.note("%zu nested containers, kind %u%s", n, mode, broken ? ", unterminated" : "");
    c.nontrivial(n > 80);
    c.label(n > 101 ? "too deep" : "within the depth limit");
    Exact e(t);
    mcp_json_t* v = mcp_json_parse(e);
    if (n > 101) PBT_CHECK(!v, "document with %zu nested containers accepted", n);
    else PBT_CHECK(v, "document with %zu nested containers rejected", n);
    if (v) mcp_json_destroy(v);
    mcp_arena_reset_current_thread();
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P02";
    o.rule = "the text has at least two tokens or characters (deeper than 80 levels for the depth test)";
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    o.tests = {{"mutated", mutated, 700000, 6000000}, {"tokens", tokens, 500000, 4000000}, {"numbers", numbers, 200000, 2000000},
               {"strings", strings, 400000, 3000000}, {"bytes", bytes_, 200000, 2000000}, {"depth", depth, 6000, 60000}};
    o.assumptions = {"left open (either verdict accepted): NUL and lone-surrogate escapes, bytes that are not UTF-8, raw tab, newline, return, backspace and form feed inside strings, numbers beyond the range of double"};
    return run(argc, argv, o);
}
