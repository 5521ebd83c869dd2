// TECHNIQUE: property-based round trip and model-based edit sequences, differential against a reference parser
// NOTE: Random values, texts and edit histories under ASan/UBSan; trusts the reference JSON model in harness/jval.hpp.
#include "jval.hpp"
using namespace pbt;

static void check_roundtrip(mcp_json_t* v, const J& model, Case& c, const char* what) {
    std::string why;
    char* text = c.flip() ? mcp_json_stringify(v) : mcp_json_stringify_with_capacity(v, c.draw(600));
    PBT_CHECK(text, "%s: stringify returned NULL", what);
    J back;
    int ok = jparse(text, back);
    PBT_CHECK(ok != 0, "%s: serialised text is not JSON: %s", what, esc(text, 600).c_str());
    PBT_CHECK(back == model, "%s: serialised text denotes another value: %s, expected %s", what, esc(text, 600).c_str(), esc(jdump(model), 600).c_str());
    mcp_json_t* v2 = mcp_json_parse(text);
    PBT_CHECK(v2, "%s: own serialisation is rejected: %s", what, esc(text, 600).c_str());
    PBT_CHECK(jsame(v2, model, why), "%s: parsed back differently: %s; text %s", what, why.c_str(), esc(text, 600).c_str());
    mcp_json_destroy(v2);
    free(text);
}
static void built(Case& c) {
    J m = gen_json(c);
    c.note("build %s", jdump(m).substr(0, 300).c_str());
    c.nontrivial(m.nodes() > 1);
    if (m.nodes() > 20) c.label("built: more than 20 nodes");
    mcp_json_t* v = jbuild(m, &c);
    std::string why;
    PBT_CHECK(jsame(v, m, why), "value built through the API reads back differently: %s", why.c_str());
    check_roundtrip(v, m, c, "built");
    PBT_CHECK(jsame(v, m, why), "serialising changed the value: %s", why.c_str());
    mcp_json_destroy(v);
    mcp_arena_reset_current_thread();
}
static void parsed(Case& c) {
    J m = gen_json(c);
    std::string text;
    unsigned style = (unsigned)c.draw(3);
    render(c, m, text, style);
    // duplicate members are not generated: keys come from a map
    J ref;
    if (jparse(text, ref) != 1 || ref != m) { c.label("renderer rejected"); if (getenv("DBG")) fail("%d %s", jparse(text,ref), esc(text,600).c_str()); return; }
    c.note("parse %s", text.substr(0, 300).c_str());
    c.nontrivial(m.nodes() > 1);
    if (text.find("\\u") != std::string::npos) c.label("parsed: has \\u escapes");
    if (text.size() > 1000) c.label("parsed: longer than 1000 bytes");
    Exact e(text);
    mcp_json_t* v = mcp_json_parse(e);
    PBT_CHECK(v, "valid JSON rejected: %s", esc(text, 800).c_str());
    std::string why;
    PBT_CHECK(jsame(v, m, why), "parsed as another value: %s; text %s", why.c_str(), esc(text, 800).c_str());
    check_roundtrip(v, m, c, "parsed");
    mcp_json_destroy(v);
    mcp_arena_reset_current_thread();
}
// walk to a random container of the value, model and real side by side
static bool walk(Case& c, mcp_json_t*& v, J*& m) {
    for (int i = 0; i < 6; i++) {
        std::vector<std::pair<mcp_json_t*, J*>> kids;
        if (m->t == J::Arr) for (size_t k = 0; k < m->a.size(); k++) { if (m->a[k].t >= J::Arr) kids.push_back({mcp_json_array_get_item(v, (int)k), &m->a[k]}); }
        if (m->t == J::Obj) for (auto& p : m->o) if (p.second.t >= J::Arr) kids.push_back({mcp_json_object_get_property(v, p.first.c_str()), &p.second});
        if (kids.empty() || c.draw(2) == 0) break;
        auto k = c.pick(kids);
        v = k.first;
        m = k.second;
    }
    return m->t >= J::Arr;
}
static void edits(Case& c) {
    struct Root { mcp_json_t* v; J m; };
    std::vector<Root> roots;
    size_t nr = 1 + c.draw(3);
    for (size_t i = 0; i < nr; i++) {
        int budget = 2 + c.size() / 3;
        J m = c.flip() ? J::obj() : J::arr();
        int k = (int)c.small(0, 10);
        for (int q = 0; q < k; q++) {
            J x = gen_json(c, 3, budget, 20);
            if (m.t == J::Arr) m.a.push_back(x); else m.o[gen_key(c)] = x;
        }
        roots.push_back({jbuild(m, &c), m});
    }
    int steps = 1 + (int)c.draw(4 + c.size());
    bool deep = false, repl = false;
    for (int s = 0; s < steps; s++) {
        Root& r = roots[c.draw(roots.size())];
        mcp_json_t* v = r.v;
        J* m = &r.m;
        walk(c, v, m);
        if (m != &r.m) deep = true;
        int budget = 6;
        if (m->t == J::Arr) {
            J x = gen_json(c, 2, budget, 20);
            c.note("append %s", jdump(x).substr(0, 60).c_str());
            PBT_CHECK(mcp_json_array_add_item(v, jbuild(x, &c)) == 0, "array append failed");
            m->a.push_back(x);
        } else {
            std::string key;
            std::vector<std::string> have;
            for (auto& p : m->o) have.push_back(p.first);
            bool existing = !have.empty() && c.flip();
            key = existing ? c.pick(have) : gen_key(c);
            if (c.draw(3) == 0) {
                bool there = m->o.count(key) > 0;
                c.note("delete %s (%d)", esc(key, 30).c_str(), there);
                int rc = mcp_json_object_delete_property(v, key.c_str());
                PBT_CHECK((rc == 0) == there, "delete of %s member returned %d", there ? "a present" : "an absent", rc);
                m->o.erase(key);
            } else {
                if (m->o.count(key)) repl = true;
                J x = gen_json(c, 2, budget, 20);
                c.note("set %s = %s", esc(key, 30).c_str(), jdump(x).substr(0, 60).c_str());
                PBT_CHECK(mcp_json_object_set_property(v, key.c_str(), jbuild(x, &c)) == 0, "set_property failed");
                m->o[key] = x;
            }
        }
        std::string why;
        if (c.draw(3) == 0)
            for (auto& q : roots) PBT_CHECK(jsame(q.v, q.m, why), "after edit %d: %s", s, why.c_str());
    }
    std::string why;
    for (auto& q : roots) {
        PBT_CHECK(jsame(q.v, q.m, why), "after all edits: %s", why.c_str());
        check_roundtrip(q.v, q.m, c, "edited");
    }
    c.nontrivial(steps >= 3);
    if (deep) c.label("edits: nested container edited");
    if (repl) c.label("edits: member replaced");
    for (auto& q : roots) mcp_json_destroy(q.v);
    mcp_arena_reset_current_thread();
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P01";
    o.rule = "the value has more than one node (built, parsed) or the history has at least three edits (edits)";
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    o.tests = {{"built", built, 120000, 1500000}, {"parsed", parsed, 150000, 2000000}, {"edits", edits, 60000, 800000}};
    o.assumptions = {"strings without NUL (the API is NUL-terminated); finite numbers; object keys unique in the text"};
    return run(argc, argv, o);
}
