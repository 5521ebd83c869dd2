// TECHNIQUE: model-based random message sequences (requests, notifications, responses, batches, mutated and arbitrary bytes) against a JSON-RPC reference classifier
// NOTE: No API key, rate limiting off, messages within the size limit. Invalid elements of a batch may be answered or skipped.
// SHIM: srv_shim.c
#include "srv_model.hpp"

static void deliver(Case& c, Srv& s, const Cfg& f, const std::string& text, bool& interesting) {
    std::string out;
    bool has = s.ask(text, out);
    judge(c, f, text, has, out, interesting);
}

static void setup(Case& c, Srv& s, Cfg& f) {
    f.res = !c.chance(1, 8);
    f.tools = !c.chance(1, 8);
    f.rh = !c.chance(1, 10);
    f.th = !c.chance(1, 10);
    s.open(c.chance(1, 4) ? "" : nullptr, f.res, f.tools, f.rh, f.th);
    if (f.tools && c.flip()) {
        mcp_tool_t* t = mcp_tool_create("echo", "echoes");
        mcp_tool_add_param(t, "token", "string", "d", true);
        PBT_CHECK(mcp_server_add_tool(s.s, t) == 0, "add tool");
        mcp_tool_free(t);
    }
    if (f.res && c.flip()) {
        mcp_resource_t* r = mcp_resource_create("a", "n", "text/plain", "d");
        PBT_CHECK(mcp_server_add_resource(s.s, r) == 0, "add resource");
        mcp_resource_free(r);
    }
}
static void probe(Case& c, Srv& s, const Cfg& f) {
    bool dummy = false;
    J m = J::obj();
    m.o["id"] = J::num(77);
    m.o["method"] = J::str("ping");
    deliver(c, s, f, jdump(m), dummy);
}

static void messages(Case& c) {
    Srv s;
    Cfg f;
    setup(c, s, f);
    bool inter = false;
    int n = (int)c.range(1, 1 + c.size() / 8);
    for (int i = 0; i < n; i++) {
        std::string text;
        if (c.chance(1, 4)) {
            J b = J::arr();
            int k = (int)c.small(0, c.chance(1, 20) ? 60 : 8);
            for (int j = 0; j < k; j++) b.a.push_back(gen_message(c));
            render(c, b, text, c.flip());
            c.label("batch");
        } else render(c, gen_message(c), text, c.flip());
        if (c.chance(1, 8)) text = (c.flip() ? " \n" : "\t") + text;
        if (c.chance(1, 8)) text += c.flip() ? "\n" : " ";
        if (c.chance(1, 4)) text += '\0';
        deliver(c, s, f, text, inter);
    }
    probe(c, s, f);
    c.nontrivial(inter);
}

static void bytes(Case& c) {
    Srv s;
    Cfg f;
    setup(c, s, f);
    bool inter = false;
    int n = (int)c.range(1, 1 + c.size() / 8);
    for (int i = 0; i < n; i++) {
        std::string text;
        if (c.chance(1, 5)) text = c.bytes(c.chance(1, 10) ? 3000 : 60);
        else {
            J b = gen_message(c);
            if (c.chance(1, 3)) { J a = J::arr(); int k = (int)c.small(1, 5); for (int j = 0; j < k; j++) a.a.push_back(gen_message(c)); b = a; }
            render(c, b, text, c.flip());
            int k = (int)c.small(1, 4);
            for (int j = 0; j < k && !text.empty(); j++) {
                size_t p = c.draw(text.size());
                switch (c.draw(6)) {
                case 0: text.erase(p, 1 + c.draw(3)); break;
                case 1: text[p] = (char)c.draw(256); break;
                case 2: text.insert(p, 1, "{}[]\",:\\0-e"[c.draw(11)]); break;
                case 3: text.resize(p); break;
                case 4: { size_t q = c.draw(text.size()); text.insert(p, text.substr(q, c.draw(20))); break; }
                default: text[p] ^= (char)(1 << c.draw(8)); break;
                }
            }
            if (c.chance(1, 30)) { int d = (int)c.draw(400); text = std::string(d, '[') + text + std::string(d, ']'); }
        }
        if (text.empty()) text = " ";
        deliver(c, s, f, text, inter);
        if (c.chance(1, 3)) probe(c, s, f);
    }
    probe(c, s, f);
    c.nontrivial();
}

// Several transport threads deliver at once; each must get its own answers.
static void parallel(Case& c) {
    Srv s;
    Cfg f;
    setup(c, s, f);
    size_t nt = 2 + c.draw(5);
    std::vector<std::vector<std::string>> plan(nt);
    std::vector<std::vector<std::pair<bool, std::string>>> got(nt);
    for (auto& p : plan) {
        int n = (int)c.range(2, 4 + c.size() / 6);
        for (int i = 0; i < n; i++) {
            J m = gen_message(c);
            if (c.chance(1, 5)) { J a = J::arr(); int k = (int)c.small(1, 4); for (int j = 0; j < k; j++) a.a.push_back(gen_message(c)); m = a; }
            std::string t;
            render(c, m, t, 0);
            p.push_back(t);
        }
    }
    std::atomic<bool> go{false};
    std::vector<std::thread> ts;
    for (size_t t = 0; t < nt; t++)
        ts.emplace_back([&, t] {
            while (!go) std::this_thread::yield();
            for (auto& m : plan[t]) {
                std::string out;
                bool has = s.ask(m, out);
                got[t].push_back({has, out});
            }
            mcp_arena_destroy_current_thread();
        });
    go = true;
    for (auto& t : ts) t.join();
    bool inter = false;
    for (size_t t = 0; t < nt; t++)
        for (size_t i = 0; i < plan[t].size(); i++) judge(c, f, plan[t][i], got[t][i].first, got[t][i].second, inter);
    c.nontrivial(inter);
}

int main(int argc, char** argv) {
    Options o;
    o.property = "P04";
    o.level = "bounded";
    o.rule = "messages, parallel: at least one well-formed request was delivered; bytes: always (each case delivers damaged or arbitrary bytes and then a ping)";
    o.tests = {{"messages", messages, 30000, 300000}, {"bytes", bytes, 20000, 200000}, {"parallel", parallel, 1500, 15000, 30, 100, 40}};
    o.assumptions = {"no API key is configured and rate limiting is off (P05, P09 and P10 cover those)", "ids are integers from 0 to 2^53, the range the implementation documents by its types",
                     "an invalid element inside a batch may be answered with an error entry or left out", "text after an embedded NUL byte is not modelled"};
    o.worker_init = [] { quiet_logs(); mcp_arena_init_current_thread(1 << 16); };
    return run(argc, argv, o);
}
