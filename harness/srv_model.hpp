// JSON-RPC reference model of the server of srv.hpp: what each incoming message must be answered with.
#pragma once
#include "srv.hpp"
using namespace pbt;

struct Expect { // one expected response
    bool invalid = false; // not a message: an error answer (or, inside a batch, none)
    bool open = false;    // one answer, outcome not specified
    double id = 0;
    bool error = false;
    int code = 0;
    bool any_code = false;
    J content; // expected result fragment
    int kind = 0;
};
struct Cfg { bool res, tools, rh, th; };

static bool is_id(const J* j) { return j && j->t == J::Num && j->n >= 0 && j->n <= 9007199254740992.0 && std::floor(j->n) == j->n; }

// 0: no response expected, 1: response expected, 2: not a valid message
static int classify(const J& m, const Cfg& f, Expect& e) {
    e = Expect();
    e.invalid = true;
    if (m.t != J::Obj) return 2;
    const J *id = m.get("id"), *me = m.get("method"), *pa = m.get("params"), *re = m.get("result"), *er = m.get("error");
    if (me && me->t == J::Str) {
        if (pa && pa->t != J::Obj && pa->t != J::Arr) return 2;
        if (!id) return 0;
        if (!is_id(id)) return 2;
        if (me->s.find('\0') != std::string::npos) return 2;
        e.invalid = false;
        e.id = id->n;
        const std::string& n = me->s;
        auto str = [&](const char* k) -> const std::string* {
            const J* v = pa ? pa->get(k) : nullptr;
            return v && v->t == J::Str ? &v->s : nullptr;
        };
        auto fail = [&](int c) { e.error = true; e.code = c; return 1; };
        if (n == "ping") { e.kind = 1; return 1; }
        if (n == "list_resources" || n == "list_resource_templates") {
            if (!f.res) return fail(-32601);
            e.kind = n == "list_resources" ? 2 : 3;
            return 1;
        }
        if (n == "list_tools") { if (!f.tools) return fail(-32601); e.kind = 4; return 1; }
        if (n == "get_performance_metrics" || n == "reset_performance_metrics") { e.kind = 5; return 1; }
        if (n == "read_resource") {
            if (!f.res) return fail(-32601);
            auto* u = str("uri");
            if (!u) return fail(-32602);
            if (!f.rh) { e.error = true; e.any_code = true; return 1; }
            if (u->rfind("err:", 0) == 0) return fail(err_of(*u));
            if (u->rfind("none:", 0) == 0) return fail(MCP_ERROR_RESOURCE_NOT_FOUND);
            e.kind = 6;
            e.content = J::str(*u);
            return 1;
        }
        if (n == "call_tool") {
            if (!f.tools) return fail(-32601);
            auto* u = str("name");
            if (!u) return fail(-32602);
            if (!f.th) { e.error = true; e.any_code = true; return 1; }
            if (u->rfind("err:", 0) == 0) return fail(err_of(*u));
            if (u->rfind("none:", 0) == 0) return fail(MCP_ERROR_TOOL_NOT_FOUND);
            e.kind = 7;
            const J* a = pa->get("arguments");
            const J* tk = a ? a->get("token") : nullptr;
            e.content = J::arr();
            e.content.a.push_back(J::str(*u));
            e.content.a.push_back(J::str(tk && tk->t == J::Str ? tk->s : ""));
            return 1;
        }
        return fail(-32601);
    }
    if (is_id(id) && (re || er)) {
        if (er && er->t == J::Obj && re) return 2;
        if (er && er->t == J::Obj) {
            const J *c = er->get("code"), *ms = er->get("message");
            if (!c || !ms || c->t != J::Num || ms->t != J::Str || std::floor(c->n) != c->n || std::fabs(c->n) > 2147483647.0) return 2;
            return 0;
        }
        return re ? 0 : 2;
    }
    return 2;
}

static bool invalid_code(double c) { return c == -32700 || c == -32600 || c == -32602; }

static void check_one(const J& r, const Expect& e, const std::string& all) {
    std::string show = esc(all, 400);
    PBT_CHECK(r.t == J::Obj, "response is not an object: %s", show.c_str());
    const J *v = r.get("jsonrpc"), *id = r.get("id"), *re = r.get("result"), *er = r.get("error");
    PBT_CHECK(v && v->t == J::Str && v->s == "2.0", "response without jsonrpc 2.0: %s", show.c_str());
    PBT_CHECK((re != nullptr) != (er != nullptr), "response needs exactly one of result and error: %s", show.c_str());
    PBT_CHECK(id, "response without id: %s", show.c_str());
    if (er) {
        const J *c = er->get("code"), *m = er->get("message");
        PBT_CHECK(c && c->t == J::Num && m && m->t == J::Str, "malformed error object: %s", show.c_str());
    }
    if (e.open) return;
    if (e.invalid) {
        PBT_CHECK(er && invalid_code(er->get("code")->n), "an invalid message was not answered with an error: %s", show.c_str());
        return;
    }
    PBT_CHECK(id->t == J::Num && id->n == e.id, "response carries another id than the request's %.17g: %s", e.id, show.c_str());
    if (e.error) {
        PBT_CHECK(er, "request %.17g should fail with %d: %s", e.id, e.code, show.c_str());
        PBT_CHECK(e.any_code || er->get("code")->n == e.code, "request %.17g should fail with code %d: %s", e.id, e.code, show.c_str());
        return;
    }
    PBT_CHECK(re, "request %.17g should succeed: %s", e.id, show.c_str());
    const J* x = nullptr;
    switch (e.kind) {
    case 1: PBT_CHECK(re->t == J::Obj, "ping result: %s", show.c_str()); break;
    case 2: x = re->get("resources"); PBT_CHECK(x && x->t == J::Arr, "resource list missing: %s", show.c_str()); break;
    case 3: x = re->get("resourceTemplates"); PBT_CHECK(x && x->t == J::Arr, "template list missing: %s", show.c_str()); break;
    case 4: x = re->get("tools"); PBT_CHECK(x && x->t == J::Arr, "tool list missing: %s", show.c_str()); break;
    case 5: PBT_CHECK(re->t == J::Obj, "metrics result: %s", show.c_str()); break;
    case 6: {
        x = re->get("contents");
        const std::string& u = e.content.s;
        PBT_CHECK(x && x->t == J::Arr && x->a.size() == 1 + u.size() % 3, "resource contents for %s: %s", esc(u).c_str(), show.c_str());
        for (size_t i = 0; i < x->a.size(); i++) {
            const J *uu = x->a[i].get("uri"), *t = x->a[i].get("text");
            PBT_CHECK(uu && uu->s == u && t && t->s == fmt("%zu:", i) + u, "content %zu of %s is another's: %s", i, esc(u).c_str(), show.c_str());
        }
        break;
    }
    case 7: {
        x = re->get("content");
        const J* ie = re->get("isError");
        const std::string &n = e.content.a[0].s, &tk = e.content.a[1].s;
        PBT_CHECK(x && x->t == J::Arr && ie && ie->t == J::Bool && ie->b == (n.size() % 2 != 0), "tool result for %s: %s", esc(n).c_str(), show.c_str());
        if (n == "empty") PBT_CHECK(x->a.empty(), "tool produced no content: %s", show.c_str());
        else {
            PBT_CHECK(x->a.size() == 1 && x->a[0].get("text") && x->a[0].get("text")->s == n + "|" + tk, "tool call %s got another's content: %s", esc(n).c_str(), show.c_str());
        }
        break;
    }
    }
}

static J gen_id(Case& c) {
    switch (c.draw(8)) {
    case 0: return J::num((double)c.draw(1ull << 53));
    case 1: return J::num(c.pick({0.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 2147483648.0}));
    case 2: return J::num((double)c.draw(5)); // repeated ids
    default: return J::num((double)c.draw(100000));
    }
}
static std::string gen_name(Case& c) {
    switch (c.draw(6)) {
    case 0: return fmt("err:%d", c.pick({-32603, -32602, -32000, -32001, -32003, -32005, -1, -31999}));
    case 1: return "none:" + c.ident(0, 4);
    case 2: return c.text(60);
    case 3: return "empty";
    case 4: return std::string(1, (char)('a' + c.draw(4)));
    default: return "res://" + c.ident(0, 20);
    }
}
static const char* METHODS[] = {"ping", "list_resources", "list_resource_templates", "list_tools", "read_resource", "call_tool", "get_performance_metrics", "reset_performance_metrics"};
static std::string gen_method(Case& c) {
    if (!c.chance(1, 6)) return METHODS[c.draw(8)];
    std::string m = METHODS[c.draw(8)];
    switch (c.draw(6)) {
    case 0: m += "x"; break;
    case 1: m.pop_back(); break;
    case 2: m[c.draw(m.size())] ^= 0x20; break;
    case 3: m = c.ident(0, 30); break;
    case 4: m = c.text(50); break;
    default: m[c.draw(m.size())] = '.'; break;
    }
    if (m.find('\0') != std::string::npos) m = "x";
    return m;
}
static J gen_params(Case& c, const std::string& m) {
    J p = J::obj();
    if (m.rfind("read", 0) == 0) p.o["uri"] = J::str(gen_name(c));
    else if (m.rfind("call", 0) == 0) {
        p.o["name"] = J::str(gen_name(c));
        if (!c.chance(1, 4)) {
            J a = c.chance(1, 6) ? gen_json(c) : J::obj();
            if (a.t == J::Obj && !c.chance(1, 6)) a.o["token"] = J::str(c.text(40));
            p.o["arguments"] = a;
        }
    } else if (c.chance(1, 3)) p = gen_json(c);
    if (c.chance(1, 6)) { // damage the parameters
        switch (c.draw(5)) {
        case 0: p = J::arr(); p.a.push_back(J::str("a")); break;
        case 1: p = J::obj(); break;
        case 2: if (p.t == J::Obj && p.o.size()) p.o.begin()->second = gen_json(c); break;
        case 3: p = gen_json(c); break;
        default: if (p.t == J::Obj && p.o.size()) p.o.erase(p.o.begin()); break;
        }
    }
    return p;
}
static J gen_message(Case& c) {
    J m = J::obj();
    if (c.chance(1, 30)) return gen_json(c);
    if (!c.chance(1, 20)) m.o["jsonrpc"] = J::str("2.0");
    if (c.chance(1, 12)) { // a response
        m.o["id"] = gen_id(c);
        if (c.flip()) m.o["result"] = gen_json(c);
        else {
            J e = J::obj();
            e.o["code"] = J::num(c.range(-33000, 10));
            e.o["message"] = J::str("m");
            m.o["error"] = e;
        }
    } else {
        std::string me = gen_method(c);
        m.o["method"] = J::str(me);
        if (!c.chance(1, 6)) m.o["id"] = gen_id(c);
        J p = gen_params(c, me);
        if (!c.chance(1, 8)) m.o["params"] = p;
    }
    if (c.chance(1, 16)) { // spoil one member
        switch (c.draw(5)) {
        case 0: m.o["id"] = c.pick({J::null(), J::str("7"), J::num(-1), J::num(1.5), J::boolean(true), J::num(1e300)}); break;
        case 1: m.o["method"] = gen_json(c); break;
        case 2: m.o["params"] = c.pick({J::null(), J::str("x"), J::num(3), J::boolean(false)}); break;
        case 3: m.o.erase("method"); break;
        default: m.o[gen_key(c)] = gen_json(c); break;
        }
    }
    return m;
}

static void judge(Case& c, const Cfg& f, const std::string& text, bool has, const std::string& out, bool& interesting) {
    std::string body = text;
    if (!body.empty() && body.back() == 0) body.pop_back();
    c.note("-> %s", esc(text, 500).c_str());
    c.note("<- %s", has ? esc(out, 500).c_str() : "(none)");
    J r;
    if (has) PBT_CHECK(jparse(out, r) == 1 || jparse(out, r) == -1, "the response is not valid JSON: %s", esc(out, 600).c_str());
    if (body.find('\0') != std::string::npos) return; // text cut at the NUL: outside the model
    J m;
    int depth = 0;
    int v = jparse(body, m, &depth);
    if (v == -1 || depth > 90) return;
    // duplicate member names and -0 ids are left open by the model
    if (v == 0) {
        PBT_CHECK(has, "unparseable text got no response");
        Expect e;
        e.invalid = true;
        check_one(r, e, out);
        PBT_CHECK(r.get("error")->get("code")->n == -32700, "unparseable text should be answered with -32700: %s", esc(out).c_str());
        return;
    }
    if (m.t != J::Arr) {
        Expect e;
        int k = classify(m, f, e);
        if (k == 0) { PBT_CHECK(!has, "a message that is no request was answered: %s", esc(out, 400).c_str()); return; }
        PBT_CHECK(has, "no response to %s", k == 1 ? "a request" : "an invalid message");
        if (k == 1) interesting = true;
        check_one(r, e, out);
        return;
    }
    std::vector<Expect> ex;
    size_t want = 0;
    for (auto& x : m.a) {
        Expect e;
        int k = classify(x, f, e);
        if (k) ex.push_back(e);
        if (k == 1) want++;
    }
    if (m.a.empty() || (want == 0 && !ex.empty())) { // error object, array of errors, or (batch of invalid elements) none
        if (has && r.t == J::Obj) { Expect e; e.invalid = true; check_one(r, e, out); }
        else if (has) for (auto& x : r.a) { Expect e; e.invalid = true; check_one(x, e, out); }
        return;
    }
    if (ex.empty()) { PBT_CHECK(!has, "a batch without requests was answered: %s", esc(out, 400).c_str()); return; }
    interesting = true;
    PBT_CHECK(has && r.t == J::Arr, "a batch with %zu requests is not answered by an array: %s", want, has ? esc(out, 300).c_str() : "(none)");
    size_t i = 0;
    for (auto& x : r.a) {
        const J* er = x.get("error");
        const J* id = x.get("id");
        // optional error answer for an invalid element
        while (i < ex.size() && ex[i].invalid) {
            bool errlike = er && er->get("code") && invalid_code(er->get("code")->n) && id && (id->t != J::Num || id->n == 0);
            if (errlike) break;
            i++;
        }
        PBT_CHECK(i < ex.size(), "more responses than requests in the batch (%zu): %s", want, esc(out, 500).c_str());
        if (ex[i].invalid && i + 1 < ex.size()) {
            // could also be the genuine answer (id 0) to a later request
            size_t j = i;
            while (j < ex.size() && ex[j].invalid) j++;
            if (j < ex.size() && ex[j].id == 0 && ex[j].error && invalid_code(ex[j].code)) i = j;
        }
        check_one(x, ex[i], out);
        i++;
    }
    while (i < ex.size() && ex[i].invalid) i++;
    PBT_CHECK(i == ex.size(), "request with id %.17g in a batch got no response (%zu requests): %s", ex[i].id, want, esc(out, 500).c_str());
}

