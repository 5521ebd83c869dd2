// TECHNIQUE: property-based testing: histories and interleavings of connections by name against a resolver that answers, fails and changes its mind, with the answers it gave as the oracle
// NOTE: The resolver, connecting and the clock are stand-ins; connections that overlap are made by starting others while one connects, and by threads.
// LINK: -Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo,--wrap=connect,--wrap=getsockopt
#include <arpa/inet.h>
#include <atomic>
#include <barrier>
#include <dirent.h>
#include <mutex>
#include <netdb.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include "mcp.hpp"
extern "C" {
int create_new_connection(const char* host, int port, int connect_timeout_ms);
void dns_cache_cleanup();
}
using namespace pbt;

struct Answer { std::string host, port; time_t when; size_t n; std::vector<char> up; bool freed = false; };
static std::mutex mx;
static std::vector<Answer> answers;
enum { REFUSES, ACCEPTS, ACCEPTS_LATER, REFUSES_LATER, SILENT };
static std::map<std::string, std::vector<char>> zone; // name -> what its addresses do; none at all: no such name
static size_t alive;
static std::string trouble;
struct Call { std::string host; int port; time_t start; long answer = -1; size_t tried = 0; bool done = false, failed = false; std::vector<int> peers; int refused = -1; };
static thread_local Call* call;
static thread_local void (*meanwhile)();
static int silences;
static bool deep;

static void bad(const std::string& s) { if (trouble.empty()) trouble = s; }
extern "C" int __wrap_getaddrinfo(const char* node, const char* service, const struct addrinfo*, struct addrinfo** res) {
    if (meanwhile && !deep) meanwhile();
    std::lock_guard<std::mutex> g(mx);
    auto it = zone.find(node ? node : "");
    if (it == zone.end() || it->second.empty()) { if (call) call->failed = true; return EAI_NONAME; }
    long id = (long)answers.size();
    answers.push_back({node, service ? service : "", (time_t)vt::now(), it->second.size(), it->second});
    alive++;
    struct addrinfo* first = nullptr;
    for (size_t i = it->second.size(); i--;) {
        auto* a = (struct addrinfo*)calloc(1, sizeof(struct addrinfo));
        auto* s = (struct sockaddr_in*)calloc(1, sizeof(struct sockaddr_in));
        s->sin_family = AF_INET;
        s->sin_port = htons((uint16_t)atoi(service ? service : "0"));
        s->sin_addr.s_addr = htonl((uint32_t)(id * 8 + (long)i));
        a->ai_family = AF_INET, a->ai_socktype = SOCK_STREAM, a->ai_protocol = IPPROTO_TCP;
        a->ai_addr = (struct sockaddr*)s, a->ai_addrlen = sizeof *s, a->ai_next = first;
        first = a;
    }
    *res = first;
    return 0;
}
extern "C" void __wrap_freeaddrinfo(struct addrinfo* a) {
    if (!a) return;
    {
        std::lock_guard<std::mutex> g(mx);
        auto* s = (struct sockaddr_in*)a->ai_addr;
        Answer& w = answers[ntohl(s->sin_addr.s_addr) / 8];
        if (w.freed) bad("an answer of the resolver was given back twice");
        w.freed = true;
        alive--;
    }
    while (a) { auto* n = a->ai_next; free(a->ai_addr); free(a); a = n; }
}
extern "C" int __wrap_connect(int fd, const struct sockaddr* sa, socklen_t) {
    if (meanwhile) meanwhile();
    std::lock_guard<std::mutex> g(mx);
    auto* s = (const struct sockaddr_in*)sa; // read after whatever happened meanwhile
    long v = ntohl(s->sin_addr.s_addr), id = v / 8;
    Answer& w = answers[(size_t)id];
    Call& k = *call;
    if (w.freed) bad("connected to an address that was given back");
    if (w.host != k.host || w.port != std::to_string(k.port) || ntohs(s->sin_port) != k.port)
        bad(fmt("a connection to port %d of %.30s... (%zu) went to port %s of %.30s... (%zu)", k.port, k.host.c_str(), k.host.size(), w.port.c_str(), w.host.c_str(), w.host.size()));
    if (w.when < k.start - 300) bad(fmt("a connection to %s used an answer %ld s old", k.host.c_str(), (long)(k.start - w.when)));
    if (k.answer >= 0 && k.answer != id) bad("one connection used two answers of the resolver");
    if (k.done) bad("a further address was tried after one had accepted");
    if ((size_t)(v % 8) != k.tried) bad(fmt("address %ld of %s tried after %zu others", v % 8, k.host.c_str(), k.tried));
    k.answer = id;
    k.tried++;
    int what = w.up[(size_t)(v % 8)];
    if (what == SILENT && silences-- <= 0) what = REFUSES; // waiting takes time
    k.done = what == ACCEPTS || what == ACCEPTS_LATER;
    if (what == ACCEPTS_LATER || what == SILENT) { // a socket that is writable, or never is
        int sp[2];
        if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0, sp)) _exit(9);
        static char fill[65536];
        while (what == SILENT && send(sp[0], fill, sizeof fill, MSG_NOSIGNAL) > 0) {}
        dup2(sp[0], fd);
        close(sp[0]);
        k.peers.push_back(sp[1]);
    }
    if (what == REFUSES_LATER) k.refused = fd;
    if (what == ACCEPTS) return 0;
    errno = what == REFUSES ? ECONNREFUSED : EINPROGRESS;
    return -1;
}
extern "C" int __real_getsockopt(int, int, int, void*, socklen_t*);
extern "C" int __wrap_getsockopt(int fd, int level, int name, void* v, socklen_t* n) {
    if (!call || fd != call->refused || level != SOL_SOCKET || name != SO_ERROR) return __real_getsockopt(fd, level, name, v, n);
    *(int*)v = ECONNREFUSED;
    call->refused = -1;
    return 0;
}
static bool go(const std::string& host, int port) { // one connection
    Call k{host, port, (time_t)vt::now()}, *outer = call;
    call = &k;
    int fd = create_new_connection(host.c_str(), port, 5);
    call = outer;
    for (int p : k.peers) close(p);
    std::lock_guard<std::mutex> g(mx);
    if (k.done != (fd >= 0)) bad(fmt("an address of %s %s, yet the connection %s", host.c_str(), k.done ? "accepted" : "did not accept", fd >= 0 ? "was made" : "failed"));
    if (fd < 0 && !k.failed && (k.answer < 0 || k.tried < answers[(size_t)k.answer].n)) bad(fmt("gave up %s after %zu addresses, though the resolver had answered", host.c_str(), k.tried));
    if (fd >= 0) close(fd);
    return fd >= 0;
}
static size_t open_fds() {
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (d && readdir(d)) n++;
    if (d) closedir(d);
    return n;
}
static std::vector<std::string> gen_names(Case& c) {
    std::vector<std::string> v;
    size_t n = c.draw(3) ? 1 + c.draw(5) : 10 + c.draw(20);
    std::string longest(1 + 244 + c.draw(8), 'x');
    for (size_t i = 0; i < n; i++) v.push_back(c.chance(1, 8) ? longest + std::string(1, (char)('a' + c.draw(3))) : fmt("h%zu", i));
    return v;
}
static std::vector<char> gen_up(Case& c) {
    std::vector<char> u;
    for (size_t i = c.chance(1, 8) ? 0 : 1 + (c.flip() ? 0 : c.draw(4)); i; i--) u.push_back(c.chance(1, 40) ? (char)SILENT : (char)c.pick<int>({ACCEPTS, REFUSES, ACCEPTS_LATER, REFUSES_LATER, ACCEPTS}));
    return u;
}
static Case* cur;
static std::vector<std::string>* names;
static int depth, made, old_hit, budget;
static const int PORTS[] = {80, 8080, 65535, 8081};
static void one();
static void nested() {
    if (budget <= 0) return;
    if (deep) { if (depth < 20) one(); return; }
    if (depth > 3) return;
    for (size_t i = cur->draw(4) == 3 ? 1 + cur->draw(3) : 0; i; i--) {
        if (cur->flip()) { long d = (long)cur->draw(400); vt::advance(d); cur->note("%*s%ld s pass", depth * 2, "", d); }
        one();
    }
}
static void one() {
    Case& c = *cur;
    if (budget-- <= 0) return;
    depth++;
    const std::string& h = (*names)[deep ? (size_t)depth % names->size() : c.draw(names->size())];
    int port = PORTS[c.draw(3) ? 0 : c.draw(4)];
    c.note("%*sconnect to %.20s (%zu) port %d", depth * 2, "", h.c_str(), h.size(), port);
    size_t before = answers.size();
    if (go(h, port)) made++;
    if (answers.size() == before) old_hit++;
    depth--;
}
static void history(Case& c) {
    answers.clear(), zone.clear(), trouble.clear();
    alive = 0, made = old_hit = depth = 0, deep = false, budget = 400; vt::freeze(1000000);
    silences = c.chance(1, 20) ? 2 : 0;
    auto v = gen_names(c);
    cur = &c, names = &v, meanwhile = nested;
    for (auto& h : v) zone[h] = gen_up(c);
    size_t fds = open_fds(), changes = 0;
    int steps = 1 + (int)c.draw(8 + c.size());
    for (int s = 0; s < steps; s++) {
        switch (c.weighted({12, 4, 3, 2})) {
        case 0: deep = v.size() > 9 && c.chance(1, 4); one(); deep = false; break; // deep: more names in use at once than are cached
        case 3: { // twice in a row, with nothing else going on
            auto& h = v[c.draw(v.size())];
            c.note("connect twice to %.20s (%zu)", h.c_str(), h.size());
            meanwhile = nullptr;
            go(h, 80);
            size_t n = answers.size();
            go(h, 80);
            meanwhile = nested;
            PBT_CHECK(answers.size() == n, "the resolver was asked for %s again though it had just answered", h.c_str());
            break;
        }
        case 1: { long d = c.flip() ? (long)c.draw(30) : c.pick<long>({299, 300, 301, 302, 600, 100}); vt::advance(d); c.note("%ld s pass", d); break; }
        case 2: { auto& h = v[c.draw(v.size())]; zone[h] = gen_up(c); c.note("%.20s has %zu addresses", h.c_str(), zone[h].size()); changes++; break; }
        }
        PBT_CHECK(trouble.empty(), "%s", trouble.c_str());
    }
    meanwhile = nullptr;
    dns_cache_cleanup();
    PBT_CHECK(trouble.empty(), "%s", trouble.c_str());
    PBT_CHECK(alive == 0, "%zu answers of the resolver were never given back", alive);
    PBT_CHECK(open_fds() == fds, "sockets left open");
    c.nontrivial(made > 1 && changes && old_hit);
}
static void threads(Case& c) {
    answers.clear(), zone.clear(), trouble.clear();
    alive = 0; vt::freeze(1000000);
    meanwhile = nullptr;
    silences = 0;
    auto v = gen_names(c);
    for (auto& h : v) zone[h] = gen_up(c);
    go(v[0], 80); // the cache exists before there are threads, as with a pool
    size_t n = 2 + c.draw(5), per = 10 + c.draw(60);
    uint64_t seed = c.draw(1 << 30);
    c.note("%zu threads, %zu connections each to %zu names", n, per, v.size());
    std::barrier gate((std::ptrdiff_t)n);
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++)
        th.emplace_back([&, t] {
            uint64_t x = seed * 2654435761u + t * 977 + 1;
            auto next = [&](size_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (size_t)(x >> 33) % m; };
            gate.arrive_and_wait();
            for (size_t i = 0; i < per; i++) {
                if (next(12) == 0) vt::advance((long)next(200));
                go(v[next(v.size())], PORTS[next(2)]);
            }
        });
    for (auto& t : th) t.join();
    dns_cache_cleanup();
    PBT_CHECK(trouble.empty(), "%s", trouble.c_str());
    PBT_CHECK(alive == 0, "%zu answers of the resolver were never given back", alive);
    c.nontrivial(answers.size() > 5);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P50";
    o.rule = "history: two connections made, one of them without asking the resolver, and a name that changed; threads: more than five answers of the resolver";
    Test t{"threads", threads, 6000, 60000};
    t.tries = 40;
    o.tests = {{"history", history, 30000, 300000}, t};
    o.assumptions = {"Names are at most 253 characters long", "Only the clock's whole seconds matter"};
    o.worker_init = [] { quiet_logs(); };
    return run(argc, argv, o);
}
