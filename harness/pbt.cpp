#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:max_allocation_size_mb=3000:quarantine_size_mb=16:"
           "print_legend=0:symbolize=1:handle_abort=1:detect_odr_violation=0:"
           "intercept_tls_get_addr=0:malloc_context_size=12";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

// ---------------------------------------------------------------- virtual time
namespace vt {
static std::atomic<bool> on{false};
static std::atomic<int64_t> ms_now{0};
void freeze(int64_t t) { ms_now = t * 1000; on = true; }
void advance(int64_t s) { ms_now += s * 1000; }
void advance_ms(int64_t ms) { ms_now += ms; }
int64_t now() { return ms_now / 1000; }
void off() { on = false; }
} // namespace vt
extern "C" time_t __real_time(time_t*);
extern "C" int __real_gettimeofday(struct timeval*, void*);
extern "C" time_t __wrap_time(time_t* t) {
    if (!vt::on) return __real_time(t);
    time_t r = (time_t)(vt::ms_now / 1000);
    if (t) *t = r;
    return r;
}
extern "C" int __wrap_gettimeofday(struct timeval* tv, void* tz) {
    if (!vt::on) return __real_gettimeofday(tv, tz);
    int64_t m = vt::ms_now;
    tv->tv_sec = m / 1000;
    tv->tv_usec = (m % 1000) * 1000;
    return 0;
}

namespace pbt {
static double mono() {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

// ---------------------------------------------------------------- shared state
constexpr size_t MAXCH = 1u << 18;
constexpr int MAXLAB = 160;
constexpr int NSAMPLES = 3;
struct WShm {
    volatile uint64_t cur;       // global case index being run
    volatile double start;       // when it started (0: idle)
    volatile uint64_t batch_from;
    volatile uint64_t done;      // cases completed (all batches)
    volatile uint64_t nontriv;
    volatile uint32_t failed;
    char msg[4096];
    char note[12288];
    volatile uint32_t notelen;
    int nlab;
    struct { char name[64]; uint64_t n; } lab[MAXLAB];
    int nsamp;
    char samp[NSAMPLES][1200];
    char known[8][300];
    volatile int nknown;
    volatile uint32_t nch;
    volatile uint32_t overflow;
    uint64_t ch[MAXCH];
};
static WShm* W = nullptr; // this worker's slot

static uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
uint64_t fnv(const void* p, size_t n, uint64_t h) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
std::string fmt(const char* f, ...) {
    va_list ap, ap2;
    va_start(ap, f);
    va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    va_end(ap);
    std::string s(n > 0 ? n : 0, 0);
    if (n > 0) vsnprintf(&s[0], n + 1, f, ap2);
    va_end(ap2);
    return s;
}
std::string esc(const std::string& s, size_t max) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        if (o.size() > max) { o += fmt("...(%zu bytes)", s.size()); break; }
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c >= 127) o += fmt("\\x%02x", c);
        else o += c;
    }
    return o + "\"";
}
void fail(const char* f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (W) {
        static std::atomic<int> once{0};
        if (once.exchange(1) == 0) {
            memcpy(W->msg, buf, sizeof buf);
            W->failed = 1;
        } else
            sleep(5); // another thread is reporting
        _exit(42);
    }
    fprintf(stderr, "FAIL: %s\n", buf);
    _exit(42);
}
void known_finding(const char* f, ...) {
    char buf[300];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (!W) return;
    for (int i = 0; i < W->nknown; i++) if (!strcmp(W->known[i], buf)) return;
    if (W->nknown < 8) { strcpy(W->known[W->nknown], buf); W->nknown = W->nknown + 1; }
}

uint64_t Case::draw(uint64_t n) {
    if (n == 0) n = 1;
    uint64_t v;
    if (replay_) {
        v = pos_ < nin_ ? in_[pos_] : 0;
        if (v >= n) v %= n;
    } else {
        uint64_t r = splitmix(rng_);
        v = (uint64_t)(((unsigned __int128)r * n) >> 64);
    }
    pos_++;
    if (W) {
        if (pos_ <= MAXCH) { W->ch[pos_ - 1] = v; W->nch = (uint32_t)pos_; }
        else W->overflow = 1;
    }
    hash_ = fnv(&v, sizeof v, hash_);
    return v;
}
int64_t Case::small(int64_t lo, int64_t hi) {
    uint64_t span = (uint64_t)(hi - lo) + 1;
    // pick a magnitude, then a value below it
    unsigned bits = 0;
    while (bits < 63 && (1ull << bits) < span) bits++;
    unsigned b = (unsigned)draw(bits + 1);
    uint64_t lim = b >= 63 ? span : (1ull << b);
    if (lim > span) lim = span;
    return lo + (int64_t)draw(lim);
}
size_t Case::weighted(std::initializer_list<unsigned> w) {
    uint64_t tot = 0;
    for (unsigned x : w) tot += x;
    uint64_t v = draw(tot);
    size_t i = 0;
    for (unsigned x : w) {
        if (v < x) return i;
        v -= x;
        i++;
    }
    return w.size() - 1;
}
std::string Case::bytes(size_t maxlen) {
    size_t n = (size_t)small(0, (int64_t)maxlen);
    std::string s(n, 0);
    unsigned mode = (unsigned)draw(3);
    for (size_t i = 0; i < n; i++)
        s[i] = mode == 0 ? (char)('a' + draw(26)) : mode == 1 ? (char)draw(256) : (char)(draw(4) ? 32 + draw(95) : draw(256));
    return s;
}
static void put_utf8(std::string& s, uint32_t cp) {
    if (cp < 0x80) s += (char)cp;
    else if (cp < 0x800) { s += (char)(0xC0 | cp >> 6); s += (char)(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { s += (char)(0xE0 | cp >> 12); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
    else { s += (char)(0xF0 | cp >> 18); s += (char)(0x80 | (cp >> 12 & 63)); s += (char)(0x80 | (cp >> 6 & 63)); s += (char)(0x80 | (cp & 63)); }
}
std::string Case::text(size_t maxlen) {
    size_t n = (size_t)small(0, (int64_t)maxlen);
    std::string s;
    unsigned mode = (unsigned)draw(4); // 0: plain letters .. 3: wild
    while (s.size() < n) {
        unsigned k = mode == 0 ? 0 : (unsigned)draw(mode == 1 ? 3 : 8);
        switch (k) {
        case 0: case 1: s += (char)('a' + draw(26)); break;
        case 2: s += (char)(32 + draw(95)); break;
        case 3: s += "\"\\/\b\f\n\r\t'{}[]:,&<>%"[draw(19)]; break;
        case 4: s += (char)(1 + draw(31)); break;
        case 5: put_utf8(s, 0x80 + (uint32_t)draw(0x780)); break;
        case 6: { uint32_t cp = 0x800 + (uint32_t)draw(0xF800); if (cp >= 0xD800 && cp < 0xE000) cp = 0x20AC; put_utf8(s, cp); break; }
        default: put_utf8(s, 0x10000 + (uint32_t)draw(0x100000)); break;
        }
    }
    return s;
}
std::string Case::printable(size_t maxlen) {
    size_t n = (size_t)small(0, (int64_t)maxlen);
    std::string s(n, 0);
    for (auto& c : s) c = (char)(32 + (draw(95) + 65) % 95); // 0 -> 'a'
    return s;
}
std::string Case::ident(size_t minlen, size_t maxlen) {
    size_t n = (size_t)small((int64_t)minlen, (int64_t)maxlen);
    std::string s(n, 0);
    for (auto& c : s) c = "abcdefghijklmnopqrstuvwxyz0123456789_"[draw(37)];
    if (n && s[0] >= '0' && s[0] <= '9') s[0] = 'n';
    return s;
}
std::vector<size_t> Case::cuts(size_t total, size_t maxpieces) {
    std::vector<size_t> r;
    if (!total) return r;
    std::set<size_t> at;
    size_t k = (size_t)small(0, (int64_t)maxpieces > 0 ? (int64_t)maxpieces - 1 : 0);
    for (size_t i = 0; i < k; i++) {
        size_t c = (size_t)draw(total);
        if (c) at.insert(c);
    }
    size_t prev = 0;
    for (size_t c : at) { r.push_back(c - prev); prev = c; }
    r.push_back(total - prev);
    return r;
}
void Case::label(const char* name) {
    if (!W) return;
    for (int i = 0; i < W->nlab; i++)
        if (!strcmp(W->lab[i].name, name)) { W->lab[i].n++; return; }
    if (W->nlab < MAXLAB) {
        snprintf(W->lab[W->nlab].name, sizeof W->lab[0].name, "%s", name);
        W->lab[W->nlab++].n = 1;
    }
}
void Case::note(const char* f, ...) {
    if (!W) return;
    uint32_t l = W->notelen;
    if (l + 2 >= sizeof W->note) return;
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(W->note + l, sizeof W->note - l - 1, f, ap);
    va_end(ap);
    if (n < 0) return;
    l += (uint32_t)n;
    if (l > sizeof W->note - 2) l = sizeof W->note - 2;
    W->note[l++] = '\n';
    W->note[l] = 0;
    W->notelen = l;
}

// ---------------------------------------------------------------- scratch dirs
static std::string g_scratch_root;
static std::string g_scratch_mine;
static void rm_rf(const std::string& d) {
    DIR* h = opendir(d.c_str());
    if (h) {
        struct dirent* e;
        while ((e = readdir(h))) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string p = d + "/" + e->d_name;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p);
            else unlink(p.c_str());
        }
        closedir(h);
    }
    rmdir(d.c_str());
}
std::string scratch_dir() {
    if (g_scratch_mine.empty()) {
        g_scratch_mine = g_scratch_root + fmt("/w%d", (int)getpid());
        mkdir(g_scratch_mine.c_str(), 0700);
    }
    return g_scratch_mine;
}

// ---------------------------------------------------------------- running cases
struct Plan {
    const Options* o;
    bool thorough;
    uint64_t seed;
    std::vector<uint64_t> first; // first global index of each test
    uint64_t total = 0;
    double scale = 1;
};
static void locate(const Plan& p, uint64_t idx, size_t& t, uint64_t& k) {
    t = 0;
    while (t + 1 < p.first.size() && idx >= p.first[t + 1]) t++;
    k = idx - p.first[t];
}
static void begin_case(uint64_t idx) {
    W->cur = idx;
    W->notelen = 0;
    W->note[0] = 0;
    W->nch = 0;
    W->overflow = 0;
    W->start = mono();
}
static void init_case(const Plan& p, uint64_t idx, Case& c, size_t& t) {
    uint64_t k;
    locate(p, idx, t, k);
    uint64_t s = p.seed * 0x9e3779b97f4a7c15ull + 0x1234567;
    s = fnv(p.o->property, strlen(p.o->property), s);
    s = fnv(p.o->tests[t].name, strlen(p.o->tests[t].name), s);
    s = fnv(&k, sizeof k, s);
    c.rng_ = s;
    splitmix(c.rng_);
    c.size_ = 1 + (int)(k % 100);
}
static void child_setup(int errfd) {
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0);
    dup2(dn, 1);
    if (errfd >= 0) {
        ftruncate(errfd, 0);
        lseek(errfd, 0, SEEK_SET);
        dup2(errfd, 2);
    }
    if (dn > 2) close(dn);
    signal(SIGPIPE, SIG_IGN);
    struct rlimit rl = {1ull << 28, 1ull << 28};
    setrlimit(RLIMIT_FSIZE, &rl);
    rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

// outcome of one child
struct Outcome {
    bool failed = false;
    bool hang = false;
    std::string kind, msg, err;
};
static std::string read_tail(int fd, size_t max) {
    off_t n = lseek(fd, 0, SEEK_END);
    if (n <= 0) return "";
    size_t want = (size_t)n > max ? max : (size_t)n;
    // the head of a sanitizer report matters more than its tail
    std::string all((size_t)std::min<off_t>(n, 200000), 0);
    pread(fd, &all[0], all.size(), 0);
    size_t at = all.find("ERROR: AddressSanitizer");
    if (at == std::string::npos) at = all.find("runtime error:");
    if (at != std::string::npos) {
        at = at > 100 ? at - 100 : 0;
        return all.substr(at, max);
    }
    std::string s(want, 0);
    pread(fd, &s[0], want, n - (off_t)want);
    return s;
}
static Outcome classify(int st, WShm* w, int errfd, bool hang) {
    Outcome r;
    if (hang) {
        r.failed = r.hang = true;
        r.kind = "hang";
        r.msg = "the case did not finish in time";
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        return r;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) {
        r.failed = true;
        r.kind = "oracle";
        r.msg = w->msg;
    } else {
        r.failed = true;
        r.kind = "crash";
        r.err = read_tail(errfd, 3000);
        r.msg = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
        size_t a = r.err.find("ERROR: AddressSanitizer");
        if (a == std::string::npos) a = r.err.find("runtime error:");
        if (a != std::string::npos) r.msg += ": " + r.err.substr(a, r.err.find('\n', a) - a);
    }
    return r;
}

struct Candidate {
    size_t test;
    bool history = false;
    std::vector<uint64_t> choices;
    std::vector<uint64_t> hist; // global indexes, last one is the failing case
    int size = 1;
};
static int g_errfd = -1;
static WShm* g_trial = nullptr;

// Runs a candidate in a fresh process.
static Outcome trial(const Plan& p, const Candidate& c, double limit) {
    WShm* w = g_trial;
    w->failed = 0;
    w->start = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        W = w;
        g_scratch_mine.clear();
        setpgid(0, 0);
        child_setup(g_errfd);
        if (p.o->worker_init) p.o->worker_init();
        if (c.history) {
            for (uint64_t idx : c.hist) {
                Case k;
                size_t t;
                init_case(p, idx, k, t);
                begin_case(idx);
                p.o->tests[t].fn(k);
            }
        } else {
            Case k;
            k.replay_ = true;
            k.in_ = c.choices.data();
            k.nin_ = c.choices.size();
            k.size_ = c.size;
            begin_case(0);
            p.o->tests[c.test].fn(k);
        }
        _exit(0);
    }
    double t0 = mono();
    int st = 0;
    bool hang = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (mono() - t0 > limit) {
            hang = true;
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            break;
        }
        usleep(mono() - t0 < 0.02 ? 300 : 3000);
    }
    kill(-pid, SIGKILL);
    rm_rf(g_scratch_root + fmt("/w%d", (int)pid));
    return classify(st, w, g_errfd, hang);
}
// Runs a candidate up to `tries` times; true as soon as one run fails.
static bool fails(const Plan& p, const Candidate& c, unsigned tries, double limit, Outcome& out) {
    for (unsigned i = 0; i < tries; i++) {
        Outcome r = trial(p, c, limit);
        if (r.failed && !(r.hang && !p.o->tests[c.test].hang_is_failure)) {
            out = r;
            return true;
        }
    }
    return false;
}

static void shrink(const Plan& p, Candidate& c, unsigned tries, double limit, Outcome& out, double budget) {
    double t0 = mono();
    auto left = [&] { return mono() - t0 < budget; };
    auto attempt = [&](Candidate& n) {
        Outcome r;
        if (!fails(p, n, tries, limit, r)) return false;
        // Keep the kind of failure: shrinking must not drift to another problem.
        if (r.kind != out.kind) return false;
        c = n;
        out = r;
        return true;
    };
    if (c.history) {
        bool again = true;
        for (size_t step = c.hist.size() / 2; step >= 1 && left(); step /= 2) {
            again = true;
            while (again && left()) {
                again = false;
                for (size_t i = 0; i + step < c.hist.size() && left();) {
                    Candidate n = c;
                    n.hist.erase(n.hist.begin() + i, n.hist.begin() + i + step);
                    if (attempt(n)) again = true;
                    else i += step;
                }
            }
        }
        return;
    }
    // drop the unused tail first
    bool progress = true;
    while (progress && left()) {
        progress = false;
        size_t before = c.choices.size();
        for (size_t len = std::min<size_t>(c.choices.size(), 4096); len >= 1 && left(); len /= 2) {
            for (size_t i = c.choices.size(); i > 0 && left();) {
                size_t from = i > len ? i - len : 0;
                if (from >= c.choices.size()) { i = from; continue; }
                Candidate n = c;
                n.choices.erase(n.choices.begin() + from, n.choices.begin() + std::min(from + len, n.choices.size()));
                attempt(n);
                i = from;
            }
        }
        // lower single choices
        for (size_t i = 0; i < c.choices.size() && left(); i++) {
            if (c.choices[i] == 0) continue;
            Candidate n = c;
            n.choices[i] = 0;
            if (attempt(n)) { progress = true; continue; }
            uint64_t lo = 0, hi = c.choices[i]; // hi fails, lo does not
            while (hi - lo > 1 && left()) {
                uint64_t mid = lo + (hi - lo) / 2;
                Candidate m = c;
                m.choices[i] = mid;
                if (attempt(m)) { hi = mid; progress = true; }
                else lo = mid;
            }
        }
        if (c.choices.size() < before) progress = true;
    }
}

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) o += fmt("\\u%04x", ch);
        else o += ch;
    }
    return o;
}
static std::string write_replay(const Plan& p, const Candidate& c, const Outcome& r, const std::string& dir) {
    mkdir(dir.c_str(), 0755);
    std::string body = fmt("property %s\ntest %s\nseed %llu\ntier %s\nsize %d\nkind %s\n", p.o->property, p.o->tests[c.test].name,
                           (unsigned long long)p.seed, p.thorough ? "thorough" : "quick", c.size, c.history ? "history" : "choices");
    body += "values";
    for (uint64_t v : c.history ? c.hist : c.choices) body += fmt(" %llu", (unsigned long long)v);
    body += "\n---\n" + r.kind + ": " + r.msg + "\n";
    body += std::string("case:\n") + g_trial->note + "\n" + r.err + "\n";
    std::string f = dir + "/" + p.o->property + fmt("-%08x.replay", (unsigned)fnv(body.data(), body.size()));
    FILE* h = fopen(f.c_str(), "w");
    if (h) { fwrite(body.data(), 1, body.size(), h); fclose(h); }
    return f;
}

int run(int argc, char** argv, const Options& o) {
    Plan p;
    p.o = &o;
    const char* tier = getenv("VERIF_TIER");
    const char* seed = getenv("VERIF_SEED");
    std::string evidence, replays = "/verif/replays", replay_file, only;
    double cap = 0;
    p.thorough = tier && !strcmp(tier, "thorough");
    p.seed = seed ? strtoull(seed, nullptr, 10) : 1;
    bool verbose = false;
    uint64_t one = ~0ull;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--tier") p.thorough = next() == "thorough";
        else if (a == "--seed") p.seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = next();
        else if (a == "--replays") replays = next();
        else if (a == "--replay") replay_file = next();
        else if (a == "--only") only = next();
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--scale") p.scale = atof(next().c_str());
        else if (a == "--case") one = strtoull(next().c_str(), nullptr, 10);
        else if (a == "-v") verbose = true;
    }
    if (cap == 0) cap = p.thorough ? 1500 : 400;
    char root[] = "/tmp/pbt-XXXXXX";
    if (!mkdtemp(root)) { perror("mkdtemp"); return 2; }
    g_scratch_root = root;
    char errname[] = "/tmp/pbt-err-XXXXXX";
    g_errfd = mkstemp(errname);
    unlink(errname);

    for (auto& t : o.tests) {
        p.first.push_back(p.total);
        uint64_t n = p.thorough ? t.thorough : t.quick;
        n = (uint64_t)(n * p.scale + 0.5);
        if (!only.empty() && only != t.name) n = 0;
        p.total += n;
    }
    double t_start = mono();
    g_trial = (WShm*)mmap(nullptr, sizeof(WShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)g_trial, 0, offsetof(WShm, ch));

    if (one != ~0ull) { // debugging: run one case in this process
        W = g_trial;
        Case c;
        size_t t;
        init_case(p, one, c, t);
        begin_case(one);
        if (o.worker_init) o.worker_init();
        o.tests[t].fn(c);
        printf("%s", W->note);
        rm_rf(g_scratch_root);
        return 0;
    }
    if (!replay_file.empty()) {
        FILE* f = fopen(replay_file.c_str(), "r");
        if (!f) { perror("replay"); return 2; }
        Candidate c;
        c.test = 0;
        char* line = nullptr;
        size_t cl = 0;
        while (getline(&line, &cl, f) > 0) {
            if (!strncmp(line, "---", 3)) break;
            char* sp = strchr(line, ' ');
            if (!sp) continue;
            *sp++ = 0;
            sp[strcspn(sp, "\n")] = 0;
            if (!strcmp(line, "test")) {
                for (size_t i = 0; i < o.tests.size(); i++) if (!strcmp(o.tests[i].name, sp)) c.test = i;
            } else if (!strcmp(line, "seed")) p.seed = strtoull(sp, nullptr, 10);
            else if (!strcmp(line, "tier")) p.thorough = !strcmp(sp, "thorough");
            else if (!strcmp(line, "size")) c.size = atoi(sp);
            else if (!strcmp(line, "kind")) c.history = !strcmp(sp, "history");
            else if (!strcmp(line, "values")) {
                char* e = sp;
                for (;;) {
                    while (*e == ' ') e++;
                    if (!*e) break;
                    uint64_t v = strtoull(e, &e, 10);
                    (c.history ? c.hist : c.choices).push_back(v);
                }
            }
        }
        fclose(f);
        p.first.clear();
        p.total = 0;
        for (auto& t : o.tests) { p.first.push_back(p.total); p.total += p.thorough ? t.thorough : t.quick; }
        Outcome r;
        bool bad = fails(p, c, o.tests[c.test].tries, o.tests[c.test].case_timeout, r);
        printf("%s", g_trial->note);
        rm_rf(g_scratch_root);
        if (bad) {
            printf("%s: %s\n%s\n", r.kind.c_str(), r.msg.c_str(), r.err.c_str());
            printf("VIOLATION property=%s replay=%s\n", o.property, replay_file.c_str());
            return 1;
        }
        printf("replay did not fail\n");
        return 0;
    }

    int nw = o.workers ? o.workers : (int)sysconf(_SC_NPROCESSORS_ONLN);
    if (nw > 8) nw = 8;
    if (nw < 1) nw = 1;
    uint64_t* hashes = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * (p.total + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    struct Slot { WShm* w; pid_t pid = 0; uint64_t next; int errfd; };
    std::vector<Slot> slots(nw);
    for (int i = 0; i < nw; i++) {
        slots[i].w = (WShm*)mmap(nullptr, sizeof(WShm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        slots[i].next = i;
        char en[] = "/tmp/pbt-err-XXXXXX";
        slots[i].errfd = mkstemp(en);
        unlink(en);
    }
    bool stop = false, capped = false;
    int unrepro = 0, hangs = 0;
    std::string unrepro_msgs;
    struct Found { Candidate c; Outcome r; uint64_t idx, from; };
    std::vector<Found> found;
    std::string violation, viol_msg, viol_case;

    auto spawn = [&](Slot& s) {
        size_t t;
        uint64_t k;
        locate(p, s.next, t, k);
        uint64_t from = s.next, limit = o.tests[t].batch;
        uint64_t end_of_test = t + 1 < p.first.size() ? p.first[t + 1] : p.total;
        s.w->batch_from = from;
        s.w->failed = 0;
        s.w->start = 0;
        s.w->cur = from;
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            W = s.w;
            setpgid(0, 0);
            child_setup(s.errfd);
            if (o.worker_init) o.worker_init();
            uint64_t n = 0;
            for (uint64_t idx = from; idx < end_of_test && n < limit; idx += nw, n++) {
                Case c;
                size_t tt;
                init_case(p, idx, c, tt);
                begin_case(idx);
                o.tests[tt].fn(c);
                W->start = 0;
                W->done = W->done + 1;
                if (c.nontriv_) {
                    W->nontriv = W->nontriv + 1;
                    uint64_t h = fnv(o.tests[tt].name, strlen(o.tests[tt].name), c.hash_);
                    hashes[idx] = h ? h : 1;
                    if (W->nsamp < NSAMPLES && W->notelen && (n > 20 || idx + nw >= end_of_test)) {
                        snprintf(W->samp[W->nsamp], sizeof W->samp[0], "%s: %s", o.tests[tt].name, W->note);
                        W->nsamp++;
                    }
                }
                W->cur = idx + nw; // next
            }
            _exit(0);
        }
        s.pid = pid;
    };
    auto handle_end = [&](Slot& s, int st, bool hang) {
        kill(-s.pid, SIGKILL);
        rm_rf(g_scratch_root + fmt("/w%d", (int)s.pid));
        Outcome r = classify(st, s.w, s.errfd, hang);
        s.pid = 0;
        uint64_t cur = s.w->cur;
        if (!r.failed) { s.next = cur; return; }
        size_t t;
        uint64_t k;
        locate(p, cur, t, k);
        s.next = cur + nw; // continue after the failing case
        if (r.hang && !o.tests[t].hang_is_failure) { hangs++; return; }
        Found f;
        f.c.test = t;
        f.c.size = 1 + (int)(k % 100);
        if (!s.w->overflow) f.c.choices.assign(s.w->ch, s.w->ch + s.w->nch);
        for (uint64_t i = s.w->batch_from; i <= cur; i += nw) f.c.hist.push_back(i);
        if (s.w->overflow) { f.c.history = true; f.c.hist = {cur}; }
        f.r = r;
        f.idx = cur;
        f.from = s.w->batch_from;
        found.push_back(f);
    };

    while (true) {
        bool alive = false;
        for (auto& s : slots) {
            if (s.pid == 0 && s.next < p.total && !stop && found.empty() && !capped) spawn(s);
            if (s.pid == 0) continue;
            int st;
            pid_t r = waitpid(s.pid, &st, WNOHANG);
            if (r == s.pid) { handle_end(s, st, false); alive = true; continue; }
            alive = true;
            double b = s.w->start;
            size_t t;
            uint64_t k;
            locate(p, s.w->cur, t, k);
            if (b > 0 && mono() - b > o.tests[std::min(t, o.tests.size() - 1)].case_timeout) {
                if (s.w->start == b) {
                    kill(s.pid, SIGKILL);
                    waitpid(s.pid, &st, 0);
                    handle_end(s, st, true);
                }
                continue;
            }
            if (!found.empty() || capped || stop) { // let no other worker run on
                kill(s.pid, SIGKILL);
                waitpid(s.pid, &st, 0);
                uint64_t c = s.w->cur;
                kill(-s.pid, SIGKILL);
                rm_rf(g_scratch_root + fmt("/w%d", (int)s.pid));
                s.pid = 0;
                s.next = c; // redo the interrupted case if the search goes on
            }
        }
        if (!alive && !found.empty()) {
            for (auto& f : found) {
                if (!violation.empty()) break;
                const Test& T = o.tests[f.c.test];
                double lim = f.r.hang ? T.case_timeout : std::min(T.case_timeout, 30.0);
                if (verbose) fprintf(stderr, "failure: %s %s: %s\n", T.name, f.r.kind.c_str(), f.r.msg.c_str());
                Outcome r;
                Candidate c = f.c;
                bool ok = fails(p, c, f.r.hang ? std::min(T.tries, 2u) : T.tries, lim, r);
                if (!ok && !c.history && f.c.hist.size() > 1 && !f.r.hang) {
                    c.history = true;
                    ok = fails(p, c, std::max(2u, T.tries / 4), std::max(120.0, lim), r);
                }
                if (!ok) {
                    unrepro++;
                    unrepro_msgs += fmt("%s: %s: %s\n", T.name, f.r.kind.c_str(), f.r.msg.c_str());
                    if (verbose) fprintf(stderr, "  not reproduced\n%s\n", f.r.err.c_str());
                    int oracle_like = unrepro - 0;
                    if (oracle_like >= 4 && f.r.kind != "hang") {
                        // the same oracle fired again and again: it is real, only rare
                        c = f.c;
                        c.history = false;
                        r = f.r;
                        ok = true;
                    }
                }
                if (ok) {
                    if (r.kind != "hang") shrink(p, c, T.tries > 3 ? std::min(T.tries, 6u) : 1, lim, r, T.tries > 3 ? 40 : 60);
                    Outcome fin;
                    if (fails(p, c, T.tries, lim, fin)) r = fin; // fills the notes for the report
                    violation = write_replay(p, c, r, replays);
                    viol_msg = r.kind + ": " + r.msg;
                    viol_case = std::string(g_trial->note) + r.err;
                }
            }
            found.clear();
            if (!violation.empty()) break;
            continue;
        }
        if (!alive) break;
        if (mono() - t_start > cap) capped = true;
        usleep(2000);
    }

    // ---- evidence
    uint64_t evals = 0;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    std::set<std::string> known;
    for (int round = 0; round < NSAMPLES; round++)
        for (auto& s : slots)
            if (round < s.w->nsamp && samples.size() < 10) samples.push_back(s.w->samp[round]);
    for (auto& s : slots) {
        evals += s.w->done;
        for (int i = 0; i < s.w->nlab; i++) labels[s.w->lab[i].name] += s.w->lab[i].n;
        for (int i = 0; i < s.w->nknown; i++) known.insert(s.w->known[i]);
    }
    std::unordered_set<uint64_t> distinct;
    for (uint64_t i = 0; i < p.total; i++) if (hashes[i]) distinct.insert(hashes[i]);
    for (auto& k : known) printf("KNOWN-FINDING: property=%s %s\n", o.property, k.c_str());
    double wall = mono() - t_start;
    if (!evidence.empty()) {
        FILE* f = fopen(evidence.c_str(), "w");
        if (f) {
            fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"%s\",\n", o.property,
                    p.thorough ? "thorough" : "quick", (unsigned long long)p.seed, o.level);
            fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": \"%s\",\n",
                    (unsigned long long)evals, distinct.size(), jesc(o.rule).c_str());
            fprintf(f, "  \"planned_cases\": %llu,\n  \"stopped_by_time_cap\": %s,\n  \"unreproduced_failures\": %d,\n",
                    (unsigned long long)p.total, capped ? "true" : "false", unrepro);
            fprintf(f, "  \"samples\": [");
            for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(samples[i]).c_str());
            fprintf(f, "\n  ],\n  \"classes\": {");
            bool first = true;
            for (auto& l : labels) { fprintf(f, "%s\n   \"%s\": %llu", first ? "" : ",", jesc(l.first).c_str(), (unsigned long long)l.second); first = false; }
            fprintf(f, "\n  }\n },\n \"assumptions\": [");
            for (size_t i = 0; i < o.assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(o.assumptions[i]).c_str());
            fprintf(f, "],\n \"violations\": [");
            if (!violation.empty()) fprintf(f, "{\"replay\": \"%s\", \"what\": \"%s\"}", jesc(violation).c_str(), jesc(viol_msg).c_str());
            fprintf(f, "],\n \"wall_s\": %.2f\n}\n", wall);
            fclose(f);
        }
    }
    rm_rf(g_scratch_root);
    if (verbose || violation.empty()) {
        printf("%s: %llu cases, %zu distinct non-trivial, %.1f s%s%s\n", o.property, (unsigned long long)evals, distinct.size(), wall,
               capped ? " (time cap)" : "", unrepro ? fmt(", %d unreproduced failure(s)", unrepro).c_str() : "");
        if (unrepro) printf("%s", unrepro_msgs.c_str());
        if (verbose) for (auto& l : labels) printf("   %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
    }
    if (!violation.empty()) {
        printf("%s\n%s\n", viol_msg.c_str(), viol_case.c_str());
        printf("VIOLATION property=%s replay=%s\n", o.property, violation.c_str());
        return 1;
    }
    return 0;
}
} // namespace pbt
