// TECHNIQUE: fault injection and mutation-based property testing: a save is cut short at a generated file operation (process stops, or the operation fails) and the session loaded back; session files are truncated and mutated at generated places; oracle: previous or new session in full, rejection of every truncation, bounded allocations, nothing left behind, no crash (AddressSanitizer)
// NOTE: The process that stops is a child process; its file operations are wrapped at link time and one of them, chosen by the generator, is performed in part and followed by an immediate exit. All files are in a scratch directory.
// SHIM: mq_shim.c
// LINK: -Wl,--wrap=fopen -Wl,--wrap=fwrite -Wl,--wrap=fclose -Wl,--wrap=fflush -Wl,--wrap=unlink -Wl,--wrap=remove -Wl,--wrap=rename -Wl,--wrap=fsync -Wl,--wrap=open -Wl,--wrap=write -Wl,--wrap=close -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
#include "tidy.hpp"
#include "mq.hpp"
#include "mcp.hpp"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <stdarg.h>
#include <sys/wait.h>
using namespace pbt;

static std::string g_dir;
static int g_mode;             // 0 off, 1 stop the process, 2 make the operation fail
static long g_at, g_count;     // operation to hit, operations seen
static unsigned g_part;        // how much of it is done, in 1/256
static int g_buf;              // stdio buffer size of files being written, 0 default
static bool g_track;
static size_t g_biggest;
static long g_balance;
static bool inside(const char* p) { return strncmp(p, g_dir.c_str(), g_dir.size()) == 0 && p[g_dir.size()] == '/' && !strchr(p + g_dir.size() + 1, '/'); }
static bool hit() { return g_mode && g_count++ == g_at; }
extern "C" {
FILE* __real_fopen(const char*, const char*);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __real_fclose(FILE*);
int __real_fflush(FILE*);
int __real_unlink(const char*);
int __real_remove(const char*);
int __real_rename(const char*, const char*);
int __real_fsync(int);
int __real_open(const char*, int, ...);
ssize_t __real_write(int, const void*, size_t);
int __real_close(int);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static void stop() { _exit(42); }
FILE* __wrap_fopen(const char* p, const char* m) {
    if (g_mode && !inside(p)) { errno = EACCES; return nullptr; }
    bool h = m[0] != 'r' && hit();
    if (h && g_mode == 2) { errno = ENOSPC; return nullptr; }
    if (h && g_part < 128) stop();
    FILE* f = __real_fopen(p, m);
    if (f && g_mode && m[0] != 'r' && g_buf) setvbuf(f, nullptr, _IOFBF, (size_t)g_buf);
    if (h) stop();
    return f;
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f) {
    if (f == stdout || f == stderr || !hit()) return __real_fwrite(p, s, n, f);
    size_t total = s * n, k = total * g_part / 256;
    __real_fwrite(p, 1, k, f);
    if (g_mode == 1) { if (g_part & 1) __real_fflush(f); stop(); }
    errno = ENOSPC;
    return s ? k / s : 0;
}
int __wrap_fclose(FILE* f) {
    if (!hit()) return __real_fclose(f);
    if (g_mode == 1) { if (g_part & 1) __real_fclose(f); stop(); }
    __real_fflush(f); // the last part cannot be written
    struct stat st;
    if (fstat(fileno(f), &st) == 0 && (fcntl(fileno(f), F_GETFL) & O_ACCMODE) != O_RDONLY && ftruncate(fileno(f), st.st_size * g_part / 256)) {}
    __real_fclose(f);
    errno = ENOSPC;
    return EOF;
}
int __wrap_fflush(FILE* f) {
    if (!f || f == stdout || f == stderr || !hit()) return __real_fflush(f);
    if (g_mode == 1) { if (g_part & 1) __real_fflush(f); stop(); }
    return EOF;
}
static bool gone(bool h) { if (h && g_mode == 2) { errno = EIO; return true; } if (h && g_part < 128) stop(); return false; }
int __wrap_unlink(const char* p) { if (g_mode && !inside(p)) return -1; bool h = hit(); if (gone(h)) return -1; int r = __real_unlink(p); if (h) stop(); return r; }
int __wrap_remove(const char* p) { if (g_mode && !inside(p)) return -1; bool h = hit(); if (gone(h)) return -1; int r = __real_remove(p); if (h) stop(); return r; }
int __wrap_rename(const char* a, const char* b) { if (g_mode && (!inside(a) || !inside(b))) return -1; bool h = hit(); if (gone(h)) return -1; int r = __real_rename(a, b); if (h) stop(); return r; }
int __wrap_fsync(int fd) { bool h = hit(); if (gone(h)) return -1; int r = __real_fsync(fd); if (h) stop(); return r; }
int __wrap_open(const char* p, int fl, ...) {
    mode_t m = 0;
    if (fl & O_CREAT) { va_list a; va_start(a, fl); m = (mode_t)va_arg(a, int); va_end(a); }
    bool h = (fl & O_ACCMODE) != O_RDONLY && hit();
    if (gone(h)) return -1;
    int r = __real_open(p, fl, m);
    if (h) stop();
    return r;
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (fd <= 2 || !hit()) return __real_write(fd, p, n);
    ssize_t r = __real_write(fd, p, n * g_part / 256);
    if (g_mode == 1) stop();
    return r;
}
int __wrap_close(int fd) { bool h = fd > 2 && hit(); if (h && g_mode == 1) stop(); return __real_close(fd); }
void* __wrap_malloc(size_t n) { if (g_track) { if (n > g_biggest) g_biggest = n; if (n > (1u << 30)) return nullptr; g_balance++; } return __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { if (g_track) { if (a * b > g_biggest) g_biggest = a * b; g_balance++; } return __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { if (g_track) { if (n > g_biggest) g_biggest = n; if (n > (1u << 30)) return nullptr; if (!p) g_balance++; } return __real_realloc(p, n); }
void __wrap_free(void* p) { if (g_track && p) g_balance--; __real_free(p); }
}
struct Store {
    Store() {
        g_mode = 0;
        g_dir = scratch_dir() + "/mq";
        mkdir(g_dir.c_str(), 0700);
        for (auto& f : files_in(g_dir)) __real_unlink(f.c_str());
        PBT_CHECK(mq_init(g_dir.c_str()) == 0, "init fails");
    }
    ~Store() { g_mode = 0; for (auto& f : files_in(g_dir)) __real_unlink(f.c_str()); }
};
static std::string load(const char* id) { // "" when refused
    Mq g(mq_new(0, 0, 0));
    int r = mq_load(id, g.get());
    if (r != 0) { PBT_CHECK(mq_is_empty(g.get()), "a refused load leaves data"); return ""; }
    return mq_text(g.get());
}
static Mq session(Case& c) { // one that does not expire during the case
    for (;;) { Mq s = gen_session(c); if (mq_text(s.get()).find("expiry 1 ") == std::string::npos && mq_text(s.get()).find("expiry 10 ") == std::string::npos) return s; }
}
static void interrupted(Case& c) {
    Store st;
    std::string id = c.ident(1, 8), other = id + c.pick({"1", "/", ".new", "x"});
    std::string prev;
    bool had = c.chance(4, 5);
    Mq a = session(c), b = session(c), o = session(c);
    PBT_CHECK(mq_save(other.c_str(), o.get()) == 0, "save fails");
    if (had) { PBT_CHECK(mq_save(id.c_str(), a.get()) == 0, "save fails"); prev = mq_text(a.get()); }
    std::string next = mq_text(b.get()), oth = mq_text(o.get());
    int mode = 1 + (int)c.draw(2);
    g_at = (long)c.draw(c.chance(1, 4) ? 6 : 60);
    if (c.chance(1, 3)) g_at = -1 - (long)c.draw(4); // counted from the end
    g_part = (unsigned)c.draw(256);
    g_buf = c.pick({0, 0, 16, 64, 512});
    bool touch = had && c.chance(1, 5); // the same for an update of the access time
    if (g_at < 0) { // find out how many operations there are
        g_count = 0;
        long back = -g_at;
        int p[2];
        PBT_CHECK(pipe(p) == 0, "pipe");
        pid_t pid = fork();
        if (pid == 0) {
            std::string keep = g_dir;
            g_at = 1000000000;
            g_mode = 1;
            if (touch) mq_touch(id.c_str()); else mq_save(id.c_str(), b.get());
            g_mode = 0;
            if (__real_write(p[1], &g_count, sizeof g_count) < 0) {}
            _exit(0);
        }
        close(p[1]);
        long n = 0;
        if (read(p[0], &n, sizeof n) != sizeof n) n = 1;
        close(p[0]);
        waitpid(pid, nullptr, 0);
        g_at = std::max(0l, n - back);
        // and start over
        for (auto& f : files_in(g_dir)) __real_unlink(f.c_str());
        PBT_CHECK(mq_save(other.c_str(), o.get()) == 0, "save fails");
        if (had) PBT_CHECK(mq_save(id.c_str(), a.get()) == 0, "save fails");
    }
    g_count = 0;
    int rc = -2;
    if (mode == 1) {
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            g_mode = 1;
            if (touch) mq_touch(id.c_str()); else mq_save(id.c_str(), b.get());
            _exit(0);
        }
        int stt = 0;
        waitpid(pid, &stt, 0);
        PBT_CHECK(WIFEXITED(stt) && (WEXITSTATUS(stt) == 42 || WEXITSTATUS(stt) == 0), "the saving process ended with status %x", stt);
        if (WEXITSTATUS(stt) == 0) rc = 0;
        c.label(rc == 0 ? "ran to the end" : "stopped");
        c.nontrivial(rc != 0);
    } else {
        g_mode = 2;
        rc = touch ? mq_touch(id.c_str()) : mq_save(id.c_str(), b.get());
        bool was = g_count > g_at;
        g_mode = 0;
        c.label(was ? "operation failed" : "ran to the end");
        c.nontrivial(was);
    }
    if (touch) next = prev;
    std::string got = load(id.c_str());
    c.note("%s at operation %ld of a save, part %u, buffer %d", mode == 1 ? "stop" : "failure", g_at, g_part, g_buf);
    if (rc == 0) PBT_CHECK(got == next, "a save that succeeded loads as %s", got.empty() ? "nothing" : got == prev ? "the previous session" : "something else");
    else PBT_CHECK(got == next || got == prev, "after %s during a save (operation %ld) the session loads as %s", mode == 1 ? "a stop" : "a failure", g_at, got.empty() ? "nothing" : "neither the previous nor the new session");
    PBT_CHECK(load(other.c_str()) == oth, "another client's session changed");
    // and saving works again
    PBT_CHECK(mq_save(id.c_str(), a.get()) == 0 && load(id.c_str()) == mq_text(a.get()), "saving does not work any more");
    PBT_CHECK(load(other.c_str()) == oth, "another client's session changed");
}
static std::string slurp(const std::string& f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const std::string& f, const std::string& d) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << d; }
// loads a file's content as a session, checking what may happen
static std::string try_load(const char* id, size_t size) {
    Mq g(mq_new(0, 0, 0));
    g_track = true;
    g_biggest = 0;
    g_balance = 0;
    int r = mq_load(id, g.get());
    g_track = false;
    PBT_CHECK(g_biggest <= size + (1u << 20), "loading a file of %zu bytes allocates %zu bytes at once", size, g_biggest);
    if (r != 0) {
        PBT_CHECK(mq_is_empty(g.get()), "a refused load leaves data");
        PBT_CHECK(g_balance <= 0, "a refused load leaves %ld allocations", g_balance);
        return "";
    }
    return mq_text(g.get()); // reads all of it
}
static void damaged(Case& c) {
    Store st;
    std::string id = c.ident(1, 8);
    Mq s = session(c);
    PBT_CHECK(mq_save(id.c_str(), s.get()) == 0, "save fails");
    std::vector<std::string> f = files_in(g_dir);
    PBT_CHECK(f.size() == 1, "one session makes %zu files", f.size());
    std::string good = slurp(f[0]), text = mq_text(s.get());
    size_t rejected = 0, accepted = 0;
    PBT_CHECK(try_load(id.c_str(), good.size()) == text, "the session does not load as saved");
    // truncations: all of the small ones
    std::vector<size_t> cut;
    if (good.size() < 120) for (size_t i = 0; i < good.size(); i++) cut.push_back(i);
    else for (size_t i = 0; i < 24; i++) cut.push_back(i < 12 ? c.draw(good.size()) : good.size() - 1 - c.draw(60));
    for (size_t n : cut) {
        spit(f[0], good.substr(0, n));
        std::string t = try_load(id.c_str(), n);
        PBT_CHECK(t.empty(), "a session file cut to %zu of %zu bytes loads as\n%s\ninstead of\n%s", n, good.size(), esc(t.substr(0, 300)).c_str(), esc(text.substr(0, 300)).c_str());
        rejected++;
    }
    // alterations
    for (size_t q = 0, k = 4 + c.draw(12); q < k; q++) {
        std::string bad = good;
        for (size_t e = 0, ne = 1 + c.draw(3); e < ne && !bad.empty(); e++) {
            size_t at = c.draw(bad.size());
            switch (c.draw(6)) {
            case 0: bad[at] = (char)c.draw(256); break;
            case 1: bad[at] = (char)(bad[at] ^ (1 << c.draw(8))); break;
            case 2: for (size_t i = at; i < bad.size() && i < at + 1 + c.draw(8); i++) bad[i] = (char)0xFF; break;
            case 3: bad.erase(at, 1 + c.draw(8)); break;
            case 4: bad.insert(at, c.bytes(12)); break;
            default: for (size_t i = at; i < bad.size() && i < at + 4; i++) bad[i] = 0; break;
            }
        }
        spit(f[0], bad);
        std::string t = try_load(id.c_str(), bad.size());
        (t.empty() ? rejected : accepted)++;
        if (access(f[0].c_str(), F_OK) != 0) c.label("removed as expired");
        mq_expired(id.c_str());
        uint64_t x, y;
        uint32_t z;
        mq_info(id.c_str(), &x, &y, &z);
    }
    // another client's file in this one's place
    std::string other = id + "x";
    PBT_CHECK(mq_save(other.c_str(), s.get()) == 0, "save fails");
    std::string of;
    for (auto& p : files_in(g_dir)) if (p != f[0]) of = p;
    PBT_CHECK(!of.empty(), "two clients share a session file");
    spit(f[0], slurp(of));
    PBT_CHECK(try_load(id.c_str(), good.size() + 1).empty(), "the session of %s loads for %s", other.c_str(), id.c_str());
    // and a good save repairs everything
    PBT_CHECK(mq_save(id.c_str(), s.get()) == 0 && try_load(id.c_str(), good.size()) == text, "saving over a damaged file does not help");
    c.nontrivial(good.size() > 60);
    c.note("%zu bytes, %zu rejected, %zu read", good.size(), rejected, accepted);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P38";
    o.rule = "interrupted: the chosen file operation was reached; damaged: a session file of more than 60 bytes";
    o.assumptions = {"the process stops, not the machine: what was written before stays written", "the save uses the C library's file functions"};
    o.worker_init = [] { quiet_logs(); };
    o.tests = {{"interrupted", tidy<interrupted>, 4000, 40000, 30, 200}, {"damaged", tidy<damaged>, 2500, 25000, 30, 200}};
    return run(argc, argv, o);
}
