// TECHNIQUE: property-based testing: lock-state model stepped across threads, randomised concurrent histories with invariants, timed-wait oracle on the monotonic clock
// NOTE: Schedules are sampled, not enumerated; lateness is only judged beyond several seconds so that a loaded machine raises no alarm.
#include "mcp.hpp"
extern "C" {
#include "mcp_sync.h"
#include "mcp_rwlock.h"
#include "mcp_thread_local.h"
#include "mcp_memory_pool.h"
}
using namespace pbt;
using Clock = std::chrono::steady_clock;
static double ms_since(Clock::time_point t) { return std::chrono::duration<double, std::milli>(Clock::now() - t).count(); }

// One logical thread, stepped by the test: runs a closure and hands back its result.
struct Stepper {
    std::mutex m; std::condition_variable cv; std::function<long()> f; bool has = false, done = false, quit = false; long r = 0;
    std::thread t{[this] {
        std::unique_lock<std::mutex> l(m);
        for (;;) {
            cv.wait(l, [this] { return has || quit; });
            if (quit && !has) return;
            has = false;
            auto g = f;
            l.unlock(); long x = g(); l.lock();
            r = x; done = true; cv.notify_all();
        }
    }};
    long run(std::function<long()> g) {
        std::unique_lock<std::mutex> l(m);
        f = g; has = true; done = false; cv.notify_all();
        cv.wait(l, [this] { return done; });
        return r;
    }
    ~Stepper() { { std::lock_guard<std::mutex> l(m); quit = true; cv.notify_all(); } t.join(); }
};

// Sequentially stepped threads: which non-blocking attempts succeed is fully determined.
static void stepped(Case& c) {
    if (c.flip()) mcp_memory_pool_system_init(2, 2, 2);
    size_t n = 2 + c.draw(3);
    std::vector<std::unique_ptr<Stepper>> th;
    for (size_t i = 0; i < n; i++) th.emplace_back(new Stepper);
    mcp_rwlock_t* rw = mcp_rwlock_create();
    mcp_spinlock_t* sp = mcp_spinlock_create();
    std::vector<int> reads(n, 0);
    int writer = -1, spin = -1, refused = 0, steps = 1 + (int)c.draw(10 + c.size() / 2);
    for (int s = 0; s < steps; s++) {
        size_t k = c.draw(n);
        int readers = 0;
        for (int r : reads) readers += r;
        switch (c.draw(7)) {
        case 0: {
            bool ok = th[k]->run([&] { return mcp_rwlock_try_read_lock(rw); });
            c.note("%zu try read: %d", k, ok);
            PBT_CHECK(ok == (writer < 0), "try-read is %d with writer %d and %d readers", ok, writer, readers);
            if (ok) reads[k]++; else refused++;
            break;
        }
        case 1: {
            bool ok = th[k]->run([&] { return mcp_rwlock_try_write_lock(rw); });
            c.note("%zu try write: %d", k, ok);
            PBT_CHECK(ok == (writer < 0 && !readers), "try-write is %d with writer %d and %d readers", ok, writer, readers);
            if (ok) writer = (int)k; else refused++;
            break;
        }
        case 2: // blocking forms where they cannot block
            if (writer < 0) { PBT_CHECK(th[k]->run([&] { return mcp_rwlock_read_lock(rw); }), "read lock failed"); reads[k]++; c.note("%zu read", k); }
            break;
        case 3:
            if (writer < 0 && !readers) { PBT_CHECK(th[k]->run([&] { return mcp_rwlock_write_lock(rw); }), "write lock failed"); writer = (int)k; c.note("%zu write", k); }
            break;
        case 4:
            if (writer == (int)k) { PBT_CHECK(th[k]->run([&] { return mcp_rwlock_write_unlock(rw); }), "write unlock failed"); writer = -1; c.note("%zu write unlock", k); }
            else if (reads[k]) { PBT_CHECK(th[k]->run([&] { return mcp_rwlock_read_unlock(rw); }), "read unlock failed"); reads[k]--; c.note("%zu read unlock", k); }
            break;
        case 5: {
            int r = (int)th[k]->run([&] { return mcp_spinlock_trylock(sp); });
            c.note("%zu try spin: %d", k, r);
            PBT_CHECK((r == 0) == (spin < 0), "spin trylock gives %d, holder %d", r, spin);
            if (r == 0) spin = (int)k; else refused++;
            break;
        }
        default:
            if (spin == (int)k) { PBT_CHECK(th[k]->run([&] { return mcp_spinlock_unlock(sp); }) == 0, "spin unlock"); spin = -1; c.note("%zu spin unlock", k); }
        }
    }
    c.nontrivial(refused > 0);
    for (size_t k = 0; k < n; k++) {
        while (reads[k]--) th[k]->run([&] { return mcp_rwlock_read_unlock(rw); });
        if (writer == (int)k) th[k]->run([&] { return mcp_rwlock_write_unlock(rw); });
    }
    th.clear();
    mcp_rwlock_free(rw);
    mcp_spinlock_destroy(sp);
    mcp_memory_pool_system_cleanup();
}
static void exclusion(Case& c) {
    int kind = (int)c.draw(4); // mutex, recursive mutex, spin lock, rwlock
    size_t n = 2 + c.draw(5), ops = 50 + c.draw(300);
    uint64_t seed = c.draw(1ull << 60);
    const char* names[] = {"mutex", "recursive mutex", "spin lock", "read-write lock"};
    c.label(names[kind]);
    c.note("%s, %zu threads, %zu rounds", names[kind], n, ops);
    c.nontrivial();
    mcp_mutex_t* m = kind == 0 ? mcp_mutex_create() : kind == 1 ? mcp_recursive_mutex_create() : nullptr;
    mcp_spinlock_t* sp = mcp_spinlock_create();
    mcp_rwlock_t* rw = mcp_rwlock_create();
    std::atomic<int> writers{0}, readers{0};
    volatile uint64_t a = 0, b = 0; // only kept equal by the lock
    std::atomic<uint64_t> writes{0};
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++) th.emplace_back([&, t] {
        uint64_t r = seed + t * 7919;
        auto rnd = [&](uint64_t k) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (r >> 33) % k; };
        while (!go) {}
        for (size_t i = 0; i < ops; i++) {
            bool read = kind == 3 && rnd(3) > 0;
            size_t depth = kind == 1 ? 1 + rnd(4) : 1;
            for (size_t d = 0; d < depth; d++) {
                if (kind <= 1) { if (mcp_mutex_lock(m)) fail("lock failed"); }
                else if (kind == 2) { if (rnd(4) == 0) { while (mcp_spinlock_trylock(sp)) sched_yield(); } else mcp_spinlock_lock(sp); }
                else if (read) { if (rnd(4) == 0) { while (!mcp_rwlock_try_read_lock(rw)) sched_yield(); } else if (!mcp_rwlock_read_lock(rw)) fail("read lock failed"); }
                else { if (rnd(4) == 0) { while (!mcp_rwlock_try_write_lock(rw)) sched_yield(); } else if (!mcp_rwlock_write_lock(rw)) fail("write lock failed"); }
            }
            size_t inner = kind == 1 ? rnd(depth) : 0; // release some levels early: still held
            for (size_t d = 0; d < inner; d++) mcp_mutex_unlock(m);
            if (read) {
                readers++;
                if (writers) fail("a reader and a writer are inside together");
                if (a != b) fail("a reader sees a half-made change");
                if (rnd(4) == 0) sched_yield();
                if (writers) fail("a reader and a writer are inside together");
                readers--;
            } else {
                if (writers.fetch_add(1)) fail("two holders are inside together");
                if (readers) fail("a reader and a writer are inside together");
                a = a + 1;
                if (rnd(4) == 0) sched_yield();
                b = b + 1;
                if (writers.fetch_sub(1) != 1) fail("two holders are inside together");
                writes++;
            }
            for (size_t d = inner; d < depth; d++) {
                if (kind <= 1) mcp_mutex_unlock(m);
                else if (kind == 2) mcp_spinlock_unlock(sp);
                else if (read) mcp_rwlock_read_unlock(rw);
                else mcp_rwlock_write_unlock(rw);
            }
        }
    });
    go = true;
    for (auto& t : th) t.join();
    PBT_CHECK(a == writes && b == writes, "%lu protected increments gave %lu and %lu", (unsigned long)writes, (unsigned long)a, (unsigned long)b);
    mcp_mutex_destroy(m);
    mcp_spinlock_destroy(sp);
    mcp_rwlock_free(rw);
}
// Waiters with random timeouts; some are signalled, the others must time out, no sooner than asked.
static void timed(Case& c) {
    size_t n = 1 + c.draw(12);
    struct W { uint32_t timeout; int wake_after; int result = 99; double took = 0, signalled_at = -1; };
    std::vector<W> w(n);
    size_t wakes = 0;
    for (auto& x : w) {
        x.wake_after = -1;
        switch (c.draw(4)) {
        case 0: x.timeout = (uint32_t)c.draw(30); break;
        case 1: x.timeout = 1 + (uint32_t)c.draw(120); break;
        case 2: x.timeout = c.pick({0u, 1u, 200u}); break;
        default: x.timeout = c.pick({15000u, 60000u, 999999u, 2147483648u, 4294967295u}); x.wake_after = (int)c.draw(60); wakes++;
        }
        if (x.timeout >= 15000) c.note("timeout %u ms, signalled after %d ms", x.timeout, x.wake_after); else c.note("timeout %u ms", x.timeout);
    }
    if (c.draw(12) == 0) w[0] = {950 + (uint32_t)c.draw(200), -1};
    c.nontrivial();
    std::vector<std::thread> th;
    for (auto& x : w) th.emplace_back([&x] {
        mcp_mutex_t* m = mcp_mutex_create();
        mcp_cond_t* cv = mcp_cond_create();
        bool flag = false;
        std::thread sig;
        auto t0 = Clock::now();
        if (x.wake_after >= 0) sig = std::thread([&] {
            usleep((useconds_t)x.wake_after * 1000);
            mcp_mutex_lock(m); flag = true; x.signalled_at = ms_since(t0); mcp_cond_signal(cv); mcp_mutex_unlock(m);
        });
        mcp_mutex_lock(m);
        do x.result = mcp_cond_timedwait(cv, m, x.timeout); while (x.result == 0 && !flag && x.wake_after >= 0);
        x.took = ms_since(t0);
        bool f = flag;
        mcp_mutex_unlock(m);
        if (sig.joinable()) sig.join();
        if (x.wake_after >= 0) {
            if (x.result != 0 || !f) fail("a wait of up to %u ms ended with %d after %.1f ms without a signal", x.timeout, x.result, x.took);
            if (x.took - x.signalled_at > 10000) fail("signalled at %.0f ms, woke at %.0f ms", x.signalled_at, x.took);
        } else {
            if (x.result != -2) fail("a wait nobody signals ended with %d instead of a timeout after %.2f ms of %u", x.result, x.took, x.timeout);
            if (x.took + 0.5 < x.timeout) fail("timeout of %u ms reported after %.2f ms", x.timeout, x.took);
            if (x.took > x.timeout + 10000.0) fail("timeout of %u ms reported after %.0f ms", x.timeout, x.took);
        }
        mcp_cond_destroy(cv);
        mcp_mutex_destroy(m);
    });
    for (auto& t : th) t.join();
    if (wakes) c.label("timed: some waiters signalled");
}
// Tokens passed through a condition variable: each token is consumed once and nobody stays asleep.
static void tokens(Case& c) {
    size_t prod = 1 + c.draw(3), cons = 1 + c.draw(4), each = 1 + c.draw(150), total = prod * each;
    bool bcast = c.flip(), timedw = c.flip(), both = c.flip();
    uint64_t seed = c.draw(1ull << 60);
    c.note("%zu producers x %zu tokens, %zu consumers, %s, %s", prod, each, cons, bcast ? "broadcast" : "signal", timedw ? "timed waits" : "waits");
    c.nontrivial();
    mcp_mutex_t* m = mcp_mutex_create();
    mcp_cond_t* cv = mcp_cond_create();
    std::deque<size_t> q;
    size_t taken = 0;
    std::vector<int> seen(total, 0);
    std::vector<mcp_thread_t> th;
    std::vector<std::function<void()>> body;
    struct A { std::function<void()>* f; size_t id; };
    std::vector<A> args;
    for (size_t p = 0; p < prod; p++) body.push_back([&, p] {
        uint64_t r = seed + p * 31;
        for (size_t i = 0; i < each; i++) {
            r = r * 6364136223846793005ull + 1442695040888963407ull;
            if ((r >> 40) % 16 == 0) usleep((r >> 50) % 200);
            mcp_mutex_lock(m);
            q.push_back(p * each + i);
            if (!both) mcp_mutex_unlock(m);
            if (bcast) mcp_cond_broadcast(cv); else mcp_cond_signal(cv);
            if (both) mcp_mutex_unlock(m);
        }
    });
    for (size_t k = 0; k < cons; k++) body.push_back([&] {
        mcp_mutex_lock(m);
        for (;;) {
            while (q.empty() && taken < total) {
                if (timedw) {
                    int r = mcp_cond_timedwait(cv, m, 20000);
                    if (r == -2 && (!q.empty() || taken >= total)) fail("a consumer was not woken although tokens arrived");
                    if (r == -1) fail("timed wait failed");
                } else if (mcp_cond_wait(cv, m)) fail("wait failed");
            }
            if (q.empty()) break;
            seen[q.front()]++;
            q.pop_front();
            if (++taken == total) mcp_cond_broadcast(cv);
        }
        mcp_mutex_unlock(m);
    });
    for (size_t i = 0; i < body.size(); i++) args.push_back({&body[i], i});
    th.resize(body.size());
    for (size_t i = 0; i < body.size(); i++)
        PBT_CHECK(mcp_thread_create(&th[i], [](void* a) -> void* { (*((A*)a)->f)(); return a; }, &args[i]) == 0, "thread creation failed");
    for (size_t i = 0; i < body.size(); i++) {
        void* rv = nullptr;
        PBT_CHECK(mcp_thread_join(th[i], &rv) == 0 && rv == &args[i], "join does not give back the thread's result");
    }
    for (size_t i = 0; i < total; i++) PBT_CHECK(seen[i] == 1, "token %zu consumed %d times", i, seen[i]);
    mcp_cond_destroy(cv);
    mcp_mutex_destroy(m);
}
static std::mutex g_dm;
static std::vector<void*> g_destroyed;
static void tls(Case& c) {
    size_t nk = 1 + c.draw(4), n = 2 + c.draw(4), ops = 20 + c.draw(100);
    uint64_t seed = c.draw(1ull << 60);
    c.note("%zu keys, %zu threads, %zu operations each", nk, n, ops);
    c.nontrivial();
    { std::lock_guard<std::mutex> g(g_dm); g_destroyed.clear(); }
    std::vector<mcp_tls_key_t*> keys;
    for (size_t i = 0; i < nk; i++) keys.push_back(mcp_tls_key_create(i % 2 ? nullptr : [](void* v) { std::lock_guard<std::mutex> g(g_dm); g_destroyed.push_back(v); }));
    std::vector<std::vector<void*>> last(n, std::vector<void*>(nk, nullptr));
    std::vector<std::thread> th;
    for (size_t t = 0; t < n; t++) th.emplace_back([&, t] {
        uint64_t r = seed + t * 7919;
        auto rnd = [&](uint64_t k) { r = r * 6364136223846793005ull + 1442695040888963407ull; return (r >> 33) % k; };
        std::vector<std::pair<uint8_t*, size_t>> mem;
        for (size_t i = 0; i < ops; i++) {
            size_t k = rnd(nk);
            if (mcp_tls_get(keys[k]) != last[t][k]) fail("thread %zu sees %p under key %zu, it stored %p", t, mcp_tls_get(keys[k]), k, last[t][k]);
            if (rnd(2)) { void* v = rnd(5) ? (void*)(0x1000 + ((uintptr_t)t << 20) + i * 8) : nullptr; if (mcp_tls_set(keys[k], v)) fail("set failed"); last[t][k] = v; }
            if (rnd(4) == 0) { // the thread's own arena
                if (rnd(12) == 0) { mcp_arena_reset_current_thread(); mem.clear(); }
                size_t sz = 1 + rnd(300);
                uint8_t* p = (uint8_t*)mcp_arena_alloc(nullptr, sz);
                if (!p) fail("thread arena allocation failed");
                memset(p, (int)t + 1, sz);
                mem.push_back({p, sz});
            }
            if (rnd(8) == 0) sched_yield();
        }
        for (auto& x : mem) for (size_t i = 0; i < x.second; i++) if (x.first[i] != (uint8_t)(t + 1)) fail("memory from one thread's arena was written by another");
        mcp_arena_destroy_current_thread();
    });
    for (auto& t : th) t.join();
    std::multiset<void*> want, got(g_destroyed.begin(), g_destroyed.end());
    for (size_t t = 0; t < n; t++) for (size_t k = 0; k < nk; k += 2) if (last[t][k]) want.insert(last[t][k]);
    PBT_CHECK(want == got, "%zu values left at thread exit, %zu destructor calls", want.size(), got.size());
    for (auto k : keys) mcp_tls_key_destroy(k);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P35";
    o.rule = "stepped: an attempt was refused; concurrent histories: every case (at least two threads); timed: every case";
    o.worker_init = [] { quiet_logs(); };
    Test e{"exclusion", exclusion, 12000, 120000}, t{"timed", timed, 400, 4000}, k{"tokens", tokens, 10000, 100000}, l{"tls", tls, 10000, 100000};
    e.tries = k.tries = l.tries = 30;
    e.batch = k.batch = l.batch = 100;
    t.batch = 20;
    t.case_timeout = k.case_timeout = 60;
    o.tests = {{"stepped", stepped, 20000, 200000}, e, t, k, l};
    o.assumptions = {"a wake-up more than ten seconds late counts as lost; less is not judged"};
    return run(argc, argv, o);
}
