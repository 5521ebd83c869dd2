// TECHNIQUE: randomised concurrent histories of submissions, waits, resizes and shutdown, checked against exactly-once accounting
// NOTE: Schedules are sampled, not enumerated; a hang is reported after a generous per-case limit.
#include "mcp.hpp"
extern "C" {
#include "mcp_thread_pool.h"
}
using namespace pbt;

struct World;
struct Job { World* w; uint32_t id; std::atomic<int> runs{0}, accepted{0}; uint32_t kind = 0; Job* child = nullptr; uint64_t cookie = 0; };
struct World {
    mcp_thread_pool_t* pool = nullptr;
    std::vector<std::unique_ptr<Job>> jobs;
    std::atomic<size_t> ok{0}, no{0};
    std::mutex gm; std::condition_variable gc; bool gate = false;
    std::atomic<int> held{0};
};
static void run_job(void* a) {
    Job* j = (Job*)a;
    if (j->cookie != 0xC0FFEE00ull + j->id) fail("a task ran with a wrong argument");
    switch (j->kind % 8) {
    case 1: sched_yield(); break;
    case 2: usleep(30 + j->id % 200); break;
    case 3: { j->w->held++; std::unique_lock<std::mutex> l(j->w->gm); j->w->gc.wait(l, [&] { return j->w->gate; }); break; }
    case 4: for (volatile int i = 0; i < 2000; i = i + 1) {} break;
    }
    if (j->child) { // a task may submit; it is accepted or refused like any other
        int r = mcp_thread_pool_add_task(j->w->pool, run_job, j->child);
        j->child->accepted = r == 0 ? 1 : -1;
        (r == 0 ? j->w->ok : j->w->no)++;
    }
    if (++j->runs != 1) fail("a task ran %d times", j->runs.load());
}
static void submit(World& w, Job* j) {
    int r = mcp_thread_pool_add_task(w.pool, run_job, j);
    if (r != 0 && r != -1) fail("add_task returned %d", r);
    j->accepted = r == 0 ? 1 : -1;
    (r == 0 ? w.ok : w.no)++;
}
static Job* mk(World& w, uint32_t kind, bool child) {
    auto add = [&](uint32_t k) { w.jobs.emplace_back(new Job); Job* j = w.jobs.back().get(); j->w = &w; j->id = (uint32_t)w.jobs.size() - 1; j->kind = k; j->cookie = 0xC0FFEE00ull + j->id; return j; };
    Job* j = add(kind);
    if (child) { Job* k = add(kind % 3); j->child = k; }
    return j;
}
static void settle(World& w) { // after shutdown: exactly the accepted tasks have run, once
    for (auto& j : w.jobs) {
        int a = j->accepted, r = j->runs;
        if (a == 1 && r != 1) fail("task %u was accepted and ran %d times", j->id, r);
        if (a == -1 && r != 0) fail("task %u was refused and ran %d times", j->id, r);
        if (a == 0 && r != 0) fail("task %u was never submitted and ran", j->id);
    }
}
static void history(Case& c) {
    World w;
    size_t threads = 1 + c.draw(8), queue = 1 + (size_t)c.small(0, 80), subs = 1 + c.draw(4);
    unsigned per = 1 + (unsigned)c.draw(10 + c.size() * 2);
    w.pool = mcp_thread_pool_create(threads, queue);
    PBT_CHECK(w.pool, "pool refused");
    PBT_CHECK(mcp_thread_pool_get_thread_count(w.pool) == threads, "%zu threads asked for, %zu reported", threads, mcp_thread_pool_get_thread_count(w.pool));
    struct Step { int op; Job* j; unsigned arg; };
    std::vector<std::vector<Step>> plan(subs);
    unsigned kinds = (unsigned)c.draw(4), children = c.chance(1, 4) ? 5 : 0;
    for (auto& p : plan) for (unsigned i = 0; i < per; i++) {
        unsigned k = (unsigned)c.draw(40);
        if (k == 0) p.push_back({1, nullptr, 0});
        else if (k == 1) p.push_back({2, nullptr, (unsigned)c.draw(300)});
        else p.push_back({0, mk(w, kinds == 0 ? 0 : (uint32_t)c.pick({0, 1, 2, 4}), children && c.draw(children) == 0), 0});
    }
    std::vector<unsigned> sizes;
    if (threads > 1 && c.chance(1, 3)) for (unsigned i = 1 + (unsigned)c.draw(6); i; i--) sizes.push_back(1 + (unsigned)c.draw(threads + 1));
    bool final_wait = c.flip(), wait_first = c.flip();
    c.note("%zu workers, queue %zu, %zu submitters x %u steps%s%s", threads, queue, subs, per, children ? ", tasks submit tasks" : "", sizes.empty() ? "" : ", resized");
    for (auto s : sizes) c.note("resize to %u", s);
    c.nontrivial(per > 3);
    std::atomic<bool> go{false};
    std::vector<std::thread> th;
    for (auto& p : plan) th.emplace_back([&w, &p, &go] {
        while (!go) sched_yield();
        std::vector<Job*> mine;
        for (auto& s : p) {
            if (s.op == 0) { submit(w, s.j); mine.push_back(s.j); }
            else if (s.op == 1) {
                if (mcp_thread_pool_wait(w.pool, 0) != 0) fail("an unlimited wait failed");
                for (auto j : mine) if (j->accepted == 1 && j->runs != 1) fail("wait returned although task %u submitted before it had run %d times", j->id, j->runs.load());
            } else usleep(s.arg);
        }
    });
    go = true;
    for (auto s : sizes) {
        PBT_CHECK(mcp_thread_pool_resize(w.pool, s) == 0, "resize failed");
        size_t want = std::min<size_t>(std::max(s, 2u), threads), n = mcp_thread_pool_get_thread_count(w.pool);
        PBT_CHECK(n == want || (s == 1 && n == 1), "resized to %u of %zu, %zu threads reported", s, threads, n);
        usleep(50);
    }
    for (auto& t : th) t.join();
    if (final_wait) {
        // a task may submit another while this waits, so wait until the tasks that existed are done
        if (wait_first && mcp_thread_pool_wait(w.pool, 25000) != 0) fail("wait of 25 s timed out");
        PBT_CHECK(mcp_thread_pool_wait(w.pool, 0) == 0, "an unlimited wait failed");
        for (auto& j : w.jobs) if (j->accepted == 1 && j->runs != 1 && !children) fail("wait returned although task %u had run %d times", j->id, j->runs.load());
        if (!children) {
            size_t sub, com, fai, act;
            PBT_CHECK(mcp_thread_pool_get_stats(w.pool, &sub, &com, &fai, &act) == 0, "stats failed");
            PBT_CHECK(sub == w.ok && com == w.ok && fai == w.no, "stats: submitted %zu, completed %zu, failed %zu; %zu accepted, %zu refused", sub, com, fai, w.ok.load(), w.no.load());
        }
    }
    PBT_CHECK(mcp_thread_pool_destroy(w.pool) == 0, "destroy failed");
    settle(w);
    if (w.no) c.label("history: some submissions refused");
    if (!sizes.empty()) c.label("history: pool resized");
    if (children) c.label("history: tasks submit tasks");
}
// Workers held at a gate while the queues fill: what is refused never runs, what is accepted does.
static void full(Case& c) {
    World w;
    size_t threads = 1 + c.draw(6), queue = 1 + (size_t)c.small(0, 40), over = 1 + c.draw(60);
    w.pool = mcp_thread_pool_create(threads, queue);
    PBT_CHECK(w.pool, "pool refused");
    for (size_t i = 0; i < threads; i++) { // a worker may need a moment to take its blocker
        Job* j = mk(w, 3, false);
        do { submit(w, j); if (j->accepted == -1) { w.no--; usleep(100); } } while (j->accepted == -1);
        while (w.held < (int)i + 1) usleep(20);
    }
    size_t cap = 1;
    while (cap < queue) cap <<= 1;
    size_t n = threads * cap + over, ok = 0;
    bool shrink = threads > 2 && c.chance(1, 3);
    for (size_t i = 0; i < n; i++) { Job* j = mk(w, (uint32_t)c.draw(3), false); submit(w, j); ok += j->accepted == 1; }
    PBT_CHECK(ok >= queue, "only %zu tasks accepted with a queue size of %zu", ok, queue);
    c.note("%zu workers, queue %zu: %zu of %zu accepted while all workers are busy%s", threads, queue, ok, n, shrink ? ", then shrunk" : "");
    c.nontrivial(ok < n);
    if (shrink) PBT_CHECK(mcp_thread_pool_resize(w.pool, 2) == 0, "resize failed");
    int r = mcp_thread_pool_wait(w.pool, 20);
    PBT_CHECK(r == -1, "wait reports completion while %zu tasks are held at a gate", threads);
    { std::lock_guard<std::mutex> l(w.gm); w.gate = true; w.gc.notify_all(); }
    if (c.flip()) {
        PBT_CHECK(mcp_thread_pool_wait(w.pool, 0) == 0, "an unlimited wait failed");
        for (auto& j : w.jobs) if (j->accepted == 1 && j->runs != 1) fail("wait returned although task %u had run %d times", j->id, j->runs.load());
    }
    PBT_CHECK(mcp_thread_pool_destroy(w.pool) == 0, "destroy failed");
    settle(w);
    if (ok < n) c.label("full: some submissions refused");
}
// Create and destroy at once: nothing is lost however early or late the workers come up.
static void brief(Case& c) {
    World w;
    size_t threads = 1 + c.draw(8), n = c.draw(12);
    for (size_t i = 0; i < n; i++) mk(w, 0, false);
    size_t spin = c.draw(2000);
    w.pool = mcp_thread_pool_create(threads, 16);
    PBT_CHECK(w.pool, "pool refused");
    for (auto& j : w.jobs) submit(w, j.get());
    for (volatile size_t i = 0; i < spin; i = i + 1) {}
    PBT_CHECK(mcp_thread_pool_destroy(w.pool) == 0, "destroy failed");
    for (auto& j : w.jobs) PBT_CHECK(j->accepted == 1, "refused although the queue has room");
    settle(w);
    c.note("%zu workers, %zu tasks", threads, n);
    c.nontrivial(n > 0);
}
int main(int argc, char** argv) {
    Options o;
    o.property = "P30";
    o.rule = "history: more than three steps per submitter; full: at least one submission refused; brief: at least one task";
    o.worker_init = [] { quiet_logs(); };
    Test h{"history", history, 3000, 30000}, f{"full", full, 600, 6000}, b{"brief", brief, 2000, 20000};
    for (Test* t : {&h, &f, &b}) { t->tries = 60; t->batch = 50; t->case_timeout = 60; }

    o.tests = {h, f, b};
    o.assumptions = {"no thread outside the pool uses it once destroy has been called", "a case that makes no progress for a minute counts as stuck"};
    return run(argc, argv, o);
}
