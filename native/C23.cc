// LINK: ThreadPool.cc string_util.cc cat.cc
#include "oracle.h"
#include <thread>
#include <atomic>
#include <algorithm>
#include <gul14/ThreadPool.h>
using namespace std::chrono;
using gul14::TaskState; using H = gul14::ThreadPool::TaskHandle<int>;
// a pool with one worker held by a gate: the queue is under the control of the driver
void gated(Src& r) {
    size_t cap = 1 + r.pick(4); std::string h = "capacity=" + std::to_string(cap) + " ops=";
    std::atomic<bool> go{false}, held{false}; std::vector<int> ran;   // only the worker writes
    struct T { int id; H h; int st; bool thr; std::string name; };    // st: 0 queued, 1 canceled, 3 later
    std::vector<T> ts; auto p = gul14::make_thread_pool(1, cap);
    expect_eq(p->count_threads(), size_t(1), "count_threads"); expect_eq(p->capacity(), cap, "capacity");
    auto gate = p->add_task([&] { held = true; while (!go) std::this_thread::yield(); return 7; }, "gate");
    while (!held) std::this_thread::yield();
    expect(gate.get_state() == TaskState::running, "gate running"); expect(p->get_running_task_names() == std::vector<std::string>{ "gate" }, "names of running tasks");
    auto far = system_clock::now() + hours(1000);
    size_t n = r.en ? 4 : r.pick(10);
    for (size_t i = 0; i < n; ++i) {
        size_t op = r.pick(r.en ? 4 : 7); h += std::to_string(op); case_is(h);
        size_t q = 0; for (auto& t : ts) q += t.st == 0 || t.st == 3;
        if (op <= 1 || op == 4) {
            int id = int(ts.size()); std::string nm = "t" + std::to_string(id); bool thr = r.flag(), late = op == 1;
            auto f = [&ran, id, thr](gul14::ThreadPool&) -> int { ran.push_back(id); if (thr) throw 5; return id * 3; };
            bool full = q >= cap; expect_eq(p->is_full(), full, "is_full");
            try { H x = late ? p->add_task(f, far, nm) : op == 4 ? p->add_task(f, nm) : p->add_task(f, seconds(-5), nm);
                  expect(!full, "task added to a full queue"); ts.push_back(T{ id, std::move(x), late ? 3 : 0, thr, nm }); }
            catch (const std::runtime_error&) { expect(full, "add_task refused although the queue is not full"); }
        } else if (op == 2 && !ts.empty()) {
            T& t = ts[r.pick(ts.size())]; bool e = t.st == 0 || t.st == 3;
            expect_eq(t.h.cancel(), e, "cancel()"); if (e) t.st = 1;
        } else if (op == 3) { expect_eq(p->cancel_pending_tasks(), q, "cancel_pending_tasks()"); for (auto& t : ts) if (t.st == 0 || t.st == 3) t.st = 1; }
        else if (op == 5) { expect(!gate.cancel(), "cancel of a running task"); expect(!gate.is_complete(), "gate complete"); }
        std::vector<std::string> pn; for (auto& t : ts) if (t.st == 0 || t.st == 3) pn.push_back(t.name);
        expect(p->get_pending_task_names() == pn, "names of pending tasks"); expect_eq(p->count_pending(), pn.size(), "count_pending"); expect(!p->is_idle(), "idle while a task runs");
        for (auto& t : ts) { expect(t.h.get_state() == (t.st == 1 ? TaskState::canceled : TaskState::pending), "state of a task that has not been started"); expect(!t.h.is_complete(), "complete before it was started"); }
    }
    go = true;
    if (gate.get_result() != 7) expect(false, "result");
    std::vector<int> want; for (auto& t : ts) if (t.st == 0) { want.push_back(t.id); if (t.thr) { try { t.h.get_result(); expect(false, "exception lost"); } catch (int e) { expect(e == 5, "exception"); } } else expect_eq(t.h.get_result(), t.id * 3, "result of a task"); }
    for (auto& t : ts) if (t.st == 3) expect(t.h.get_state() == TaskState::pending, "a task was started before its time");
    expect(ran == want, "tasks run once each, in the order in which they were added");
    auto t0 = steady_clock::now(); while (!p->get_running_task_names().empty() && steady_clock::now() - t0 < seconds(5)) std::this_thread::yield();
    expect(p->get_running_task_names().empty(), "no task is running");
    for (auto& t : ts) { auto s = t.h.get_state(); expect(s == (t.st == 1 ? TaskState::canceled : t.st == 3 ? TaskState::pending : TaskState::complete), "final state"); expect_eq(t.h.is_complete(), t.st == 0, "is_complete at the end"); }
    expect(gate.get_state() == TaskState::complete && gate.is_complete(), "gate complete at the end"); expect(!p->is_shutdown_requested(), "shutdown");
    bool late = false; for (auto& t : ts) late |= t.st == 3;
    expect_eq(p->is_idle(), !late, "is_idle");
    std::weak_ptr<gul14::ThreadPool> w = p; p.reset(); expect(w.expired(), "pool destroyed"); expect(ran == want, "a task ran during destruction although it was not due");
    for (auto& t : ts) { bool thrown = false; try { t.h.get_state(); } catch (const std::logic_error&) { thrown = true; } expect(thrown, "get_state without pool"); }
}
// several workers, several producers, cancellation and destruction at any time
void stress(Src& r) {
    size_t nt = 1 + r.pick(4), np = 1 + r.pick(3), m = 1 + r.pick(40); bool early = r.flag(); case_is("stress threads=" + std::to_string(nt) + " producers=" + std::to_string(np) + " tasks=" + std::to_string(m) + " early=" + std::to_string(early));
    std::vector<std::atomic<int>> runs(np * m), early_start(np * m), canceled(np * m); for (auto& x : runs) x = 0; for (auto& x : early_start) x = 0; for (auto& x : canceled) x = 0;
    auto p = gul14::make_thread_pool(nt, np * m); std::vector<std::thread> th;
    bool cancel = r.flag(), delay = r.flag(); std::vector<std::vector<H>> hs(np);
    for (size_t t = 0; t < np; ++t) th.emplace_back([&, t] {
        for (size_t i = 0; i < m; ++i) { size_t k = t * m + i; auto at = system_clock::now() + (delay ? microseconds((i * 37) % 300) : microseconds(0));
            hs[t].push_back(p->add_task([&runs, &early_start, k, at] { if (system_clock::now() < at) early_start[k] = 1; ++runs[k]; return int(k); }, at));
            if (cancel && i % 3 == 0) { size_t c = i / 2; if (hs[t][c].cancel()) canceled[t * m + c] = 1; } } });
    for (auto& x : th) x.join();
    if (!early) for (size_t t = 0; t < np; ++t) for (size_t i = 0; i < m; ++i) if (!canceled[t * m + i]) expect_eq(hs[t][i].get_result(), int(t * m + i), "result");
    if (!early) { auto t0 = steady_clock::now(); while (!p->is_idle() && steady_clock::now() - t0 < seconds(5)) std::this_thread::yield(); expect(p->is_idle(), "idle at the end"); expect(p->get_running_task_names().empty(), "names left"); }
    p.reset();
    for (size_t k = 0; k < np * m; ++k) { expect(!early_start[k], "a task was started before its time"); int e = runs[k]; if (canceled[k]) expect(e == 0, "a canceled task was run"); else if (!early) expect(e == 1, "a task was not run exactly once"); else expect(e <= 1, "a task was run twice"); }
}
void one(Src& r) {
    if (r.en) { gated(r); return; }
    size_t k = r.pick(8);
    if (k == 0) { size_t n = r.flag() ? r.pick(4) : 10000 + r.pick(3), c = r.flag() ? r.pick(3) : 10000000 + r.pick(3); if (n > 8 && n <= 10000 && c >= 1 && c <= 10000000) n = 10001; case_is("threads=" + std::to_string(n) + " capacity=" + std::to_string(c));
        bool bad = n == 0 || n > 10000 || c == 0 || c > 10000000; try { auto p = gul14::make_thread_pool(n, c); expect(!bad, "illegal arguments accepted"); expect_eq(p->count_threads(), n, "count_threads"); expect(p->is_idle() && p->count_pending() == 0, "new pool idle"); } catch (const std::invalid_argument&) { expect(bad, "legal arguments refused"); } }
    else if (k <= 2) stress(r);
    else gated(r);
}
