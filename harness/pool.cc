// roots for gul14/ThreadPool.h, src/ThreadPool.cc
#include <cstddef>
#include <cstdint>
#include <sstream>
#include <future>
#include <thread>
#include <condition_variable>
#include <memory>
#include <functional>
#include <algorithm>
#define private public
#include <gul14/ThreadPool.h>
#undef private
#include <ThreadPool.cc>
#define X extern "C"
using P = gul14::ThreadPool;
using Id = P::TaskId;
#define OFF(n, m) X size_t o_##n() { return offsetof(P, m); }
OFF(cap, capacity_) OFF(threads, threads_) OFF(cv, cv_) OFF(mutex, mutex_) OFF(pending, pending_tasks_) OFF(ids, running_task_ids_) OFF(names, running_task_names_) OFF(next, next_task_id_) OFF(shut, shutdown_requested_)
X size_t o_size() { return sizeof(P); }
X size_t o_tid() { return offsetof(P::Task, id_); }
X size_t o_tptr() { return offsetof(P::Task, named_task_); }
X size_t o_ttime() { return offsetof(P::Task, start_time_); }
X size_t o_task() { return sizeof(P::Task); }
X size_t o_name() { return offsetof(P::NamedTask, name_); }
X size_t o_named() { return sizeof(P::NamedTask); }
X bool p_cancel(P* p, Id id) { return p->cancel_pending_task(id); }
X size_t p_cancel_all(P* p) { return p->cancel_pending_tasks(); }
X size_t p_count(const P* p) { return p->count_pending(); }
X size_t p_threads(const P* p) { return p->count_threads(); }
X size_t p_capacity(const P* p) { return p->capacity(); }
X bool p_full(const P* p) { return p->is_full(); }
X bool p_idle(const P* p) { return p->is_idle(); }
X bool p_shutdown(const P* p) { return p->is_shutdown_requested(); }
X int p_state(const P* p, Id id) { return static_cast<int>(p->get_task_state(id)); }
X void p_running(std::vector<std::string>* out, const P* p) { new (out) std::vector<std::string>(p->get_running_task_names()); }
X void p_pending(std::vector<std::string>* out, const P* p) { new (out) std::vector<std::string>(p->get_pending_task_names()); }
X void p_work(P* p) { p->perform_work(); }
X void p_dtor(P* p) { p->~P(); }
struct Fn { int k; int operator()(P&); int operator()(P&) const; };
struct Gn { int k; int operator()() const; };
using H = P::TaskHandle<int>;
X void p_add(H* out, P* p, Fn* f, long t, std::string* name) { new (out) H(p->add_task(*f, P::TimePoint{ P::Duration{ t } }, std::move(*name))); }
X void p_add_g(H* out, P* p, Gn* f, long t, std::string* name) { new (out) H(p->add_task(*f, P::TimePoint{ P::Duration{ t } }, std::move(*name))); }
X void p_add_d(H* out, P* p, Fn* f, long t, std::string* name) { new (out) H(p->add_task(*f, P::Duration{ t }, std::move(*name))); }
X void p_add_dg(H* out, P* p, Gn* f, long t, std::string* name) { new (out) H(p->add_task(*f, P::Duration{ t }, std::move(*name))); }
X void p_add_n(H* out, P* p, Fn* f, long, std::string* name) { new (out) H(p->add_task(*f, std::move(*name))); }
X void p_add_ng(H* out, P* p, Gn* f, long, std::string* name) { new (out) H(p->add_task(*f, std::move(*name))); }
X size_t o_hid() { return offsetof(H, id_); }
X size_t o_hfut() { return offsetof(H, future_); }
X size_t o_hpool() { return offsetof(H, pool_); }
X size_t o_hstart() { return offsetof(H, started_); }
X size_t o_hdone() { return offsetof(H, complete_); }
X size_t o_hsize() { return sizeof(H); }
X bool h_cancel(H* h) { return h->cancel(); }
X bool h_complete(const H* h) { return h->is_complete(); }
X int h_state(const H* h) { return static_cast<int>(h->get_state()); }
X int h_result(H* h) { return h->get_result(); }
X void p_ctor(P* p, size_t n, size_t c) { new (p) P(n, c); }
using TI = P::NamedTaskImpl<std::packaged_task<int(P&)>>;
X size_t o_tifct() { return offsetof(TI, fct_); }
X size_t o_tistart() { return offsetof(TI, started_); }
X size_t o_tisize() { return sizeof(TI); }
X void t_run(TI* t, P* p) { t->TI::operator()(*p); }
