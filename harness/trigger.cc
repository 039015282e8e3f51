// roots for gul14/Trigger.h, src/Trigger.cc
#include <cstddef>
#include <cstdint>
#define private public
#include <gul14/Trigger.h>
#undef private
#include <Trigger.cc>
#define X extern "C"
using T = gul14::Trigger;
X size_t o_flag() { return offsetof(T, triggered_); }
X size_t o_mutex() { return offsetof(T, mutex_); }
X size_t o_cv() { return offsetof(T, cv_); }
X size_t o_size() { return sizeof(T); }
X void t_ctor(T* t) { new (t) T; }
X void t_dtor(T* t) { t->~T(); }
X void t_dtor_in(T* t) { t->T::trigger(); }
X bool t_bool(const T* t) { return *t; }
X void t_reset(T* t) { t->reset(); }
X void t_trigger(T* t) { t->trigger(); }
X T* t_assign(T* t, bool b) { return &(*t = b); }
X void t_wait(const T* t) { t->wait(); }
X bool t_for(const T* t, int64_t ns) { return t->wait_for(std::chrono::nanoseconds(ns)); }
X bool t_until(const T* t, int64_t ns) { return t->wait_until(std::chrono::system_clock::time_point(std::chrono::nanoseconds(ns))); }
X bool t_until_s(const T* t, int64_t ns) { return t->wait_until(std::chrono::steady_clock::time_point(std::chrono::nanoseconds(ns))); }
#include <gul14/time_util.h>
X bool t_sleep(const T* t, int64_t ns) { return gul14::sleep(std::chrono::nanoseconds(ns), *t); }
