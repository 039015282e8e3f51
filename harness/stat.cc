// roots for gul14/statistics.h
#include <gul14/statistics.h>
#include <cstdint>
#include <cstddef>
#define X extern "C"
struct Rec { double a, b; };
template <typename T> struct Cont {
    using value_type = T; T* b; size_t n;
    const T* cbegin() const { return b; } const T* cend() const { return b + n; } size_t size() const { return n; }
    T* begin() const { return b; } T* end() const { return b + n; }
};
static double get_b(Rec const& r) { return r.b; }
X double gv_op(double acc, double x);
struct Two { double s, m; };
#define FOLDS(N, T) \
X double t_mean_##N(const T* p, size_t n) { return gul14::mean(Cont<const T>{p, n}); } \
X double t_mean_it_##N(const T* p, size_t n) { return gul14::mean(p, p + n); } \
X double t_rms_##N(const T* p, size_t n) { return gul14::rms(Cont<const T>{p, n}); } \
X double t_rms_it_##N(const T* p, size_t n) { return gul14::rms(p, p + n); } \
X Two t_sd_##N(const T* p, size_t n) { auto r = gul14::standard_deviation(Cont<const T>{p, n}); return { r.sigma(), r.mean() }; } \
X Two t_sd_it_##N(const T* p, size_t n) { auto r = gul14::standard_deviation(p, p + n); return { r, r.mean() }; } \
X double t_acc_##N(const T* p, size_t n) { return gul14::accumulate(Cont<const T>{p, n}, gv_op); } \
X double t_acc_it_##N(const T* p, size_t n) { return gul14::accumulate(p, p + n, gv_op); }
FOLDS(d, double) FOLDS(i, int32_t)
X float t_mean_f(const float* p, size_t n) { return gul14::mean<float>(Cont<const float>{p, n}); }
X float t_mean_it_f(const float* p, size_t n) { return gul14::mean<float>(p, p + n); }
X double t_mean_r(const Rec* p, size_t n) { return gul14::mean(Cont<const Rec>{p, n}, get_b); }
X double t_mean_it_r(const Rec* p, size_t n) { return gul14::mean(p, p + n, [](Rec const& r) { return r.b; }); }
X double t_rms_r(const Rec* p, size_t n) { return gul14::rms(Cont<const Rec>{p, n}, get_b); }
X Two t_sd_r(const Rec* p, size_t n) { auto r = gul14::standard_deviation(Cont<const Rec>{p, n}, get_b); return { r.sigma(), r.mean() }; }
#define MINMAX(N, T) \
X T t_max_##N(const T* p, size_t n) { return gul14::maximum(Cont<const T>{p, n}); } \
X T t_max_it_##N(const T* p, size_t n) { return gul14::maximum(p, p + n); } \
X T t_min_##N(const T* p, size_t n) { return gul14::minimum(Cont<const T>{p, n}); } \
X T t_min_it_##N(const T* p, size_t n) { return gul14::minimum(p, p + n); } \
X T t_mm_min_##N(const T* p, size_t n) { return gul14::min_max(Cont<const T>{p, n}).min; } \
X T t_mm_max_##N(const T* p, size_t n) { return gul14::min_max(Cont<const T>{p, n}).max; } \
X T t_mm_it_min_##N(const T* p, size_t n) { return gul14::min_max(p, p + n).min; } \
X T t_mm_it_max_##N(const T* p, size_t n) { return gul14::min_max(p, p + n).max; }
MINMAX(d, double) MINMAX(f, float) MINMAX(i, int32_t) MINMAX(u, uint8_t) MINMAX(l, int64_t)
X double t_max_r(const Rec* p, size_t n) { return gul14::maximum(Cont<const Rec>{p, n}, get_b); }
X double t_min_r(const Rec* p, size_t n) { return gul14::minimum(p, p + n, get_b); }
X double t_med_d(const double* p, size_t n) { return gul14::median(Cont<const double>{p, n}); }
X double t_med_it_d(const double* p, size_t n) { return gul14::median(p, p + n); }
X double t_med_i(const int32_t* p, size_t n) { return gul14::median(Cont<const int32_t>{p, n}); }
X double t_med_it_i(const int32_t* p, size_t n) { return gul14::median(p, p + n); }
X double t_med_r(const Rec* p, size_t n) { return gul14::median(Cont<const Rec>{p, n}, get_b); }
// a container whose erase is an assumed contract (as for std::vector)
struct VC { using value_type = double; double* b; size_t n;
    const double* cbegin() const { return b; } const double* cend() const { return b + n; } size_t size() const { return n; }
    double* begin() { return b; } double* end() { return b + n; } void erase(double* p); };
X void gv_erase(VC* c, double* p);
inline void VC::erase(double* p) { gv_erase(this, p); }
X VC* t_out(VC& c, size_t k) { return &gul14::remove_outliers(std::move(c), k); }
X void t_out_v(std::vector<double>* out, const double* p, size_t n, size_t k) { Cont<double> c{const_cast<double*>(p), n}; new (out) std::vector<double>(gul14::remove_outliers(c, k)); }
X void t_out_it(std::vector<double>* out, const double* p, size_t n, size_t k) { new (out) std::vector<double>(gul14::remove_outliers(p, p + n, k)); }
X double t_mean_vc(VC& c) { return gul14::mean(c); }
X double t_mean_vec(std::vector<double>& c) { return gul14::mean(c); }
