// Reference Gragg midpoint rule and Aitken-Neville extrapolation (Hairer-Norsett-Wanner II.9)
#ifndef GBS_HPP
#define GBS_HPP
#include "prob.hpp"
// smoothed modified midpoint rule with n substeps
template <class T, class F> std::vector<T> gragg(F f, const std::vector<T>& x, T t, T dt, int n, T* scale = 0) {
    size_t d = x.size(); T h = dt / n; std::vector<T> a = x, b(d), k(d), c(d); f(x, k, t);
    auto sc = [&](const std::vector<T>& v, T m) { if (scale) for (auto q : v) { T z = std::fabs(q * m); if (z > *scale) *scale = z; } };
    sc(x, 1); sc(k, dt);
    for (size_t i = 0; i < d; ++i) b[i] = x[i] + h * k[i];
    for (int m = 1; m < n; ++m) { f(b, k, t + m * h); sc(k, dt); sc(b, 1); for (size_t i = 0; i < d; ++i) { c[i] = a[i] + 2 * h * k[i]; a[i] = b[i]; b[i] = c[i]; } }
    f(b, k, t + dt); sc(k, dt); sc(b, 1);
    std::vector<T> r(d); for (size_t i = 0; i < d; ++i) r[i] = (a[i] + b[i] + h * k[i]) / 2; return r;
}
// extrapolation tableau in h^2 for the sequence n_i; entry [i][k] uses rows i-k..i
template <class T, class F> std::vector<std::vector<std::vector<T>>> gbs_table(F f, const std::vector<T>& x, T t, T dt, const std::vector<int>& seq, T* scale = 0) {
    std::vector<std::vector<std::vector<T>>> T_(seq.size());
    for (size_t i = 0; i < seq.size(); ++i) {
        T_[i].push_back(gragg<T>(f, x, t, dt, seq[i], scale));
        for (size_t k = 1; k <= i; ++k) { T r = (T)seq[i] / seq[i - k]; std::vector<T> e(x.size()); for (size_t n = 0; n < x.size(); ++n) e[n] = T_[i][k - 1][n] + (T_[i][k - 1][n] - T_[i - 1][k - 1][n]) / (r * r - 1); T_[i].push_back(e); }
    }
    return T_;
}
template <class T, class F> std::vector<T> gbs_extrapolated(F f, const std::vector<T>& x, T t, T dt, int rows, T* scale = 0) {
    std::vector<int> seq; for (int i = 1; i <= rows; ++i) seq.push_back(2 * i); return gbs_table<T>(f, x, t, dt, seq, scale)[rows - 1][rows - 1];
}
#endif
