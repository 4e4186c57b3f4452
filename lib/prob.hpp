// Generated right-hand sides shared by all checks.
#ifndef PROB_HPP
#define PROB_HPP
#include "pbt.hpp"
#include <memory>
#include <cmath>
#include <algorithm>
typedef long double LD;
typedef std::vector<double> Vec;
typedef std::vector<LD> LVec;

struct RhsCount { long calls = 0, limit = 2000000; };
inline RhsCount& rhs_count() { static RhsCount c; return c; }
inline void rhs_reset(long limit = 2000000) { rhs_count().calls = 0; rhs_count().limit = limit; }
inline void rhs_tick() { if (++rhs_count().calls > rhs_count().limit) throw pbt::Fail("nontermination", pbt::str("more than ", rhs_count().limit, " right-hand side evaluations")); }

enum { K_LIN = 0, K_LINT, K_SIN, K_POLY, K_QUAD, K_MIX, K_ZERO, K_NKINDS };
struct Prob {
    int kind = K_LIN, d = 1;
    std::vector<double> A, b, c; double w = 1; bool autonomous = false; double sgn = 1, toff = 0; // sgn/toff: reflected and shifted time
    double a(int i, int j) const { // sparse for large d: neighbour coupling
        if (d <= 8) return A[i * d + j];
        return (j == i || j == (i + 1) % d || j == (i + 7) % d) ? A[(i * 3 + (j == i ? 0 : j == (i + 1) % d ? 1 : 2)) % A.size()] : 0.0;
    }
    template <class T, class X, class D> void eval(const X& x, D& dx, T tin) const {
        using std::sin; using std::cos;
        T t = autonomous ? T(0.3) : T(tin * T(sgn) + T(toff));
        for (int i = 0; i < d; ++i) {
            T s = T(0);
            auto lin = [&]() { T r = T(0); if (d <= 8) for (int j = 0; j < d; ++j) r += T(A[i * d + j]) * x[j]; else { r += T(a(i, i)) * x[i]; r += T(a(i, (i + 1) % d)) * x[(i + 1) % d]; r += T(a(i, (i + 7) % d)) * x[(i + 7) % d]; } return r; };
            T bi = T(b[i % b.size()]), ci = T(c[i % c.size()]);
            switch (kind) {
            case K_LIN: s = lin(); break;
            case K_LINT: s = lin() + bi * cos(T(w) * t) + ci * t * T(0.25); break;
            case K_SIN: s = sin(lin() + bi * t) + ci * cos(T(w) * t + x[i]); break;
            case K_POLY: { T q = T(0); for (int k = 3; k >= 0; --k) q = q * t + T(c[(i + k) % c.size()]); s = q + bi; break; }
            case K_QUAD: { int j = (i + 1) % d; s = bi * x[i] - ci * x[i] * x[j] * T(0.5) + T(0.1) * sin(T(w) * t); break; }
            case K_MIX: s = (bi + cos(T(w) * t)) * x[i] + lin() / (T(1) + x[i] * x[i]) + ci; break;
            default: s = T(0); break;
            }
            dx[i] = T(sgn) * s;
        }
    }
    std::string describe() const { std::ostringstream o; o.precision(17); static const char* n[] = {"linear", "linear+t", "sin", "poly(t)", "quadratic", "mixed", "zero"}; o << n[kind] << " d=" << d << (autonomous ? " autonomous" : "") << " A=["; for (size_t k = 0; k < A.size() && k < 9; ++k) o << (k ? "," : "") << A[k]; o << "] b=["; for (size_t k = 0; k < b.size() && k < 4; ++k) o << (k ? "," : "") << b[k]; o << "] c=["; for (size_t k = 0; k < c.size() && k < 4; ++k) o << (k ? "," : "") << c[k]; o << "] w=" << w; return o.str(); }
};
inline Prob gen_prob(pbt::Src& s, int d, std::initializer_list<int> kinds, double amp = 1.5, bool allow_auto = true) {
    Prob p; p.d = d; p.kind = *(kinds.begin() + s.raw(kinds.size()));
    int nA = d <= 8 ? d * d : 24; double sc = d <= 8 ? amp / std::max(1.0, std::sqrt((double)d)) : amp / 2;
    p.A = s.vec(nA, sc); p.b = s.vec(std::min(d, 8), amp); p.c = s.vec(std::max(4, std::min(d, 8)), amp); p.w = s.mag(0.5, 3);
    p.autonomous = allow_auto ? s.flag(15) : false;
    return p;
}
#define ALLKINDS {K_SIN, K_LIN, K_LINT, K_POLY, K_QUAD, K_MIX}
#define SMOOTHKINDS {K_SIN, K_LIN, K_LINT, K_POLY}

// system functor for containers with operator[]
template <class State, class Time = double>
struct Sys {
    std::shared_ptr<const Prob> p;
    Sys(const Prob& q) : p(std::make_shared<Prob>(q)) {}
    template <class It, class D> void operator()(const std::pair<It, It>& x, D&& dx, Time t) const { rhs_tick(); p->eval<typename std::decay<decltype(*x.first)>::type>(x.first, dx, t); }
    template <class X, class D> void operator()(const X& x, D&& dx, Time t) const { rhs_tick(); p->eval<typename std::decay<decltype(x[0])>::type>(x, dx, t); }
};
inline int gen_dim(pbt::Src& s) { return s.raw(10) < 9 ? (int)s.i(1, 6) : (int)s.i(7, 40); }

// ---- comparison with stated tolerance
inline double maxabs(const Vec& v) { double m = 0; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
template <class V, class W> double maxdiff(const V& a, const W& b) { double m = 0; if (a.size() != b.size()) return INFINITY; auto p = a.begin(); auto q = b.begin(); for (; p != a.end(); ++p, ++q) { double e = std::fabs((double)((LD)*p - (LD)*q)); if (!(e <= m)) m = e; if (std::isnan((double)*p) != std::isnan((double)*q)) return INFINITY; if (std::isnan(e)) { if (std::isnan((double)*p) && std::isnan((double)*q)) m = m > 0 ? m : 0; else return INFINITY; } } return m; }
template <class V> std::string vstr(const V& v) { std::ostringstream o; o.precision(17); o << "["; size_t k = 0; for (auto& x : v) { if (k++) o << ","; if (k > 12) { o << "..."; break; } o << (double)x; } o << "]"; return o.str(); }
template <class V> bool allfinite(const V& v) { for (auto& x : v) if (!std::isfinite((double)x)) return false; return true; }
template <class V, class W> void check_close(const std::string& key, const std::string& what, const V& got, const W& want, double tol) {
    double e = maxdiff(got, want);
    if (!(e <= tol)) pbt::fail(key, pbt::str(what, ": got ", vstr(got), " want ", vstr(want), " difference ", e, " tolerance ", tol));
}
template <class V, class W> bool same_bits(const V& a, const W& b) { if (a.size() != b.size()) return false; auto p = a.begin(); auto q = b.begin(); for (; p != a.end(); ++p, ++q) { double x = *p, y = *q; if (std::memcmp(&x, &y, sizeof x)) return false; } return true; }

// ---- explicit Runge-Kutta reference
struct Tableau { int s; std::vector<LD> c, b, db; std::vector<std::vector<LD>> a; bool has_err = false; };
// one step; k receives the stages. T is the arithmetic used.
template <class T, class F> std::vector<T> rk_step(const Tableau& tb, F f, const std::vector<T>& x, T t, T dt, std::vector<T>* err = 0, std::vector<std::vector<T>>* ks = 0, T* scale = 0) {
    size_t d = x.size(); std::vector<std::vector<T>> k(tb.s, std::vector<T>(d)); std::vector<T> y(d); T sc = 0;
    for (int i = 0; i < tb.s; ++i) {
        y = x;
        for (int j = 0; j < i; ++j) for (size_t n = 0; n < d; ++n) y[n] += dt * (T)tb.a[i][j] * k[j][n];
        f(y, k[i], t + (T)tb.c[i] * dt);
        for (size_t n = 0; n < d; ++n) { T m = std::fabs(dt * k[i][n]); if (m > sc) sc = m; m = std::fabs(y[n]); if (m > sc) sc = m; }
    }
    y = x; for (int i = 0; i < tb.s; ++i) for (size_t n = 0; n < d; ++n) y[n] += dt * (T)tb.b[i] * k[i][n];
    if (err) { err->assign(d, T(0)); for (int i = 0; i < tb.s; ++i) for (size_t n = 0; n < d; ++n) (*err)[n] += dt * (T)tb.db[i] * k[i][n]; }
    if (ks) *ks = k; if (scale) *scale = sc;
    return y;
}
inline LVec toL(const Vec& v) { return LVec(v.begin(), v.end()); }
inline Vec toD(const LVec& v) { Vec r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = (double)v[i]; return r; }

inline Tableau tb_make(int s, std::initializer_list<std::initializer_list<LD>> a, std::initializer_list<LD> b, std::initializer_list<LD> c, std::initializer_list<LD> bhat = {}) {
    Tableau t; t.s = s; t.b = b; t.c = c; for (auto& r : a) t.a.push_back(std::vector<LD>(r)); while ((int)t.a.size() < s) t.a.push_back({});
    for (int i = 0; i < s; ++i) t.a[i].resize(s, 0);
    if (bhat.size()) { t.has_err = true; t.db = t.b; auto q = bhat.begin(); for (int i = 0; i < s; ++i, ++q) t.db[i] -= *q; }
    return t;
}
#define Q(a, b) ((LD)(a) / (LD)(b))
inline Tableau tb_euler() { return tb_make(1, {{}}, {1}, {0}); }
inline Tableau tb_rk4() { return tb_make(4, {{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, {Q(1, 6), Q(1, 3), Q(1, 3), Q(1, 6)}, {0, 0.5L, 0.5L, 1}); }
inline Tableau tb_ck54() {   // Cash & Karp 1990
    return tb_make(6, {{}, {Q(1, 5)}, {Q(3, 40), Q(9, 40)}, {Q(3, 10), Q(-9, 10), Q(6, 5)}, {Q(-11, 54), Q(5, 2), Q(-70, 27), Q(35, 27)}, {Q(1631, 55296), Q(175, 512), Q(575, 13824), Q(44275, 110592), Q(253, 4096)}},
        {Q(37, 378), 0, Q(250, 621), Q(125, 594), 0, Q(512, 1771)}, {0, Q(1, 5), Q(3, 10), Q(3, 5), 1, Q(7, 8)}, {Q(2825, 27648), 0, Q(18575, 48384), Q(13525, 55296), Q(277, 14336), Q(1, 4)});
}
inline Tableau tb_dopri5() { // Dormand & Prince 1980
    return tb_make(7, {{}, {Q(1, 5)}, {Q(3, 40), Q(9, 40)}, {Q(44, 45), Q(-56, 15), Q(32, 9)}, {Q(19372, 6561), Q(-25360, 2187), Q(64448, 6561), Q(-212, 729)}, {Q(9017, 3168), Q(-355, 33), Q(46732, 5247), Q(49, 176), Q(-5103, 18656)}, {Q(35, 384), 0, Q(500, 1113), Q(125, 192), Q(-2187, 6784), Q(11, 84)}},
        {Q(35, 384), 0, Q(500, 1113), Q(125, 192), Q(-2187, 6784), Q(11, 84), 0}, {0, Q(1, 5), Q(3, 10), Q(4, 5), Q(8, 9), 1, 1}, {Q(5179, 57600), 0, Q(7571, 16695), Q(393, 640), Q(-92097, 339200), Q(187, 2100), Q(1, 40)});
}
inline Tableau tb_rkf78() {  // Fehlberg 1968, RK7(8): the 8th-order weights advance the solution
    Tableau t = tb_make(13, {{}, {Q(2, 27)}, {Q(1, 36), Q(1, 12)}, {Q(1, 24), 0, Q(1, 8)}, {Q(5, 12), 0, Q(-25, 16), Q(25, 16)}, {Q(1, 20), 0, 0, Q(1, 4), Q(1, 5)}, {Q(-25, 108), 0, 0, Q(125, 108), Q(-65, 27), Q(125, 54)}, {Q(31, 300), 0, 0, 0, Q(61, 225), Q(-2, 9), Q(13, 900)}, {2, 0, 0, Q(-53, 6), Q(704, 45), Q(-107, 9), Q(67, 90), 3}, {Q(-91, 108), 0, 0, Q(23, 108), Q(-976, 135), Q(311, 54), Q(-19, 60), Q(17, 6), Q(-1, 12)}, {Q(2383, 4100), 0, 0, Q(-341, 164), Q(4496, 1025), Q(-301, 82), Q(2133, 4100), Q(45, 82), Q(45, 164), Q(18, 41)}, {Q(3, 205), 0, 0, 0, 0, Q(-6, 41), Q(-3, 205), Q(-3, 41), Q(3, 41), Q(6, 41), 0}, {Q(-1777, 4100), 0, 0, Q(-341, 164), Q(4496, 1025), Q(-289, 82), Q(2193, 4100), Q(51, 82), Q(33, 164), Q(12, 41), 0, 1}},
        {0, 0, 0, 0, 0, Q(34, 105), Q(9, 35), Q(9, 35), Q(9, 280), Q(9, 280), 0, Q(41, 840), Q(41, 840)}, {0, Q(2, 27), Q(1, 9), Q(1, 6), Q(5, 12), Q(1, 2), Q(5, 6), Q(1, 6), Q(2, 3), Q(1, 3), 1, 0, 1},
        {Q(41, 840), 0, 0, 0, 0, Q(34, 105), Q(9, 35), Q(9, 35), Q(9, 280), Q(9, 280), Q(41, 840), 0, 0});
    return t;
}
// order-q quadrature conditions and row sums: sanity of the reference itself
inline bool tb_sane(const Tableau& t, int order) {
    for (int i = 0; i < t.s; ++i) { LD r = 0; for (int j = 0; j < i; ++j) r += t.a[i][j]; if (std::fabs(r - t.c[i]) > 1e-15L) return false; }
    for (int q = 0; q < order; ++q) { LD r = 0; for (int i = 0; i < t.s; ++i) r += t.b[i] * (q ? std::pow(t.c[i], (LD)q) : 1); if (std::fabs(r - 1.0L / (q + 1)) > 1e-15L) return false; }
    // a few non-quadrature conditions
    if (order >= 3) { LD r = 0; for (int i = 0; i < t.s; ++i) for (int j = 0; j < i; ++j) r += t.b[i] * t.a[i][j] * t.c[j]; if (std::fabs(r - 1.0L / 6) > 1e-15L) return false; }
    if (order >= 4) { LD r = 0; for (int i = 0; i < t.s; ++i) for (int j = 0; j < i; ++j) for (int k = 0; k < j; ++k) r += t.b[i] * t.a[i][j] * t.a[j][k] * t.c[k]; if (std::fabs(r - 1.0L / 24) > 1e-15L) return false; }
    return true;
}
// reference system as a lambda-friendly functor in arithmetic T
struct RefF { const Prob& p; template <class T> void operator()(const std::vector<T>& x, std::vector<T>& dx, T t) const { dx.resize(x.size()); p.eval<T>(x, dx, t); } };
// accurate long-double solution by RKF78 with fixed small steps
inline LVec ref_solve(const Prob& p, const LVec& x0, LD t0, LD t1, LD h = 0.02L) {
    static const Tableau tb = tb_rkf78(); LD L = t1 - t0; if (L == 0) return x0; int n = std::max(1, (int)std::ceil(std::fabs(L) / h)); LVec x = x0; LD dt = L / n;
    for (int i = 0; i < n; ++i) x = rk_step<LD>(tb, RefF{p}, x, t0 + i * dt, dt);
    return x;
}
#endif
