// Accuracy of adaptive integration as a function of the tolerance.
#ifndef C06_HPP
#define C06_HPP
#include "zoo.hpp"
#include "accuracy.hpp"
#include "jsys.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
using namespace boost::numeric::odeint;
#define C06_RULE "at least half of the problems of the ensemble need more than two steps at the looser tolerance"
// one initial value problem, independent of the stepper
struct Ivp { Prob p; Vec x0; double t0, T, dt; std::vector<double> obs; }; // from t0 to t0+T, first step dt (sign of T), observed at obs (offsets)
struct Res { double err = 0, unit = 1, noise = 0; long n = 0, ev = 0; bool ok = false; std::vector<double> t; std::vector<LVec> x; double ratio(double eps) const { return std::max(0.0, err - noise) / (eps * unit); } };
template <class T> struct vec_of { static LVec of(const T& x) { return LVec(x.begin(), x.end()); } };
struct TraceObs { Res* r; template <class X> void operator()(const X& x, double t) const { r->t.push_back(t); r->x.push_back(vec_of<X>::of(x)); if (r->x.size() > 400000) throw pbt::Fail("nontermination", "more than 400000 observations"); } };
template <class S> struct is_u : std::is_same<typename S::state_type, UV> {};
enum { BY_ADAPTIVE, BY_CONST, BY_TIMES, BY_N };
struct Cls { int dir, t0, dt, by, kinds; double tmax; }; // what the problems of one ensemble have in common
inline Cls gen_cls(pbt::Src& s, bool coupled, double tmax = 4) { Cls c; c.dir = s.flag(40) ? -1 : 1; c.t0 = (int)s.raw(3); c.dt = (int)s.raw(4); c.by = (int)s.raw(BY_N); c.kinds = coupled; c.tmax = tmax; s.label(c.dir < 0 ? "backward" : "forward"); s.label(pbt::str("start time ", c.t0 == 0 ? "0" : c.t0 == 1 ? "about 10" : "about 1000")); s.label(pbt::str("first step ", c.dt == 0 ? "5% of the interval" : c.dt == 1 ? "tiny" : c.dt == 2 ? "half the interval" : "beyond the interval")); s.label(c.by == BY_ADAPTIVE ? "integrate_adaptive" : c.by == BY_CONST ? "integrate_const" : "integrate_times"); return c; }
inline Ivp gen_ivp(pbt::Src& s, const Cls& c) {
    Ivp v; int d = (int)s.i(1, 4); if (c.kinds) v.p = gen_prob(s, d, {K_SIN, K_MIX, K_LIN}, 1.2); else v.p = gen_prob(s, d, {K_SIN, K_LINT, K_MIX, K_LIN, K_QUAD, K_POLY}, 1.2);
    for (int k = 0; k < d; ++k) if (c.kinds && v.p.A[k * d + k] == 0) v.p.A[k * d + k] = 0.5 + 0.125 * k;
    v.x0 = s.vec(d, 1.5); bool all0 = true; for (double z : v.x0) all0 = all0 && z == 0; if (all0) v.x0[0] = 1;
    v.t0 = c.t0 == 0 ? 0 : (s.flag() ? -1 : 1) * (c.t0 == 1 ? s.mag(5, 20) : s.mag(500, 2000)); v.T = c.dir * s.mag(0.3, c.tmax); v.p.toff = -v.t0; // the problem itself is the same at every start time
    double r = c.dt == 0 ? 0.05 : c.dt == 1 ? s.logmag(1e-6, 1e-3) : c.dt == 2 ? 0.5 : s.mag(1, 8); v.dt = v.T * r;
    int m = (int)s.i(1, 5); double o = 0; for (int k = 0; k < m; ++k) { o += s.mag(0.05, 1); v.obs.push_back(o); } for (double& z : v.obs) z *= v.T / o; v.obs.back() = v.T; return v;
}
inline std::string describe(const Ivp& v) { return pbt::str(v.p.describe(), " x0=", vstr(v.x0), " from t=", v.t0, " over ", v.T, " first step ", v.dt); }
// the true solution where the run is judged
struct Truth { RefTrace r; std::vector<double> t; };
inline Truth truth(const Ivp& v, int by) { Truth q; q.t.push_back(v.t0); if (by == BY_ADAPTIVE) q.t.push_back(v.t0 + v.T); else if (by == BY_CONST) { long n = (long)v.obs.size(); for (long k = 1; k <= n; ++k) q.t.push_back(v.t0 + v.T / n * k); } else for (double o : v.obs) q.t.push_back(v.t0 + o); q.r = ref_trace(v.p, v.x0, q.t); if (q.r.G > 300 || q.r.xmax > 50) q.r.ok = false; return q; }
template <class T, class St, class Sy, class X> Res solve_(St st, Sy sys, X x, const Ivp& v, int by, const Truth& q, double rnd) {
    Res r; rhs_reset(4000000); long n = (long)v.obs.size();
    if (by == BY_ADAPTIVE) { r.n = (long)integrate_adaptive(st, sys, x, (T)v.t0, (T)(v.t0 + v.T), (T)v.dt, TraceObs{&r}); r.t = {r.t.front(), r.t.back()}; r.x = {r.x.front(), r.x.back()}; }
    else if (by == BY_CONST) { r.n = (long)integrate_const(st, sys, x, (T)v.t0, (T)(v.t0 + v.T * (1 + 1e-9)), (T)(v.T / n), TraceObs{&r}); }
    else { std::vector<T> ts(q.t.begin(), q.t.end()); r.n = (long)integrate_times(st, sys, x, ts, (T)v.dt, TraceObs{&r}); }
    r.ev = rhs_count().calls; REQUIRE_K("observations", r.t.size() == q.t.size(), "observed at ", vstr(r.t), " instead of ", vstr(q.t));
    r.unit = (1 + q.r.xmax) * q.r.G; r.noise = (rnd * (8 + 4 * r.n) * (1 + q.r.xmax) + 2 * rnd * (std::fabs(v.t0) + 8) * (4 + 2 * r.n)) * q.r.G + 1e-17;
    for (size_t k = 0; k < q.t.size(); ++k) { REQUIRE_K("observation_time", std::fabs(r.t[k] - q.t[k]) <= 1e-12 * (1 + std::fabs(v.t0)), "observation ", k, " at ", r.t[k], " instead of ", q.t[k]); double e = maxdiff(r.x[k], q.r.x[k]); if (!(e < 1e300)) e = 1e300; r.err = std::max(r.err, e); } r.ok = true; return r;
}
template <class St> typename std::enable_if<!is_u<St>::value, Res>::type solve(St st, const Ivp& v, int by, const Truth& q) { typedef typename St::state_type X; typedef typename St::value_type T; return solve_<T>(st, Sys<X, T>(v.p), X(v.x0.begin(), v.x0.end()), v, by, q, sizeof(T) > 8 ? 1.1e-19 : 2.3e-16); }
template <class St> typename std::enable_if<is_u<St>::value, Res>::type solve(St st, const Ivp& v, int by, const Truth& q) { return solve_<double>(st, jpair(v.p), mk(v.x0), v, by, q, 2.3e-16); }
struct Lim { double tmax = 4; bool coupled = false; double lo = 1e-12, hi = 1e-3; double q = 4; double med = 0.4, high = 3; int outliers = 2; double unit = 1; bool modes = true; };
// an ensemble of problems with something in common, at two tolerances; make(abs, rel) gives the stepper
template <class M> void ensemble(pbt::Src& s, const char* name, M make, Lim L) {
    s.label(name); Cls c = gen_cls(s, L.coupled, L.tmax); double e1 = s.logmag(L.lo * 10, L.hi), e2 = std::max(L.lo, e1 / s.pick({1000.0, 100.0, 10.0})); if (L.unit != 1 && c.by == BY_CONST) c.by = BY_TIMES; int mode = L.modes ? (int)s.raw(3) : 0; s.note("tolerances", Vec{e1, e2}); s.note("mode", mode); s.label(mode == 0 ? "absolute and relative" : mode == 1 ? "mostly relative" : "absolute only");
    const int K = 48; std::vector<double> r1, r2; double n1 = 0, n2 = 0, nr = 0; int judged = 0, many = 0; std::string worst1, worst2; double w1 = -1, w2 = -1; auto st = [&](double e) { e *= L.unit; return make(mode == 1 ? e * 1e-3 : e, mode == 2 ? 0.0 : e); };
    for (int k = 0; k < K; ++k) {
        Ivp v = gen_ivp(s, c); Truth q = truth(v, c.by); if (!q.r.ok) continue; Ivp v5 = v; v5.dt = 0.05 * v.T; Res a, b, f;
        try { a = solve(st(e1), v, c.by, q); b = solve(st(e2), v, c.by, q); if (c.dt) f = solve(st(e1), v5, c.by, q); else f = a; } catch (const pbt::Fail& x) { throw pbt::Fail(x.key, pbt::str(x.msg, " in problem ", k, ": ", describe(v))); } catch (const step_adjustment_error& x) { pbt::fail("gives_up", pbt::str("the integration gave up: ", x.what(), " in problem ", k, ": ", describe(v))); } catch (const no_progress_error& x) { pbt::fail("gives_up", pbt::str("the integration gave up: ", x.what(), " in problem ", k, ": ", describe(v))); }
        ++judged; double x1 = a.ratio(e1), x2 = b.ratio(e2); r1.push_back(x1); r2.push_back(x2); n1 += a.n; n2 += b.n; nr += f.n; many += a.n > 2; if (x1 > w1) { w1 = x1; worst1 = describe(v); } if (x2 > w2) { w2 = x2; worst2 = describe(v); }
    }
    if (judged < K / 2) throw pbt::Discard();
    std::sort(r1.begin(), r1.end()); std::sort(r2.begin(), r2.end());
    for (int k = 0; k < 2; ++k) { std::vector<double>& r = k ? r2 : r1; double e = k ? e2 : e1; const std::string& w = k ? worst2 : worst1; size_t n = r.size(); std::string all = pbt::str(n, " problems, tolerance ", e, ", errors over (tolerance x solution size x error growth): median ", r[n / 2], " 80% ", r[n * 8 / 10], " largest ", r.back(), " in ", w);
        REQUIRE_K("median_accuracy", r[n / 2] <= L.med, all); REQUIRE_K("high_quantile_accuracy", r[n * 5 / 6] <= L.high, all); REQUIRE_K("outliers", r[n - 1 - L.outliers] <= 1e3, all); REQUIRE_K("finite", r.back() < 1e200, all); }
    // work: what the order of the method allows
    REQUIRE_K("steps_growth", e2 < 1e-10 || n2 <= 1.6 * n1 * std::pow(e1 / e2, 1 / L.q) + 3 * judged, "steps for all problems: ", n1, " at tolerance ", e1, ", ", n2, " at ", e2);
    REQUIRE_K("first_step_forgotten", e1 < 1e-9 || n1 <= 1.5 * nr + 30 * judged, "steps for all problems: ", n1, ", but ", nr, " with a first step of 5% of the interval");
    if (2 * many >= judged) s.nontrivial();
}
#endif
