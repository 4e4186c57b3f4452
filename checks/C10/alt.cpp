// The iterator-based implementations of the integrate functions (iterator/integrate/*)
// must observe what the iterators enumerate.  Distinct types keep their templates apart
// from the ordinary integrate functions used by the other translation units.
#define Obs ObsAlt
#define Sys SysAlt
#define C10_ITERATOR_INTEGRATE
#include "c10.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/iterator/integrate/observer_collection.hpp>
using namespace boost::numeric::odeint;
SUITE(iterator_integrate_plain, 6000, 300000, C10_RULE) { auto m = [] { return runge_kutta4<Vec>(); }; switch (src.raw(3)) { case 0: c10_const(src, m, false, 1e-11); break; case 1: c10_const(src, m, true, 1e-11); break; default: c10_times(src, m, 1e-11); } }
SUITE(iterator_integrate_controlled, 4000, 200000, C10_RULE) { double e = 1e-8; auto m = [=] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }; if (src.flag()) c10_adaptive(src, m); else c10_times(src, m, acc_tol(e)); }
SUITE(iterator_integrate_dense, 4000, 200000, C10_RULE) { double e = 1e-8; auto m = [=] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }; switch (src.raw(4)) { case 0: c10_adaptive(src, m); break; case 1: c10_const(src, m, false, acc_tol(e)); break; case 2: c10_const(src, m, true, acc_tol(e)); break; default: c10_times(src, m, acc_tol(e)); } }

// the functions themselves: what they observe, what they return and where they leave the state
// (the adaptive iterators of a dense-output stepper leave the state alone, as documented)
template <class Make> void direct(pbt::Src& s, Make make, double tol, int fn, bool dense = false) {
    rhs_reset(200000); Prob p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); p.w = 0.5 + (p.w - 0.5) * 0.3; Vec x0 = s.vec(p.d, 1.5), x(x0), y(x0); s.note(p.describe()); s.note("x0", x0); Sys<Vec> sys(p); Trace tr; Obs ob{&tr};
    static const char* nm[] = {"integrate_const", "integrate_n_steps", "integrate_adaptive", "integrate_times"}; s.label(nm[fn]);
    long n = s.raw(8) ? (long)s.i(1, 12) : 0; double t0 = s.num(2), dt = s.logmag(0.02, 0.3) * (s.flag(30) ? -1 : 1), fr = s.pick({0.25, 0.5, 0.8}), t1 = t0 + (n + fr) * dt, ret = 0; bool byref = s.flag(30), bare = s.flag(25) && fn < 3; s.note("t0", t0); s.note("dt", dt); s.note("n", n); s.note("without observer", bare);
    std::vector<double> ts; for (long k = 0; k <= n; ++k) ts.push_back(t0 + k * dt);
    auto go = [&](auto st, Vec& z, auto... o) { switch (fn) { case 0: return (double)integrate_const(st, sys, z, t0, t1, dt, o...); case 1: return (double)integrate_n_steps(st, sys, z, t0, dt, (size_t)n, o...); default: return (double)integrate_adaptive(st, sys, z, t0, t1, dt, o...); } };
    if (fn == 3) withstepper(byref, make(), [&](auto st) { ret = (double)(s.flag() ? integrate_times(st, sys, x, ts.begin(), ts.end(), dt, ob) : integrate_times(st, sys, x, ts, dt, ob)); });
    else withstepper(byref, make(), [&](auto st) { ret = go(st, x, ob); });
    if (!allfinite(x)) throw pbt::Discard();
    double e = 16 * ulp(std::max(std::fabs(t0), std::fabs(t1))); size_t m = tr.x.size(); REQUIRE_K("start", m && tr.t[0] == t0 && same_bits(tr.x[0], x0), "the first observation is not the initial state at the start time");
    if (fn != 2) { REQUIRE_K("count", m == (size_t)n + 1, m, " observations for ", n, " steps"); for (long k = 0; k <= n; ++k) REQUIRE_K("grid", std::fabs(tr.t[k] - ts[k]) <= e, "observation ", k, " at ", tr.t[k], " instead of ", ts[k]); }
    else { REQUIRE_K("end", std::fabs(tr.t.back() - t1) <= e, "last observation at ", tr.t.back(), ", the interval ends at ", t1); for (size_t k = 1; k < m; ++k) REQUIRE_K("monotone", (tr.t[k] - tr.t[k - 1]) * dt > 0, "observation ", k, " at ", tr.t[k], " after ", tr.t[k - 1]); }
    if (fn == 1) REQUIRE_K("returned_time", std::fabs(ret - ts[n]) <= e, "integrate_n_steps returned ", ret, " after ", n, " steps to ", ts[n]); else REQUIRE_K("returned_count", ret == (double)(m - 1), nm[fn], " returned ", ret, " with ", m, " observations");
    RefTrace r = ref_trace(p, x0, tr.t); if (!r.ok) throw pbt::Discard(); double tl = tol * r.G * (1 + r.xmax); for (size_t k = 0; k < m; ++k) check_close("accuracy", pbt::str("observation ", k, " against the exact solution at t=", tr.t[k]), tr.x[k], r.x[k], tl);
    if (bare) { s.label("without observer"); rhs_reset(200000); withstepper(byref, make(), [&](auto st) { ret = go(st, y); }); double te = fn == 1 ? ts[n] : t1; if (fn == 1) REQUIRE_K("returned_time", std::fabs(ret - te) <= e, "integrate_n_steps without observer returned ", ret); RefTrace q = ref_trace(p, x0, Vec{t0, te}); if (!q.ok) throw pbt::Discard(); if (fn != 0 && !(fn == 2 && dense)) check_close("accuracy", pbt::str("final state without observer against the exact solution at t=", te), y, q.x[1], tol * q.G * (1 + q.xmax)); }
    if (m > 1) s.nontrivial();
}
SUITE(iterator_integrate_returns_controlled, 3000, 100000, C10_RULE) { double e = 1e-8; direct(src, [=] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }, acc_tol(e), (int)src.raw(4)); }
SUITE(iterator_integrate_returns_dense, 3000, 100000, C10_RULE) { double e = 1e-8; direct(src, [=] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, acc_tol(e), (int)src.raw(4), true); }
// a step of the fehlberg method this long is accurate to the given bound
SUITE(iterator_integrate_returns_plain, 3000, 100000, C10_RULE) { direct(src, [] { return runge_kutta_fehlberg78<Vec>(); }, 1e-5, (int)src.raw(4)); }
// every member of a collection sees the elements, in the order of the members
SUITE(iterator_observer_collection, 2000, 50000, C10_RULE) {
    pbt::Src& s = src; Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5), x(x0), y(x0); s.note(p.describe()); Sys<Vec> sys(p); int m = (int)s.raw(4); size_t n = s.raw(8); double t0 = s.num(2), dt = s.logmag(0.02, 0.3); s.note("members", m); s.note("n", n); rhs_reset(200000);
    std::vector<std::pair<int, std::pair<double, Vec>>> log; observer_collection<Vec, double> col; for (int k = 0; k < m; ++k) col.observers().push_back([&log, k](const Vec& z, double t) { log.push_back({k, {t, z}}); });
    const observer_collection<Vec, double>& cc = col; REQUIRE_K("members", cc.observers().size() == (size_t)m && &cc.observers() == &col.observers(), "wrong number of members");
    Trace tr; if (s.flag()) integrate_n_steps(runge_kutta4<Vec>(), sys, x, t0, dt, n, col); else integrate_n_steps(runge_kutta4<Vec>(), sys, x, t0, dt, n, boost::ref(col)); integrate_n_steps(runge_kutta4<Vec>(), sys, y, t0, dt, n, Obs{&tr});
    REQUIRE_K("count", log.size() == m * tr.x.size(), log.size(), " calls of ", m, " members for ", tr.x.size(), " observations");
    for (size_t q = 0; q < log.size(); ++q) REQUIRE_K("order", log[q].first == (int)(q % m) && log[q].second.first == tr.t[q / m] && same_bits(log[q].second.second, tr.x[q / m]), "call ", q, " goes to member ", log[q].first, " with t=", log[q].second.first);
    if (m > 1 && n) s.nontrivial();
}
