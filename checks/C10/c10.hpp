#include "accuracy.hpp"
#ifdef C10_ITERATOR_INTEGRATE
#include <boost/numeric/odeint/iterator/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/iterator/integrate/integrate_times.hpp>
#else
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#endif
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/range/algorithm/for_each.hpp>
#include <boost/range/adaptor/filtered.hpp>
#define C10_RULE "the range has at least two elements, or the interval is empty / shorter than one step"
namespace {
struct Take { Trace* tr; size_t limit; void chk() const { if (tr->x.size() > limit) pbt::fail("endless", pbt::str("iterator produced more than ", limit, " elements")); }
    void operator()(const Vec& x) const { tr->x.push_back(x); chk(); }
    template <class A, class B> void operator()(const std::pair<A, B>& q) const { tr->t.push_back(q.second); tr->x.push_back(q.first); chk(); } };
// walk [b,e) in one of several ways
template <class It> void walk(pbt::Src& s, It b, It e, Trace& tr, size_t limit) {
    Take take{&tr, limit};
    REQUIRE_K("equality", b == b && e == e && (b == e) == !(b != e), "iterator equality is not consistent");
    int way = (int)s.raw(6); s.note("walk", way); static const char* nm[] = {"pre-increment", "post-increment", "copied iterators", "std::for_each", "Boost.Range", "pre-increment result"}; s.label(nm[way]);
    switch (way) {
    case 0: for (It i = b; i != e; ++i) take(*i); break;
    case 1: for (It i = b; i != e; i++) take(*i); break;
    case 2: { It i(b); It j = b; j = i; It end2(e); while (j != end2) { take(*j); It k(j); ++k; j = k; } break; }
    case 3: std::for_each(b, e, take); break;
    case 4: boost::for_each(std::make_pair(b, e), take); break;
    default: if (b == e) break; { It i = b; take(*i); for (;;) { It& r = ++i; if (r == e) break; take(*r); } }
    }
}
enum Cmp { TIGHT, LOOSE };
void compare(const Trace& it, const Trace& in, bool timeform, double tol, double ttol) {
    REQUIRE_K("length", it.x.size() == in.x.size(), it.x.size(), " iterator elements, the integrate function observed ", in.x.size());
    for (size_t k = 0; k < in.x.size(); ++k) {
        if (timeform) REQUIRE_K("times", std::fabs(it.t[k] - in.t[k]) <= ttol, "element ", k, " has time ", it.t[k], ", integrate observed ", in.t[k]);
        double m = 1 + maxabs(in.x[k]); if (!(m < 1e8)) return;
        check_close("states", pbt::str("element ", k, " against the state observed by integrate at t=", in.t[k]), it.x[k], in.x[k], tol * m);
    }
}
struct Setup { Prob p; Vec x0; bool byref, timef, range; };
Setup gen_setup(pbt::Src& s) { Setup u; u.p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); u.p.w = 0.5 + (u.p.w - 0.5) * 0.3; u.x0 = s.vec(u.p.d, 1.5); u.byref = s.flag(30); u.timef = s.flag(70); u.range = s.flag(40); s.note(u.p.describe()); s.note(" x0", u.x0); s.note("time form", u.timef); s.note("by reference", u.byref); s.label(u.timef ? "state and time" : "state only"); if (u.byref) s.label("stepper by reference"); if (u.range) s.label("range function"); return u; }

#define C10_WALK(NAME, SYS, TAIL) do { \
    if (u.timef) { if (u.range) { auto r = od::make_##NAME##_time_range(sarg, SYS, x, TAIL); walk(s, r.first, r.second, it, lim); } else walk(s, od::make_##NAME##_time_iterator_begin(sarg, SYS, x, TAIL), od::make_##NAME##_time_iterator_end(sarg, SYS, x), it, lim); } \
    else { if (u.range) { auto r = od::make_##NAME##_range(sarg, SYS, x, TAIL); walk(s, r.first, r.second, it, lim); } else walk(s, od::make_##NAME##_iterator_begin(sarg, SYS, x, TAIL), od::make_##NAME##_iterator_end(sarg, SYS, x), it, lim); } } while (0)
#define COMMA ,
template <class St, class F> void withstepper(bool byref, St st, F f) { if (byref) f(boost::ref(st)); else f(st); }
template <class Vx> double gscale(const Vx&) { return 1; }

template <class Make> void c10_const(pbt::Src& s, Make make, bool nsteps, double tol, long maxn = 200) {
    rhs_reset(); Grid g = gen_grid(s, maxn, 0.6); if (g.n * std::fabs(g.dt) > 4) { g.n = std::max(1l, (long)(4 / std::fabs(g.dt))); g.t1 = g.t0 + (g.exact ? g.n : g.n + 0.5) * g.dt; g.boundary = false; }
    if (g.boundary) { g.t1 = g.t0 + (g.n + 0.5) * g.dt; }
    Setup u = gen_setup(s); note_grid(s, g); Sys<Vec> sys(u.p); Trace it, in; Vec x = u.x0, y = u.x0; size_t lim = g.n + 10;
    if (nsteps) { withstepper(u.byref, make(), [&](auto sarg) { C10_WALK(n_step, sys, g.t0 COMMA g.dt COMMA (size_t)g.n); }); od::integrate_n_steps(make(), sys, y, g.t0, g.dt, (size_t)g.n, Obs{&in}); }
    else { withstepper(u.byref, make(), [&](auto sarg) { C10_WALK(const_step, sys, g.t0 COMMA g.t1 COMMA g.dt); }); od::integrate_const(make(), sys, y, g.t0, g.t1, g.dt, Obs{&in}); }
    if (tol > 1e-9) { RefTrace r = ref_trace(u.p, u.x0, in.t); if (!r.ok) throw pbt::Discard(); tol *= r.G * (1 + r.xmax); for (size_t k = 0; k < in.t.size(); ++k) check_close("observed", pbt::str("state observed by integrate at t=", in.t[k]), in.x[k], r.x[k], tol); }
    compare(it, in, u.timef, tol, 8 * ulp(std::max(std::fabs(g.t0), std::fabs(g.t1))));
    if (u.timef) for (size_t k = 0; k < it.t.size(); ++k) REQUIRE_K("grid", std::fabs(it.t[k] - (g.t0 + k * g.dt)) <= time_tol(g, it.t[k]), "element ", k, " at ", it.t[k], " instead of ", g.t0 + k * g.dt);
    REQUIRE_K("start_state", it.x.size() && same_bits(it.x[0], u.x0), "the first element is not the initial state");
    if (it.x.size() > 1 || g.n < 1) s.nontrivial();
}
template <class Make> void c10_adaptive(pbt::Src& s, Make make) {
    rhs_reset(200000); double t0 = gen_t0(s, false), L = s.raw(12) == 11 ? 0 : s.mag(0.05, 2), dt = (L ? L : 0.3) * s.logmag(1e-3, 20); int sg = s.flag() ? -1 : 1; double t1 = t0 + sg * L; dt *= sg;
    if (L && s.flag(15)) { t0 = -sg * s.mag(0.4, 1.6); t1 = sg * s.mag(0.01, 0.3); dt = (t1 - t0) * s.pick({1.5, 0.4, 0.05}); }
    Setup u = gen_setup(s); s.note("t0", t0); s.note("t1", t1); s.note("dt", dt); if (sg < 0) s.label("backward"); if (!L) s.label("empty interval"); Sys<Vec> sys(u.p); Trace it, in; Vec x = u.x0, y = u.x0; size_t lim = 20000;
    withstepper(u.byref, make(), [&](auto sarg) { C10_WALK(adaptive, sys, t0 COMMA t1 COMMA dt); }); rhs_reset(200000); od::integrate_adaptive(make(), sys, y, t0, t1, dt, Obs{&in});
    compare(it, in, u.timef, 1e-11, 16 * ulp(std::max(std::fabs(t0), std::fabs(t1)))); REQUIRE_K("start_state", it.x.size() && same_bits(it.x[0], u.x0), "the first element is not the initial state");
    if (u.timef) REQUIRE_K("end", std::fabs(it.t.back() - t1) <= 8 * ulp(std::max(std::fabs(t0), std::fabs(t1))) + 4.5e-16, "last element at ", it.t.back(), ", interval ends at ", t1);
    if (it.x.size() > 1 || !L) s.nontrivial(); if (it.x.size() == 2) s.label("single step");
}
template <class Make> void c10_times(pbt::Src& s, Make make, double tol) {
    rhs_reset(200000); size_t n = s.raw(10) ? s.i(1, 12) : s.i(0, 60); int sg = s.flag() ? -1 : 1; double t0 = gen_t0(s, false), t = t0, dt = s.logmag(0.01, 1), left = 2; std::vector<double> ts;
    for (size_t k = 0; k < n; ++k) { if (k) { double gap = s.flag(15) ? 0 : s.flag(25) ? dt : dt * s.logmag(0.01, 5); if (gap > left) gap = 0; left -= gap; t += sg * gap; } ts.push_back(t); } dt *= sg;
    Setup u = gen_setup(s); s.note("times", ts); s.note("dt", dt); Sys<Vec> sys(u.p); Trace it, in; Vec x = u.x0, y = u.x0; size_t lim = n + 10; typedef std::vector<double>::const_iterator TI; TI b = ts.begin(), e = ts.end();
    withstepper(u.byref, make(), [&](auto sarg) { typedef decltype(sarg) SA; (void)sizeof(SA);
        if (u.timef) { if (u.range) { auto r = od::make_times_time_range(sarg, sys, x, b, e, dt); walk(s, r.first, r.second, it, lim); } else walk(s, od::make_times_time_iterator_begin(sarg, sys, x, b, e, dt), od::make_times_time_iterator_end<TI>(sarg, sys, x), it, lim); }
        else { if (u.range) { auto r = od::make_times_range(sarg, sys, x, b, e, dt); walk(s, r.first, r.second, it, lim); } else walk(s, od::make_times_iterator_begin(sarg, sys, x, b, e, dt), od::make_times_iterator_end<TI>(sarg, sys, x), it, lim); } });
    rhs_reset(200000); size_t cnt = od::integrate_times(make(), sys, y, b, e, dt, Obs{&in});
#ifdef C10_ITERATOR_INTEGRATE
    if (n == 0) cnt = 0; // undocumented variant, counts observations
#endif
    if (n == 0) REQUIRE_K("empty", cnt == 0 && in.x.empty() && it.x.empty() && same_bits(y, u.x0), "empty list of times: ", cnt, " steps, ", in.x.size(), " observations, ", it.x.size(), " elements");
    double sc = n ? std::max(std::fabs(t0), std::fabs(ts.back())) : 1; (void)sc;
    REQUIRE_K("length", it.x.size() == n, it.x.size(), " elements for ", n, " times");
    if (tol > 1e-9 && n) { RefTrace r = ref_trace(u.p, u.x0, ts); if (!r.ok) throw pbt::Discard(); tol *= r.G * (1 + r.xmax); for (size_t k = 0; k < n; ++k) check_close("accuracy", pbt::str("element ", k, " against the exact solution at t=", ts[k]), it.x[k], r.x[k], tol); }
    compare(it, in, u.timef, tol, 4 * ulp(sc) + 2.3e-16);
    if (n > 1 || n == 0) s.nontrivial(); if (!n) s.label("no times"); if (n > 1 && ts[1] == ts[0]) s.label("first time repeated"); if (sg < 0) s.label("descending");
}
} // namespace
