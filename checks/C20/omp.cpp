// C20: integration of OpenMP states and with OpenMP algebras against the serial integration
#include "c20.hpp"
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
typedef od::openmp_state<double> OS;
// coupled system: neighbours in the joined order; the same expression for every representation
struct Chain { Elem e; double k; double f(const Vec& x, size_t i, double t) const { size_t n = x.size(); return e(x[i], i, t) + k * (x[(i + n - 1) % n] - x[i]); } void operator()(const Vec& x, Vec& d, double t) const { rhs_tick(); for (size_t i = 0; i < x.size(); ++i) d[i] = f(x, i, t); }
    void operator()(const OS& x, OS& d, double t) const { rhs_tick(); Vec v; for (auto& c : x) v.insert(v.end(), c.begin(), c.end()); size_t i = 0; for (size_t a = 0; a < x.size(); ++a) { REQUIRE_K("system_layout", d.size() == x.size() && d[a].size() == x[a].size(), "the system got states of different layout"); for (size_t j = 0; j < x[a].size(); ++j, ++i) d[a][j] = f(v, i, t); } } };
struct JV { void operator()(const Vec& x, Vec& o) const { o.insert(o.end(), x.begin(), x.end()); } void operator()(const OS& x, Vec& o) const { for (auto& c : x) o.insert(o.end(), c.begin(), c.end()); } };
#define RULE_O "two or more non-empty chunks and a completed step with a change of step size"
template <class M> void omp_case(pbt::Src& s) {
    rhs_reset(400000); s.label(M::name()); int th = (int)s.i(1, 6); omp_set_num_threads(th); omp_set_schedule((omp_sched_t)s.i(1, 3), (int)s.i(0, 3)); size_t n = gen_len(s), parts = s.i(1, 9); if (n > 60) n = 60; s.note("length", n); s.note("chunks", parts); s.note("threads", th); Chain y{gen_elem(s), s.num(1)}; Plan p = gen_plan(s); Vec x0 = s.vec(n, 2); s.note("x0", x0);
    typedef typename M::template type<Vec> A; typedef typename M::template type<OS> B; Log la, lb; Vec x(x0); OS o(parts); bool even = s.flag(70); if (even) od::split(x0, o); else { size_t at = 0; for (size_t c = 0; c < parts; ++c) { size_t m = c + 1 == parts ? n - at : s.i(0, n - at); o[c].assign(x0.begin() + at, x0.begin() + at + m); at += m; } }
    A a = M::template make<A>(p); B b = M::template make<B>(p); std::string ea, eb; try { drive(a, y, x, p, JV(), la, typename A::stepper_category()); } catch (const od::odeint_error& e) { ea = e.what(); } try { drive(b, y, o, p, JV(), lb, typename B::stepper_category()); } catch (const od::odeint_error& e) { eb = e.what(); }
    REQUIRE_K(std::string("omp_state_") + M::name(), ea == eb && same_bits(la.v, lb.v), "serial: ", vstr(la.v), " split into ", parts, ": ", vstr(lb.v)); Vec j; od::unsplit(o, j); REQUIRE_K("layout", ea.size() || same_bits(j, x), "final states differ"); size_t ne = 0; for (auto& c : o) ne += !c.empty(); if (ne > 1 && la.acc && la.adapted) s.nontrivial();
}
#define CASES(NAME, TYPE, CTOR) omp_case<M_##NAME>,
SUITE(omp_state, 6000, 150000, RULE_O) { static void (*const f[])(pbt::Src&) = {C20_STEPPERS(CASES)}; f[src.raw(sizeof f / sizeof *f)](src); }
// the flat vector with the parallel range algebra
typedef od::openmp_range_algebra RA;
template <class A, class B> void ra_case(pbt::Src& s, const char* name, A a, B b, const Plan& p) {
    s.label(name); int th = (int)s.i(1, 6); omp_set_num_threads(th); omp_set_schedule((omp_sched_t)s.i(1, 3), (int)s.i(0, 3)); size_t n = gen_len(s); s.note("length", n); s.note("threads", th); Chain y{gen_elem(s), s.num(1)}; Vec x0 = s.vec(n, 2), xa(x0), xb(x0); s.note("x0", x0); Log la, lb; std::string ea, eb;
    try { drive(a, y, xa, p, JV(), la, typename A::stepper_category()); } catch (const od::odeint_error& e) { ea = e.what(); } try { drive(b, y, xb, p, JV(), lb, typename B::stepper_category()); } catch (const od::odeint_error& e) { eb = e.what(); } REQUIRE_K(std::string("omp_range_") + name, ea == eb && same_bits(la.v, lb.v), "serial: ", vstr(la.v), " parallel range algebra: ", vstr(lb.v)); if (th > 1 && n > 1 && la.acc && la.adapted) s.nontrivial();
}
template <class S, class T> od::controlled_runge_kutta<S> ctl(const T& tol) { typedef od::controlled_runge_kutta<S> C; return C(typename C::error_checker_type(tol, tol)); }
SUITE(omp_range, 4000, 100000, "two or more threads and elements, a completed step with a change of step size") {
    rhs_reset(400000); Plan p = gen_plan(src); typedef double D;
    switch (src.raw(10)) {
    case 0: return ra_case(src, "rk4", od::runge_kutta4<Vec>(), od::runge_kutta4<Vec, D, Vec, D, RA>(), p); case 1: return ra_case(src, "euler", od::euler<Vec>(), od::euler<Vec, D, Vec, D, RA>(), p); case 2: return ra_case(src, "dopri5", ctl<od::runge_kutta_dopri5<Vec>>(p.tol), ctl<od::runge_kutta_dopri5<Vec, D, Vec, D, RA>>(p.tol), p);
    case 3: return ra_case(src, "cash_karp", ctl<od::runge_kutta_cash_karp54<Vec>>(p.tol), ctl<od::runge_kutta_cash_karp54<Vec, D, Vec, D, RA>>(p.tol), p); case 4: return ra_case(src, "fehlberg78", ctl<od::runge_kutta_fehlberg78<Vec>>(p.tol), ctl<od::runge_kutta_fehlberg78<Vec, D, Vec, D, RA>>(p.tol), p); case 5: return ra_case(src, "bulirsch_stoer", od::bulirsch_stoer<Vec>(p.tol, p.tol), od::bulirsch_stoer<Vec, D, Vec, D, RA>(p.tol, p.tol), p);
    case 6: return ra_case(src, "dense_dopri5", od::make_dense_output(p.tol, p.tol, od::runge_kutta_dopri5<Vec>()), od::make_dense_output(p.tol, p.tol, od::runge_kutta_dopri5<Vec, D, Vec, D, RA>()), p); case 7: return ra_case(src, "adams_bashforth_moulton", od::adams_bashforth_moulton<4, Vec>(), od::adams_bashforth_moulton<4, Vec, D, Vec, D, RA>(), p); case 8: return ra_case(src, "adaptive_adams", od::make_controlled(p.tol, p.tol, od::adaptive_adams_bashforth_moulton<4, Vec>()), od::make_controlled(p.tol, p.tol, od::adaptive_adams_bashforth_moulton<4, Vec, D, Vec, D, RA>()), p);
    default: return ra_case(src, "bulirsch_stoer_dense", od::bulirsch_stoer_dense_out<Vec>(p.tol, p.tol), od::bulirsch_stoer_dense_out<Vec, D, Vec, D, RA>(p.tol, p.tol), p); }
}
// a stepper that follows a change of layout (same total length, other chunks; other length)
template <class A, class B> void relayout(pbt::Src& s, const char* name) {
    rhs_reset(400000); s.label(name); omp_set_num_threads((int)s.i(1, 6)); size_t n = s.i(1, 30); Chain y{gen_elem(s), s.num(1)}; Vec x = s.vec(n, 2); double t = 0, dt = s.logmag(1e-2, 0.3); A a; B b; int rounds = (int)s.i(2, 5), changed = 0; size_t last = 0; s.note("x0", x); s.note("dt", dt);
    for (int r = 0; r < rounds; ++r) { size_t parts = s.i(1, 7); if (s.flag(30)) { x.resize(s.i(1, 30), 0.25); } s.note("chunks", parts); s.note("length", x.size()); OS o(parts); od::split(x, o); int k = (int)s.i(1, 3); for (int j = 0; j < k; ++j, t += dt) { a.do_step(y, x, t, dt); b.do_step(y, o, t, dt); } Vec q; od::unsplit(o, q); REQUIRE_K("relayout", same_bits(q, x), "after ", k, " steps in ", parts, " chunks: ", vstr(q), " serial ", vstr(x)); changed += parts != last; last = parts; } if (changed > 1) s.nontrivial();
}
template <class X> using AR4 = od::runge_kutta4<X, double, X, double, typename od::algebra_dispatcher<X>::algebra_type, od::default_operations, od::always_resizer>;
template <class X> using ACK = od::runge_kutta_cash_karp54<X, double, X, double, typename od::algebra_dispatcher<X>::algebra_type, od::default_operations, od::always_resizer>;
template <class X> using AMM = od::modified_midpoint<X, double, X, double, typename od::algebra_dispatcher<X>::algebra_type, od::default_operations, od::always_resizer>;
SUITE(layout_changes, 3000, 80000, "the chunk count changed at least twice") { switch (src.raw(3)) { case 0: return relayout<AR4<Vec>, AR4<OS>>(src, "rk4"); case 1: return relayout<ACK<Vec>, ACK<OS>>(src, "cash_karp"); default: return relayout<AMM<Vec>, AMM<OS>>(src, "midpoint"); } }
// symplectic stepper on pairs of split states; integrate functions
struct Q_ { template <class X> void operator()(const X& p, X& dq) const { each(p, dq, [](double z) { return z + 0.1 * z * z * z; }); } template <class F> static void each(const Vec& a, Vec& b, F f) { for (size_t k = 0; k < a.size(); ++k) b[k] = f(a[k]); } template <class F> static void each(const OS& a, OS& b, F f) { for (size_t k = 0; k < a.size(); ++k) each(a[k], b[k], f); } };
struct P_ { template <class X> void operator()(const X& q, X& dp) const { Q_::each(q, dp, [](double z) { return -std::sin(z); }); } };
SUITE(omp_integrate, 3000, 80000, "two or more chunks and steps") {
    rhs_reset(400000); omp_set_num_threads((int)src.i(1, 6)); size_t n = src.i(0, 20), parts = src.i(1, 6); src.note("length", n); src.note("chunks", parts); Plan p = gen_plan(src); Vec q = src.vec(n, 2), r = src.vec(n, 2); OS oq(parts), orr(parts); od::split(q, oq); od::split(r, orr); double t1 = p.t0 + p.dt * (p.n + 0.4); Vec la, lb, jq, jr; size_t sa = 0, sb = 0; Chain y{gen_elem(src), src.num(1)}; double tl = p.tol;
    auto oa = [&](const Vec& x, double t) { la.push_back(t); JV()(x, la); }; auto ob = [&](const OS& x, double t) { lb.push_back(t); JV()(x, lb); }; typedef od::runge_kutta_dopri5<Vec> DA; typedef od::runge_kutta_dopri5<OS, double> DB; typedef od::runge_kutta_cash_karp54<Vec> KA; typedef od::runge_kutta_cash_karp54<OS, double> KB;
    switch (src.raw(5)) {
    case 0: { od::symplectic_rkn_sb3a_mclachlan<Vec> A; od::symplectic_rkn_sb3a_mclachlan<OS> B; for (int k = 0; k < p.n; ++k) { auto pa = std::make_pair(boost::ref(q), boost::ref(r)); auto pb = std::make_pair(boost::ref(oq), boost::ref(orr)); A.do_step(std::make_pair(Q_(), P_()), pa, p.t0, p.dt); B.do_step(std::make_pair(Q_(), P_()), pb, p.t0, p.dt); sa++; sb++; } src.label("symplectic"); break; }
    case 1: sa = od::integrate_const(od::make_controlled(tl, tl, KA()), y, q, p.t0, t1, p.dt, oa); sb = od::integrate_const(od::make_controlled(tl, tl, KB()), y, oq, p.t0, t1, p.dt, ob); src.label("integrate_const"); break;
    case 2: sa = od::integrate_adaptive(od::make_controlled(tl, tl, DA()), y, q, p.t0, t1, p.dt, oa); sb = od::integrate_adaptive(od::make_controlled(tl, tl, DB()), y, oq, p.t0, t1, p.dt, ob); src.label("integrate_adaptive"); break;
    case 3: sa = od::integrate_const(od::make_dense_output(tl, tl, DA()), y, q, p.t0, t1, p.dt, oa); sb = od::integrate_const(od::make_dense_output(tl, tl, DB()), y, oq, p.t0, t1, p.dt, ob); src.label("dense integrate_const"); break;
    default: { Vec ts; for (int k = 0; k <= p.n; ++k) ts.push_back(p.t0 + k * p.dt); sa = od::integrate_times(od::make_dense_output(tl, tl, DA()), y, q, ts, p.dt, oa); sb = od::integrate_times(od::make_dense_output(tl, tl, DB()), y, oq, ts, p.dt, ob); src.label("integrate_times"); } }
    od::unsplit(oq, jq); od::unsplit(orr, jr); REQUIRE_K("integrate", sa == sb && same_bits(la, lb) && same_bits(jq, q) && same_bits(jr, r), sa, "/", sb, " steps; serial ", vstr(q), " split ", vstr(jq)); if (parts > 1 && sa > 1) src.nontrivial();
}
