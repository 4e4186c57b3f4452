// C19: documented defaults, and the convenience integrate call
#include "zoo.hpp"
#include "jsys.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/array.hpp>
#include <complex>
#include <array>
typedef od::runge_kutta_dopri5<Vec> D5; typedef od::runge_kutta_cash_karp54<Vec> C54;
struct Tr { std::vector<double> v; bool adapted = false; int acc = 0; };
struct In { double t0, dt; int n; std::vector<double> kick; };
inline In gen_in(pbt::Src& s) { In g; double sg = s.flag(30) ? -1 : 1; g.dt = sg * s.logmag(1e-4, 0.9); g.t0 = s.num(5); g.n = (int)s.i(2, 10); for (int k = 0; k < g.n; ++k) g.kick.push_back(s.flag(25) ? s.mag(0.2, 2.5) : 1.0); s.note("t0", g.t0); s.note("dt", g.dt); s.note("n", g.n); s.note("kick", g.kick); return g; }
template <class C, class Y, class X> Tr trace_c(C& c, Y sys, X x, const In& g) { Tr r; double t = g.t0, dt = g.dt; for (int k = 0; k < g.n; ++k) { double d0 = dt; int ok; try { ok = c.try_step(sys, x, t, dt) == od::success; } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { r.v.push_back(-77); break; } if (dt != d0) r.adapted = true; r.acc += ok; r.v.push_back(ok); r.v.push_back(t); r.v.push_back(dt); r.v.insert(r.v.end(), x.begin(), x.end()); dt *= g.kick[k]; if (!(std::fabs(dt) > 1e-12) || !std::isfinite(x[0])) break; } return r; }
template <class C, class Y, class X> Tr trace_d(C& c, Y sys, X x, const In& g) { Tr r; c.initialize(x, g.t0, g.dt); for (int k = 0; k < g.n; ++k) { double d0 = c.current_time_step(); std::pair<double, double> p; try { p = c.do_step(sys); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { r.v.push_back(-77); break; } r.acc++; r.v.push_back(p.first); r.v.push_back(p.second); r.v.push_back(c.current_time_step()); if (c.current_time_step() != d0) r.adapted = true; const X& y = c.current_state(); r.v.insert(r.v.end(), y.begin(), y.end()); X q(x); c.calc_state(p.first + g.kick[k] * 0.4 * (p.second - p.first), q); r.v.insert(r.v.end(), q.begin(), q.end()); if (!std::isfinite(y[0])) break; } return r; }
template <class S, class Y, class X> Tr trace_s(S& c, Y sys, X x, const In& g) { Tr r; double t = g.t0; for (int k = 0; k < g.n; ++k) { double dt = g.dt * g.kick[k]; try { c.do_step(sys, x, t, dt); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { r.v.push_back(-77); break; } t += dt; r.acc++; r.adapted = true; r.v.insert(r.v.end(), x.begin(), x.end()); } return r; }
inline void same(pbt::Src& s, const char* key, const Tr& a, const Tr& b) { REQUIRE_K(key, same_bits(a.v, b.v), "with the default arguments: ", vstr(a.v), "; with the documented values spelled out: ", vstr(b.v)); if (a.acc && a.adapted) s.nontrivial(); s.label(key); }
#define RULE_D "an accepted step and a change of step size in the trace"
template <class A, class B> void cmp_c(pbt::Src& s, const char* key, A a, B b) { In g = gen_in(s); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x); Sys<Vec> y(p); same(s, key, trace_c(a, y, x, g), trace_c(b, y, x, g)); }
template <class A, class B> void cmp_d(pbt::Src& s, const char* key, A a, B b) { In g = gen_in(s); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x); Sys<Vec> y(p); same(s, key, trace_d(a, y, x, g), trace_d(b, y, x, g)); }
template <class A, class B> void cmp_s(pbt::Src& s, const char* key, A a, B b) { In g = gen_in(s); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x); Sys<Vec> y(p); same(s, key, trace_s(a, y, x, g), trace_s(b, y, x, g)); }
typedef od::controlled_runge_kutta<D5> CD; typedef od::controlled_runge_kutta<C54> CC; typedef od::bulirsch_stoer<Vec> BS; typedef od::bulirsch_stoer_dense_out<Vec> BD; typedef od::rosenbrock4<double> R4; typedef od::rosenbrock4_controller<R4> RC; typedef od::rosenbrock4_dense_output<RC> RD;
typedef od::adaptive_adams_bashforth_moulton<4, Vec> AB; typedef od::controlled_adams_bashforth_moulton<AB> CAB; typedef od::modified_midpoint<Vec> MM;
template <class C> C crk(double a, double r, double ax, double ad, double m = 0) { return C(typename C::error_checker_type(a, r, ax, ad), typename C::step_adjuster_type(m), typename C::stepper_type()); }
SUITE(defaults_rk, 6000, 200000, RULE_D) {
    rhs_reset(400000); double a = src.logmag(1e-11, 1e-2), r = src.logmag(1e-11, 1e-2), ax = src.mag(0, 3), ad = src.mag(0, 3); src.note("a", a); src.note("r", r); src.note("a_x", ax); src.note("a_dxdt", ad); typedef CD::error_checker_type E; typedef CC::error_checker_type F; const double e = 1e-6;
    switch (src.raw(10)) {
    case 0: return cmp_c(src, "controlled_dopri5()", CD(), crk<CD>(e, e, 1, 1)); case 1: return cmp_c(src, "controlled_cash_karp54()", CC(), crk<CC>(e, e, 1, 1));
    case 2: return cmp_c(src, "error_checker(abs) fsal", CD(E(a)), crk<CD>(a, e, 1, 1)); case 3: return cmp_c(src, "error_checker(abs)", CC(F(a)), crk<CC>(a, e, 1, 1));
    case 4: return cmp_c(src, "error_checker(abs,rel) fsal", CD(E(a, r)), crk<CD>(a, r, 1, 1)); case 5: return cmp_c(src, "error_checker(abs,rel)", CC(F(a, r)), crk<CC>(a, r, 1, 1));
    case 6: return cmp_c(src, "error_checker(abs,rel,a_x)", CC(F(a, r, ax)), crk<CC>(a, r, ax, 1)); case 7: return cmp_c(src, "error_checker(all)", CD(E(a, r, ax, ad)), crk<CD>(a, r, ax, ad));
    case 8: return cmp_d(src, "dense_output_runge_kutta()", od::dense_output_runge_kutta<CD>(), od::dense_output_runge_kutta<CD>(crk<CD>(e, e, 1, 1)));
    default: return cmp_d(src, "dense_output_runge_kutta(euler)", od::dense_output_runge_kutta<od::euler<Vec>>(), od::dense_output_runge_kutta<od::euler<Vec>>(od::euler<Vec>())); }
}
SUITE(defaults_bs, 6000, 200000, RULE_D) {
    rhs_reset(400000); double a = src.logmag(1e-11, 1e-2), r = src.logmag(1e-11, 1e-2), ax = src.mag(0, 3), ad = src.mag(0, 3), m = src.mag(0.01, 1); src.note("a", a); src.note("r", r); src.note("a_x", ax); src.note("a_dxdt", ad); src.note("m", m); const double e = 1e-6;
    switch (src.raw(12)) {
    case 0: return cmp_c(src, "bulirsch_stoer()", BS(), BS(e, e, 1, 1, 0)); case 1: return cmp_c(src, "bulirsch_stoer(abs)", BS(a), BS(a, e, 1, 1, 0)); case 2: return cmp_c(src, "bulirsch_stoer(abs,rel)", BS(a, r), BS(a, r, 1, 1, 0)); case 3: return cmp_c(src, "bulirsch_stoer(abs,rel,a_x)", BS(a, r, ax), BS(a, r, ax, 1, 0)); case 4: return cmp_c(src, "bulirsch_stoer(abs,rel,a_x,a_dxdt)", BS(a, r, ax, ad), BS(a, r, ax, ad, 0));
    case 5: return cmp_d(src, "bulirsch_stoer_dense_out()", BD(), BD(e, e, 1, 1, 0, false)); case 6: return cmp_d(src, "bulirsch_stoer_dense_out(abs)", BD(a), BD(a, e, 1, 1, 0, false)); case 7: return cmp_d(src, "bulirsch_stoer_dense_out(abs,rel)", BD(a, r), BD(a, r, 1, 1, 0, false)); case 8: return cmp_d(src, "bulirsch_stoer_dense_out(abs,rel,a_x)", BD(a, r, ax), BD(a, r, ax, 1, 0, false)); case 9: return cmp_d(src, "bulirsch_stoer_dense_out(abs,rel,a_x,a_dxdt)", BD(a, r, ax, ad), BD(a, r, ax, ad, 0, false)); case 10: return cmp_d(src, "bulirsch_stoer_dense_out(...,max_dt)", BD(a, r, ax, ad, m), BD(a, r, ax, ad, m, false));
    default: if (src.flag()) return cmp_s(src, "modified_midpoint()", MM(), MM(2)); int n = (int)src.i(1, 9); MM q; q.set_steps((unsigned short)n); REQUIRE_K("modified_midpoint steps", MM().steps() == 2 && q.steps() == n && MM((unsigned short)n).steps() == n, "steps"); return cmp_s(src, "modified_midpoint::set_steps", q, MM((unsigned short)n)); }
}
SUITE(defaults_other, 4000, 100000, RULE_D) {
    rhs_reset(400000); double a = src.logmag(1e-9, 1e-2), r = src.logmag(1e-9, 1e-2); src.note("a", a); src.note("r", r); const double e = 1e-6; int c = (int)src.raw(8); if (c >= 5) { typedef CAB::step_adjuster_type A; if (c == 5) return cmp_c(src, "controlled_adams_bashforth_moulton()", CAB(), CAB(A(e, e, 1.0))); if (c == 6) return cmp_c(src, "pid_step_adjuster(abs)", CAB(A(a)), CAB(A(a, e, 1.0))); return cmp_c(src, "pid_step_adjuster(abs,rel)", CAB(A(a, r)), CAB(A(a, r, 1.0))); }
    In g = gen_in(src); Prob p = gen_prob(src, (int)src.i(1, 3), SMOOTHKINDS, 1.0); Vec x = src.vec(p.d, 1.5); src.note(p.describe()); src.note("x0", x); auto y = jpair(p); UV u = mk(x);
    if (c == 0) { RC A, B(e, e, R4()); return same(src, "rosenbrock4_controller()", trace_c(A, y, u, g), trace_c(B, y, u, g)); } if (c == 1) { RC A(a), B(a, e, R4()); return same(src, "rosenbrock4_controller(abs)", trace_c(A, y, u, g), trace_c(B, y, u, g)); } if (c == 2) { RC A(a, r), B(a, r, 0.0, R4()); return same(src, "rosenbrock4_controller(abs,rel)", trace_c(A, y, u, g), trace_c(B, y, u, g)); }
    if (c == 3) { RD A, B(RC(e, e, R4())); return same(src, "rosenbrock4_dense_output()", trace_d(A, y, u, g), trace_d(B, y, u, g)); } { g.dt *= 0.05; /* Newton converges */ od::implicit_euler<double> A, B(1e-6); return same(src, "implicit_euler()", trace_s(A, y, u, g), trace_s(B, y, u, g)); }
}

// ---- integrate(): adaptive integration with controlled dopri5 and 1e-6 / 1e-6
struct Rec { std::vector<double>* v; long* n; template <class X, class T> void operator()(const X& x, T t) { ++*n; v->push_back((double)t); for (auto& z : x) { v->push_back((double)std::real(z)); v->push_back((double)std::imag(z)); } } };
template <class X, class V, class T, class Y> void integ(pbt::Src& s, const char* name, Y sys, X x0, bool val_ok) {
    s.label(name); bool flt = std::is_same<V, float>::value; T t0 = (T)s.num(3); double sg = s.flag(30) ? -1 : 1; T t1 = (T)(t0 + sg * s.mag(0.01, 4)), dt = (T)(sg * s.logmag(1e-4, flt ? 0.3 : 1.5)); if (s.flag(5)) t1 = t0; s.note("t0", t0); s.note("t1", t1); s.note("dt", dt); int form = (int)s.raw(8); if (!val_ok) form |= 2; s.note("form", form);
    typedef od::runge_kutta_dopri5<X, V, X, T> St; typedef od::controlled_runge_kutta<St> C; C ref(typename C::error_checker_type((V)1e-6, (V)1e-6, (V)1, (V)1), typename C::step_adjuster_type((T)0), St());
    std::vector<double> va, vb; long na = 0, nb = 0; X xa(x0), xb(x0); size_t ra = 0, rb = 0; bool ea = false, eb = false; Rec ob{&vb, &nb}, oa{&va, &na};
    rhs_reset(200000); try { rb = od::integrate_adaptive(ref, sys, xb, t0, t1, dt, ob); } catch (const pbt::Fail&) { throw; } catch (const od::odeint_error&) { eb = true; } long evb = rhs_count().calls;
    rhs_reset(200000); try { if (form & 1) { // without observer
            if constexpr (std::is_same<V, typename X::value_type>::value) ra = form & 2 ? od::integrate<V>(sys, xa, t0, t1, dt) : form & 4 ? od::integrate(boost::ref(sys), xa, t0, t1, dt) : od::integrate(sys, xa, t0, t1, dt); else ra = od::integrate<V>(sys, xa, t0, t1, dt);
        } else { if constexpr (std::is_same<V, typename X::value_type>::value) ra = form & 2 ? od::integrate<V>(sys, xa, t0, t1, dt, oa) : form & 4 ? od::integrate(sys, xa, t0, t1, dt, boost::ref(oa)) : od::integrate(sys, xa, t0, t1, dt, oa); else ra = od::integrate<V>(sys, xa, t0, t1, dt, oa); } } catch (const pbt::Fail&) { throw; } catch (const od::odeint_error&) { ea = true; }
    REQUIRE_K("integrate", ea == eb && ra == rb && !std::memcmp(&xa[0], &xb[0], sizeof xa[0] * xa.size()), "integrate returned ", ra, " steps, adaptive integration with controlled dopri5 and 1e-6 tolerances ", rb, ", or the final states differ"); REQUIRE_K("integrate_evals", ea || rhs_count().calls == evb, "integrate used ", rhs_count().calls, " evaluations, not ", evb);
    if (!(form & 1)) REQUIRE_K("integrate_observer", same_bits(va, vb), "the observations differ: ", na, " / ", nb); if (!ea && rb >= 3) s.nontrivial();
}
struct CplxSys { Prob p; template <class X, class D> void operator()(const X& x, D& dx, double t) const { rhs_tick(); std::vector<double> r(2 * x.size()), d(2 * x.size()); for (size_t k = 0; k < x.size(); ++k) { r[2 * k] = x[k].real(); r[2 * k + 1] = x[k].imag(); } p.eval<double>(r, d, t); for (size_t k = 0; k < x.size(); ++k) dx[k] = {d[2 * k], d[2 * k + 1]}; } };
SUITE(integrate_call, 4000, 120000, "three or more steps were taken") {
    int c = (int)src.raw(6); int d = c == 1 || c == 2 ? 2 : (int)src.i(1, 4); Prob p = gen_prob(src, c == 4 ? 2 * d : d, SMOOTHKINDS, 1.0); Vec x0 = src.vec(p.d, 1.5); src.note(p.describe()); src.note("x0", x0);
    switch (c) { case 0: return integ<Vec, double, double>(src, "vector", Sys<Vec>(p), x0, true); case 1: { boost::array<double, 2> a = {{x0[0], x0[1]}}; return integ<boost::array<double, 2>, double, double>(src, "boost::array", Sys<Vec>(p), a, true); } case 2: { std::array<double, 2> a = {{x0[0], x0[1]}}; return integ<std::array<double, 2>, double, double>(src, "std::array", Sys<Vec>(p), a, true); }
    case 3: return integ<std::vector<float>, float, float>(src, "vector<float>", Sys<std::vector<float>, float>(p), std::vector<float>(x0.begin(), x0.end()), true); case 4: { std::vector<std::complex<double>> z(d); for (int k = 0; k < d; ++k) z[k] = {x0[2 * k], x0[2 * k + 1]}; return integ<std::vector<std::complex<double>>, double, double>(src, "vector<complex>", CplxSys{p}, z, false); }
    default: { std::vector<long double> z(x0.begin(), x0.end()); return integ<std::vector<long double>, long double, double>(src, "vector<long double>", Sys<std::vector<long double>>(p), z, true); } }
}
