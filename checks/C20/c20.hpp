#ifndef C20_HPP
#define C20_HPP
#include "zoo.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/util/split_adaptor.hpp>
#include <boost/numeric/odeint/util/split.hpp>
// elementwise system; the i-th element's law depends on its global index
struct Elem { std::vector<double> c; double w; double operator()(double x, size_t i, double t) const { double a = c[i % c.size()], b = c[(i / c.size() + 1) % c.size()]; return a * std::sin(w * t + x) + b * std::cos(x) - 0.1 * x; } };
inline Elem gen_elem(pbt::Src& s) { Elem e; e.c = s.vec(5, 1.5); e.w = s.mag(0.3, 3); s.note("c", e.c); s.note("w", e.w); return e; }
struct Log { std::vector<double> v; bool adapted = false; int acc = 0; };
struct Plan { double t0, dt, tol; int n; std::vector<double> f; std::vector<char> q; };
inline Plan gen_plan(pbt::Src& s) { Plan p; p.t0 = s.num(3); p.dt = (s.flag(30) ? -1 : 1) * s.logmag(1e-3, 0.5); p.tol = s.logmag(1e-9, 1e-2); p.n = (int)s.i(1, 8); for (int k = 0; k < p.n; ++k) { p.f.push_back(s.flag(25) ? s.mag(0.2, 2) : 1); p.q.push_back((char)s.raw(3)); } s.note("t0", p.t0); s.note("dt", p.dt); s.note("tol", p.tol); s.note("n", p.n); return p; }
// drive a stepper through the plan; `join` turns a state into the flat vector (or nothing), scalars go to the log of every rank
template <class S, class Y, class X, class J> void drive(S& st, Y sys, X& x, const Plan& p, J join, Log& l, od::stepper_tag) { double t = p.t0; for (int k = 0; k < p.n; ++k) { double dt = p.dt * p.f[k]; if (p.q[k] == 1) { X o(x); st.do_step(sys, x, t, o, dt); od::copy(o, x); } else st.do_step(sys, x, t, dt); t += dt; l.acc++; l.adapted = true; join(x, l.v); } }
template <class S, class Y, class X, class J> void drive(S& st, Y sys, X& x, const Plan& p, J join, Log& l, od::error_stepper_tag) { double t = p.t0; for (int k = 0; k < p.n; ++k) { double dt = p.dt * p.f[k]; if (p.q[k] == 0) st.do_step(sys, x, t, dt); else { X e(x); st.do_step(sys, x, t, dt, e); join(e, l.v); } t += dt; l.acc++; l.adapted = true; join(x, l.v); } }
template <class S, class Y, class X, class J> void drive(S& st, Y sys, X& x, const Plan& p, J join, Log& l, od::explicit_error_stepper_fsal_tag) { drive(st, sys, x, p, join, l, od::error_stepper_tag()); }
template <class S, class Y, class X, class J> void drive(S& st, Y sys, X& x, const Plan& p, J join, Log& l, od::controlled_stepper_tag) { double t = p.t0, dt = p.dt; for (int k = 0; k < p.n; ++k) { double d0 = dt; bool ok = st.try_step(sys, x, t, dt) == od::success; l.acc += ok; l.adapted |= dt != d0; l.v.push_back(ok); l.v.push_back(t); l.v.push_back(dt); join(x, l.v); dt *= p.f[k]; if (!(std::fabs(dt) > 1e-9)) break; } }
template <class S, class Y, class X, class J> void drive(S& st, Y sys, X& x, const Plan& p, J join, Log& l, od::dense_output_stepper_tag) { st.initialize(x, p.t0, p.dt); for (int k = 0; k < p.n; ++k) { double d0 = st.current_time_step(); auto r = st.do_step(sys); l.acc++; l.adapted |= st.current_time_step() != d0; l.v.push_back(r.first); l.v.push_back(r.second); join(st.current_state(), l.v); X q(x); st.calc_state(r.first + 0.3 * p.f[k] * (r.second - r.first), q); join(q, l.v); if (!(std::fabs(st.current_time_step()) > 1e-9)) break; } }
inline size_t gen_len(pbt::Src& s) { int r = (int)s.raw(10); return r < 6 ? s.i(0, 12) : r < 9 ? s.i(0, 40) : s.i(0, 400); }
#define C20_STEPPERS(X) \
    X(euler, od::euler<St>, S()) X(rk4, od::runge_kutta4<St>, S()) X(rk4_classic, od::runge_kutta4_classic<St>, S()) X(cash_karp, od::runge_kutta_cash_karp54<St>, S()) X(cash_karp_classic, od::runge_kutta_cash_karp54_classic<St>, S()) X(dopri5, od::runge_kutta_dopri5<St>, S()) X(fehlberg78, od::runge_kutta_fehlberg78<St>, S()) X(midpoint, od::modified_midpoint<St>, S(4)) \
    X(adams_bashforth, EX1(od::adams_bashforth<4, St>), S()) X(adams_bashforth_moulton, EX1(od::adams_bashforth_moulton<3, St>), S()) X(extrapolation, EX1(od::extrapolation_stepper<6, St>), S()) \
    X(controlled_ck, od::controlled_runge_kutta<od::runge_kutta_cash_karp54<St>>, S(typename S::error_checker_type(p.tol, p.tol))) X(controlled_dopri5, od::controlled_runge_kutta<od::runge_kutta_dopri5<St>>, S(typename S::error_checker_type(p.tol, p.tol))) X(controlled_f78, od::controlled_runge_kutta<od::runge_kutta_fehlberg78<St>>, S(typename S::error_checker_type(p.tol, p.tol))) \
    X(dense_euler, od::dense_output_runge_kutta<od::euler<St>>, S()) X(dense_dopri5, od::dense_output_runge_kutta<od::controlled_runge_kutta<od::runge_kutta_dopri5<St>>>, S(typename S::controlled_stepper_type(typename S::controlled_stepper_type::error_checker_type(p.tol, p.tol)))) X(bulirsch_stoer, od::bulirsch_stoer<St>, S(p.tol, p.tol)) X(bulirsch_stoer_dense, od::bulirsch_stoer_dense_out<St>, S(p.tol, p.tol))
#define EX1(...) __VA_ARGS__
#define MK(NAME, TYPE, CTOR) struct M_##NAME { template <class St> using type = TYPE; template <class S> static S make(const Plan& p) { (void)p; return CTOR; } static const char* name() { return #NAME; } };
C20_STEPPERS(MK)
#undef MK
#endif
