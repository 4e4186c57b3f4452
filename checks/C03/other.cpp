#include "jsys.hpp"
#include "c03.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
typedef boost::array<double, 3> A3;
struct UVTag {}; template <class S> struct SysOf { typedef Sys<S> type; static type of(const Prob& p) { return type(p); } }; template <> struct SysOf<UV> { typedef JPair type; static type of(const Prob& p) { return jpair(p); } };
template <> struct mk_state<UV> { static UV of(const Vec& v) { return mk(v); } static Vec to(const UV& u) { return uv(u); } static UV blank(size_t n) { return mk(Vec(n, 0.125)); } };
// dense-output steppers
template <class D, class S> struct DenseM {
    typedef D St; typedef PosX Pos; int d; std::vector<typename SysOf<S>::type> sys; std::function<D*(void*)> mk_; double dtmax;
    DenseM(pbt::Src& s, std::function<D*(void*)> f, double mx) : mk_(f), dtmax(mx) { d = (int)mk_state<S>::blank(1 + (size_t)s.raw(4)).size(); for (int i = 0; i < 2; ++i) { Prob p = gen_prob(s, d, SMOOTHKINDS, 1.0); s.note(p.describe()); s.note(";"); sys.push_back(SysOf<S>::of(p)); } }
    D* make(void* q) { return mk_(q); }
    Pos start(pbt::Src& s) { Pos p; p.x = s.vec(d, 1.2); p.t = s.num(2); p.dt = s.logmag(1e-3, dtmax); if (s.flag(30)) p.dt = -p.dt; return p; }
    Op gen(pbt::Src& s, Pos& p, bool empty) { Op o; int w = (int)s.raw(10); if (empty || w == 0) { o.code = 2; if (s.flag(60)) p = start(s); o.in.x = p.x; o.in.t = p.t; o.in.dt = p.dt; } else if (w < 4 && p.k) { o.code = 4; o.a = s.mag(0, 1); } o.sys = s.flag(80) ? 0 : (int)s.raw(2); return o; }
    int effect(const Op& o) { return o.code == 2 ? CLEAR_BEFORE : KEEP; }
    std::string name(const Op& o) { return o.code == 2 ? pbt::str("initialize(x=", vstr(o.in.x), ",t=", o.in.t, ",dt=", o.in.dt, ")") : o.code == 4 ? pbt::str("calc_state at fraction ", o.a) : pbt::str("do_step(system ", o.sys, ")"); }
    std::string key(const Op& o) { return o.code == 2 ? "initialize" : o.code == 4 ? "calc_state" : "dense_step"; }
    bool apply(D& st, const Op& o, Vec& r, Pos* p) { if (o.code == 2) { st.initialize(st_of<S>(o.in.x), o.in.t, o.in.dt); r = o.in.x; r.push_back(st.current_time()); r.push_back(st.current_time_step()); app(r, st_to(S(st.current_state()))); p->k = 0; return true; }
        if (o.code == 4) { double a = st.previous_time(), b = st.current_time(); S u = mk_state<S>::blank(d); st.calc_state(a + o.a * (b - a), u); app(r, st_to(u)); return allfinite(r); }
        std::pair<double, double> q = st.do_step(sys[o.sys]); r.push_back(q.first); r.push_back(q.second); r.push_back(st.current_time_step()); app(r, st_to(S(st.current_state()))); app(r, st_to(S(st.previous_state()))); if (!allfinite(r) || maxabs(r) > 1e5) return false; if (p) { p->k = 1; p->x = st_to(S(st.current_state())); p->t = q.second; p->dt = st.current_time_step(); if (std::fabs(p->dt) > 2 * dtmax) p->dt = dtmax; } return std::fabs(st.current_time_step()) < 5 && std::fabs(q.second) < 100; }
};
template <class D, class S, class F> void dense(pbt::Src& s, double mx, F f) { DenseM<D, S> m(s, f, mx); histories(s, m); }
SUITE(dense_output, 75000, 1200000, C03_RULE) { pbt::Src& s = src; double at = s.logmag(1e-7, 1e-1), rt = s.logmag(1e-7, 1e-1); switch (s.raw(6)) {
    case 0: { typedef od::runge_kutta_dopri5<A3> R; typedef od::controlled_runge_kutta<R> C; typedef od::dense_output_runge_kutta<C> D; dense<D, A3>(s, 0.5, [=](void* q) { return new (q) D(C(typename C::error_checker_type(at, rt))); }); break; }
    case 1: { typedef od::runge_kutta_dopri5<Vec> R; typedef od::controlled_runge_kutta<R> C; typedef od::dense_output_runge_kutta<C> D; dense<D, Vec>(s, 0.5, [=](void* q) { return new (q) D(C(typename C::error_checker_type(at, rt))); }); break; }
    case 2: { typedef od::dense_output_runge_kutta<od::euler<A3>> D; dense<D, A3>(s, 0.2, [=](void* q) { return new (q) D(); }); break; }
    case 3: { typedef od::bulirsch_stoer_dense_out<Vec> D; dense<D, Vec>(s, 0.5, [=](void* q) { return new (q) D(at * 1e-1, rt * 1e-1); }); break; }
    case 4: { typedef od::bulirsch_stoer_dense_out<A3> D; dense<D, A3>(s, 0.5, [=](void* q) { return new (q) D(at * 1e-1, rt * 1e-1); }); break; }
    default: { typedef od::rosenbrock4_controller<od::rosenbrock4<double>> C; typedef od::rosenbrock4_dense_output<C> D; dense<D, UV>(s, 0.5, [=](void* q) { return new (q) D(C(at, rt)); }); } } }
// Rosenbrock, implicit Euler: only do_step / try_step / reset
enum { R_PLAIN, R_CTRL, R_IMPL };
template <class St_, int K> struct RosM {
    typedef St_ St; typedef PosX Pos; int d; std::vector<JPair> sys; std::function<St*(void*)> mk_;
    RosM(pbt::Src& s, std::function<St*(void*)> f) : mk_(f) { d = (int)s.i(1, 4); for (int i = 0; i < 2; ++i) { Prob p = gen_prob(s, d, SMOOTHKINDS, 1.0); s.note(p.describe()); s.note(";"); sys.push_back(jpair(p)); } }
    St* make(void* q) { return mk_(q); }
    Pos start(pbt::Src& s) { Pos p; p.x = s.vec(d, 1.2); p.t = s.num(2); p.dt = s.logmag(1e-3, 0.2); if (s.flag(30)) p.dt = -p.dt; return p; }
    Op gen(pbt::Src& s, Pos& p, bool) { Op o; if (K == R_CTRL && s.flag(10)) o.code = 1; o.form = (int)s.raw(2); o.sys = s.flag(80) ? 0 : (int)s.raw(2); if (s.flag(25)) p = start(s); o.in.x = p.x; o.in.t = p.t; o.in.dt = p.dt; return o; }
    int effect(const Op& o) { return o.code == 1 ? CLEAR_AFTER : K == R_CTRL ? KEEP : ALONE; }
    std::string name(const Op& o) { return o.code == 1 ? "reset" : pbt::str("step(form ", o.form, ", system ", o.sys, ", x=", vstr(o.in.x), ", t=", o.in.t, ", dt=", o.in.dt, ")"); } std::string key(const Op&) { return "implicit_step"; }
    bool apply(St& st, const Op& o, Vec& r, Pos* p) { return ap(st, o, r, p, std::integral_constant<int, K>()); }
    bool ap(St& st, const Op& o, Vec& r, Pos* p, std::integral_constant<int, R_PLAIN>) { UV x = mk(o.in.x), y = mk(o.in.x), e = mk(o.in.x); if (o.form) st.do_step(sys[o.sys], x, o.in.t, y, o.in.dt, e); else { st.do_step(sys[o.sys], y, o.in.t, o.in.dt); e.clear(); } app(r, uv(y)); app(r, uv(e)); p->x = uv(y); p->t += o.in.dt; return allfinite(r) && maxabs(r) < 1e4; }
    bool ap(St& st, const Op& o, Vec& r, Pos* p, std::integral_constant<int, R_IMPL>) { UV y = mk(o.in.x); st.do_step(sys[o.sys], y, o.in.t, o.in.dt); app(r, uv(y)); p->x = uv(y); p->t += o.in.dt; return allfinite(r) && maxabs(r) < 1e4; }
    bool ap(St& st, const Op& o, Vec& r, Pos* p, std::integral_constant<int, R_CTRL>) { if (o.code == 1) { st.reset(); return true; } UV x = mk(o.in.x), y = x; double t = o.in.t, dt = o.in.dt; int q; if (o.form) { q = st.try_step(sys[o.sys], x, t, y, dt); if (q != od::success) y = x; } else q = st.try_step(sys[o.sys], y, t, dt); app(r, uv(y)); r.push_back(t); r.push_back(dt); r.push_back(q); if (!allfinite(r) || maxabs(r) > 1e4) return false; p->x = uv(y); p->t = t; p->dt = std::fabs(dt) > 0.5 ? std::copysign(0.5, dt) : dt; return std::fabs(dt) > 1e-8; }
};
SUITE(rosenbrock, 60000, 1000000, C03_RULE) { switch (src.raw(3)) { case 0: { RosM<od::rosenbrock4<double>, R_PLAIN> m(src, [](void* q) { return new (q) od::rosenbrock4<double>(); }); histories(src, m); break; } case 1: { RosM<od::implicit_euler<double>, R_IMPL> m(src, [](void* q) { return new (q) od::implicit_euler<double>(); }); histories(src, m); break; } default: { typedef od::rosenbrock4_controller<od::rosenbrock4<double>> C; double at = src.logmag(1e-7, 1e-1), rt = src.logmag(1e-7, 1e-1); RosM<C, R_CTRL> m(src, [=](void* q) { return new (q) C(at, rt); }); histories(src, m); } } }
// symplectic and Verlet
struct AccS { std::shared_ptr<const Prob> p; template <class S> void operator()(const S& q, S& a) const { rhs_tick(); p->eval<double>(q, a, 0.3); } template <class S> void operator()(const S& q, const S& v, S& a, double t) const { rhs_tick(); S y(q); for (size_t i = 0; i < y.size(); ++i) y[i] += 0.25 * v[i]; p->eval<double>(y, a, t); } };
template <class St_, class S, bool VV> struct SymM {
    typedef St_ St; typedef PosX Pos; int d; std::vector<AccS> sys; SymM(pbt::Src& s) { d = (int)mk_state<S>::blank(1 + (size_t)s.raw(4)).size(); for (int i = 0; i < 2; ++i) { Prob p = gen_prob(s, d, SMOOTHKINDS, 1.0); s.note(p.describe()); s.note(";"); sys.push_back(AccS{std::make_shared<const Prob>(p)}); } }
    St* make(void* q) { return new (q) St(); } Pos start(pbt::Src& s) { Pos p; p.x = s.vec(2 * d, 1.2); p.t = s.num(2); p.dt = s.logmag(1e-3, 0.2); if (s.flag(30)) p.dt = -p.dt; return p; }
    Op gen(pbt::Src& s, Pos& p, bool) { Op o; int w = (int)s.raw(12); if (VV && w == 0) o.code = 1; else if (VV && w == 1) { o.code = 2; o.m = (int)s.raw(2); } else if (w == 2) o.code = 3; o.form = (int)s.raw(VV ? 2 : 3); o.sys = s.flag(80) ? 0 : (int)s.raw(2); if (s.flag(25)) p = start(s); o.in.x = p.x; o.in.t = p.t; o.in.dt = p.dt; return o; }
    int effect(const Op& o) { if (o.code == 1) return CLEAR_AFTER; if (o.code == 2) return CLEAR_BEFORE; if (o.code == 3) return IGNORE; if (!VV || o.form == 1) return ALONE; return KEEP; }
    std::string name(const Op& o) { return o.code == 1 ? "reset" : o.code == 2 ? "initialize" : o.code == 3 ? "adjust_size" : pbt::str("step(form ", o.form, ", system ", o.sys, ", x=", vstr(o.in.x), ", dt=", o.in.dt, ")"); } std::string key(const Op&) { return "symplectic_step"; }
    bool apply(St& st, const Op& o, Vec& r, Pos* p) { Vec qv(o.in.x.begin(), o.in.x.begin() + d), pv(o.in.x.begin() + d, o.in.x.end()); S q = st_of<S>(qv), v = st_of<S>(pv); return ap(st, o, r, p, q, v, std::integral_constant<bool, VV>()); }
    void out(Vec& r, Pos* p, S& q, S& v, const Op& o) { app(r, st_to(q)); app(r, st_to(v)); p->x = r; p->x.resize(2 * d); p->t += o.in.dt; }
    bool ap(St& st, const Op& o, Vec& r, Pos* p, S& q, S& v, std::true_type) { AccS& f = sys[o.sys]; if (o.code == 1) { st.reset(); return true; } if (o.code == 3) { st.adjust_size(q); return true; } if (o.code == 2) { if (o.m) { S a = mk_state<S>::blank(d); f(q, v, a, o.in.t); st.initialize(a); } else st.initialize(f, q, v, o.in.t); return true; }
        if (o.form == 0) { auto x = std::make_pair(q, v); st.do_step(f, x, o.in.t, o.in.dt); out(r, p, x.first, x.second, o); } else { S a = mk_state<S>::blank(d), q2 = a, v2 = a, a2 = a; f(q, v, a, o.in.t); st.do_step(f, q, v, a, q2, v2, a2, o.in.t, o.in.dt); out(r, p, q2, v2, o); app(r, st_to(a2)); } return allfinite(r) && maxabs(r) < 1e4; }
    bool ap(St& st, const Op& o, Vec& r, Pos* p, S& q, S& v, std::false_type) { AccS& f = sys[o.sys]; if (o.code == 3) { st.adjust_size(q); return true; } switch (o.form) { case 0: { auto x = std::make_pair(q, v); st.do_step(f, x, o.in.t, o.in.dt); out(r, p, x.first, x.second, o); break; } case 1: st.do_step(std::make_pair(f, f), q, v, o.in.t, o.in.dt); out(r, p, q, v, o); break; default: { auto x = std::make_pair(q, v), y = x; st.do_step(std::make_pair(f, f), x, o.in.t, y, o.in.dt); out(r, p, y.first, y.second, o); } } return allfinite(r) && maxabs(r) < 1e4; }
};
template <class St, class S, bool VV> void sym(pbt::Src& s) { SymM<St, S, VV> m(s); histories(s, m); }
SUITE(symplectic, 60000, 1000000, C03_RULE) { switch (src.raw(6)) { case 0: sym<od::symplectic_euler<A3>, A3, false>(src); break; case 1: sym<od::symplectic_rkn_sb3a_mclachlan<A3>, A3, false>(src); break; case 2: sym<od::symplectic_rkn_sb3a_m4_mclachlan<Vec>, Vec, false>(src); break; case 3: sym<od::velocity_verlet<Vec>, Vec, true>(src); break; default: sym<od::velocity_verlet<A3>, A3, true>(src); } }
// controlled adaptive Adams
template <class C, class S> struct CadM {
    typedef C St; typedef PosX Pos; int d; std::vector<Sys<S>> sys; double at, rt; CadM(pbt::Src& s) { at = s.logmag(1e-7, 1e-2); rt = s.logmag(1e-7, 1e-2); d = (int)mk_state<S>::blank(1 + (size_t)s.raw(4)).size(); for (int i = 0; i < 2; ++i) { Prob p = gen_prob(s, d, SMOOTHKINDS, 1.0); s.note(p.describe()); s.note(";"); sys.emplace_back(p); } }
    St* make(void* q) { typedef typename C::step_adjuster_type A; return new (q) St(A(at, rt)); } Pos start(pbt::Src& s) { Pos p; p.x = s.vec(d, 1.2); p.t = s.num(2); p.dt = s.logmag(1e-3, 0.3); if (s.flag(30)) p.dt = -p.dt; return p; }
    Op gen(pbt::Src& s, Pos& p, bool) { Op o; int w = (int)s.raw(12); if (w == 0) o.code = 1; else if (w == 1) { o.code = 2; } o.form = (int)s.raw(2); if (s.flag(15)) p = start(s); o.in.x = p.x; o.in.t = p.t; o.in.dt = p.dt; return o; }
    int effect(const Op& o) { return o.code == 1 ? CLEAR_AFTER : o.code == 2 ? CLEAR_BEFORE : KEEP; } std::string key(const Op&) { return "controlled_adams_step"; }
    std::string name(const Op& o) { return o.code == 1 ? "reset" : o.code == 2 ? "initialize" : pbt::str("try_step(form ", o.form, ", x=", vstr(o.in.x), ", t=", o.in.t, ", dt=", o.in.dt, ")"); }
    bool apply(St& st, const Op& o, Vec& r, Pos* p) { if (o.code == 1) { st.reset(); return true; } S x = st_of<S>(o.in.x), y = x; double t = o.in.t, dt = o.in.dt; int q = 0; if (o.code == 2) st.initialize(sys[0], y, t, dt); else if (o.form) { q = st.try_step(sys[0], x, t, y, dt); if (q != od::success) y = x; } else q = st.try_step(sys[0], y, t, dt); app(r, st_to(y)); r.push_back(t); r.push_back(dt); r.push_back(q); if (!allfinite(r) || maxabs(r) > 1e3) return false; p->x = st_to(y); p->t = t; p->dt = std::fabs(dt) > 0.5 ? std::copysign(0.5, dt) : dt; return std::fabs(dt) > 1e-7; }
};
SUITE(controlled_adams, 45000, 700000, C03_RULE) { switch (src.raw(3)) { case 0: { CadM<od::controlled_adams_bashforth_moulton<od::adaptive_adams_bashforth_moulton<3, A3>>, A3> m(src); histories(src, m); break; } case 1: { CadM<od::controlled_adams_bashforth_moulton<od::adaptive_adams_bashforth_moulton<5, A3>>, A3> m(src); histories(src, m); break; } default: { CadM<od::controlled_adams_bashforth_moulton<od::adaptive_adams_bashforth_moulton<4, Vec>>, Vec> m(src); histories(src, m); } } }
