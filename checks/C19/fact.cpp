// C19: factory functions in every argument form against hand construction
#include "zoo.hpp"
#include "jsys.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/generation/generation_controlled_adams_bashforth_moulton.hpp>
#define C19_RULE "the two traces contain an accepted step, the step size changes during the trace, and the tolerances differ or a maximum step / stepper object was passed"
// An algebra with identity: weights the error norm and counts its calls; the default-constructed one does neither.
struct TagAlgebra : od::range_algebra {
    double w = 1; std::shared_ptr<long> n; TagAlgebra() {} TagAlgebra(double w_) : w(w_), n(std::make_shared<long>(0)) {}
    template <class S> typename od::norm_result_type<S>::type norm_inf(const S& s) const { return (typename od::norm_result_type<S>::type)(w * od::range_algebra::norm_inf(s)); }
    template <class... A> void for_each2(A&&... a) { if (n) ++*n; od::range_algebra::for_each2(std::forward<A>(a)...); }
    template <class... A> void for_each3(A&&... a) { if (n) ++*n; od::range_algebra::for_each3(std::forward<A>(a)...); }
    template <class... A> void for_each5(A&&... a) { if (n) ++*n; od::range_algebra::for_each5(std::forward<A>(a)...); }
};
struct Tr { std::vector<double> v; bool adapted = false; int acc = 0; };
template <class X> void putx(Tr& t, const X& x) { for (auto z : x) t.v.push_back((double)z); }
// a controlled stepper's history of trials (steps, occasionally reset of dt)
template <class C, class Y, class X> Tr trace_c(C& c, Y sys, X x, double t0, double dt0, int n, const std::vector<double>& kick) {
    Tr r; typedef typename C::time_type T; T t = (T)t0, dt = (T)dt0;
    for (int k = 0; k < n; ++k) { T d0 = dt; int ok; try { ok = c.try_step(sys, x, t, dt) == od::success; } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { r.v.push_back(-77); break; } if (dt != d0) r.adapted = true; r.acc += ok; r.v.push_back(ok); r.v.push_back((double)t); r.v.push_back((double)dt); putx(r, x); if (kick[k] != 1) dt *= (T)kick[k]; if (!(std::fabs(dt) > 1e-12) || !allfinite(Vec{(double)x[0]})) break; }
    return r;
}
template <class D, class Y, class X> Tr trace_d(D& c, Y sys, X x, double t0, double dt0, int n, const std::vector<double>& kick) {
    Tr r; typedef typename D::time_type T; c.initialize(x, (T)t0, (T)dt0);
    for (int k = 0; k < n; ++k) { T d0 = c.current_time_step(); std::pair<T, T> p; try { p = c.do_step(sys); } catch (const pbt::Fail&) { throw; } catch (const std::exception&) { r.v.push_back(-77); break; } r.acc++; r.v.push_back((double)p.first); r.v.push_back((double)p.second); r.v.push_back((double)c.current_time_step()); if (c.current_time_step() != d0) r.adapted = true; putx(r, c.current_state()); putx(r, c.previous_state()); X q(x); c.calc_state((T)(p.first + kick[k] * 0.5 * (p.second - p.first)), q); putx(r, q); if (!allfinite(Vec{(double)c.current_state()[0]})) break; }
    return r;
}
inline void same_trace(const char* what, const Tr& a, const Tr& b) { REQUIRE_K(what, same_bits(a.v, b.v), "the factory's stepper and the hand-built one differ: ", vstr(a.v), " vs ", vstr(b.v)); }
struct Arg { double a, r, m, t0, dt; int n, form; std::vector<double> kick; double w; };
inline Arg gen_arg(pbt::Src& s, bool flt = false) {
    Arg g; g.a = s.logmag(flt ? 1e-5 : 1e-11, 1e-1); g.r = s.logmag(flt ? 1e-5 : 1e-11, 1e-1); if (s.flag(10)) g.r = g.a; double sg = s.flag(30) ? -1 : 1; g.dt = sg * s.logmag(1e-4, 0.5); g.m = sg * s.logmag(1e-3, 0.6); g.t0 = s.num(5); g.n = (int)s.i(2, 8); g.form = (int)s.raw(4); g.w = s.logmag(1e-4, 1e4);
    for (int k = 0; k < g.n; ++k) g.kick.push_back(s.flag(20) ? s.mag(0.2, 1.9) : 1.0);
    s.note("abs", g.a); s.note("rel", g.r); s.note("max_dt", g.m); s.note("form", g.form); s.note("t0", g.t0); s.note("dt", g.dt); s.note("n", g.n); s.note("w", g.w); static const char* fn[] = {"(abs,rel)", "(abs,rel,stepper)", "(abs,rel,max_dt)", "(abs,rel,max_dt,stepper)"}; s.label(fn[g.form]); return g;
}
inline void nt(pbt::Src& s, const Tr& t, const Arg& g) { if (t.acc && t.adapted && (g.form || g.a != g.r)) s.nontrivial(); }
// factory call in the chosen form; the second returns the hand-built one
template <class S> S tagged(const Arg& g, bool dflt = false) { return dflt ? S() : S(TagAlgebra(g.w)); }
template <class S, class St> auto mk_c(const Arg& g, const St& st) { typedef typename S::value_type V; typedef typename S::time_type T; switch (g.form) { case 0: return od::make_controlled<S>((V)g.a, (V)g.r); case 1: return od::make_controlled((V)g.a, (V)g.r, st); case 2: return od::make_controlled<S>((V)g.a, (V)g.r, (T)g.m); default: return od::make_controlled((V)g.a, (V)g.r, (T)g.m, st); } }
template <class S, class St> auto mk_d(const Arg& g, const St& st) { typedef typename S::value_type V; typedef typename S::time_type T; switch (g.form) { case 0: return od::make_dense_output<S>((V)g.a, (V)g.r); case 1: return od::make_dense_output((V)g.a, (V)g.r, st); case 2: return od::make_dense_output<S>((V)g.a, (V)g.r, (T)g.m); default: return od::make_dense_output((V)g.a, (V)g.r, (T)g.m, st); } }
template <class S> od::controlled_runge_kutta<S> hand_crk(const Arg& g, const S& st) {
    typedef od::controlled_runge_kutta<S> C; typedef typename S::value_type V; typedef typename S::time_type T;
    typename C::error_checker_type ec((V)g.a, (V)g.r, (V)1, (V)1); typename C::step_adjuster_type sa(g.form >= 2 ? (T)g.m : (T)0); return C(ec, sa, g.form & 1 ? st : S());
}
template <class S> void crk_case(pbt::Src& s, const char* name, bool flt = false) {
    rhs_reset(400000); Arg g = gen_arg(s, flt); typedef typename S::state_type X; Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x0); s.label(name); X x(x0.begin(), x0.end());
    S st = tagged<S>(g, s.flag(10)); auto f = mk_c<S>(g, st); S st2 = st; if (st.algebra().n) st2.algebra().n = std::make_shared<long>(0); auto h = hand_crk<S>(g, st2);
    static_assert(std::is_same<decltype(f), od::controlled_runge_kutta<S>>::value, "type"); static_assert(std::is_same<typename od::result_of::make_controlled<S>::type, decltype(f)>::value, "result_of");
    Sys<X, typename S::time_type> sys(p); Tr a = trace_c(f, sys, x, g.t0, g.dt, g.n, g.kick), b = trace_c(h, sys, x, g.t0, g.dt, g.n, g.kick); same_trace("controlled", a, b); nt(s, a, g);
    if (st.algebra().n) REQUIRE_K("stepper_object", *st.algebra().n == *st2.algebra().n, "the passed stepper's algebra was used ", *st.algebra().n, " times, in the hand-built controller ", *st2.algebra().n, " times");
}
template <class X, class V, class T> using CK = od::runge_kutta_cash_karp54<X, V, X, T, TagAlgebra>;
template <class X, class V, class T> using CKC = od::runge_kutta_cash_karp54_classic<X, V, X, T, TagAlgebra>;
template <class X, class V, class T> using F78 = od::runge_kutta_fehlberg78<X, V, X, T, TagAlgebra>;
template <class X, class V, class T> using DP5 = od::runge_kutta_dopri5<X, V, X, T, TagAlgebra>;
typedef std::vector<float> FVec;
SUITE(make_controlled_rk, 6000, 200000, C19_RULE) { switch (src.raw(5)) { case 0: return crk_case<CK<Vec, double, double>>(src, "cash_karp54"); case 1: return crk_case<DP5<Vec, double, double>>(src, "dopri5"); case 2: return crk_case<F78<Vec, double, double>>(src, "fehlberg78"); case 3: return crk_case<CKC<Vec, double, double>>(src, "cash_karp54_classic"); default: return src.flag() ? crk_case<DP5<FVec, float, float>>(src, "dopri5 float", true) : crk_case<CK<FVec, float, float>>(src, "cash_karp54 float", true); } }
template <class S> void drk_case(pbt::Src& s, const char* name, bool flt = false) {
    rhs_reset(400000); Arg g = gen_arg(s, flt); typedef typename S::state_type X; Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x0); s.label(name); X x(x0.begin(), x0.end());
    S st = tagged<S>(g, s.flag(10)); auto f = mk_d<S>(g, st); S st2 = st; if (st.algebra().n) st2.algebra().n = std::make_shared<long>(0); auto h = od::dense_output_runge_kutta<od::controlled_runge_kutta<S>>(hand_crk<S>(g, st2)); static_assert(std::is_same<decltype(f), decltype(h)>::value, "type");
    Sys<X, typename S::time_type> sys(p); Tr a = trace_d(f, sys, x, g.t0, g.dt, g.n, g.kick), b = trace_d(h, sys, x, g.t0, g.dt, g.n, g.kick); same_trace("dense", a, b); nt(s, a, g);
    if (st.algebra().n) REQUIRE_K("stepper_object", *st.algebra().n == *st2.algebra().n, "the passed stepper's algebra was used ", *st.algebra().n, " times, in the hand-built stepper ", *st2.algebra().n, " times");
}
SUITE(make_dense_rk, 3000, 100000, C19_RULE) { if (src.raw(4) < 3) drk_case<DP5<Vec, double, double>>(src, "dopri5"); else drk_case<DP5<FVec, float, float>>(src, "dopri5 float", true); }

// ---- rosenbrock, library stepper and a stepper with a parameter
struct MyRos : od::rosenbrock4<double> {
    double w; MyRos(double w_ = 1) : w(w_) {}
    template <class Y> void do_step(Y sys, const state_type& x, time_type t, state_type& o, time_type dt, state_type& e) { od::rosenbrock4<double>::do_step(sys, x, t, o, dt, e); for (size_t k = 0; k < e.size(); ++k) e[k] *= w; }
};
namespace boost { namespace numeric { namespace odeint {
template <> struct get_controller<MyRos> { typedef rosenbrock4_controller<MyRos> type; };
template <> struct get_dense_output<MyRos> { typedef rosenbrock4_dense_output<rosenbrock4_controller<MyRos>> type; };
}}}
template <class S> S ros_st(const Arg&) { return S(); }
template <> MyRos ros_st<MyRos>(const Arg& g) { return MyRos(g.w); }
template <class S> void ros_case(pbt::Src& s, const char* name) {
    rhs_reset(400000); Arg g = gen_arg(s); bool dense = s.flag(); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x0); s.label(name); s.label(dense ? "dense" : "controlled"); UV x(p.d); for (int k = 0; k < p.d; ++k) x[k] = x0[k]; auto sys = jpair(p);
    S st = ros_st<S>(g); typedef od::rosenbrock4_controller<S> C; S use = g.form & 1 ? st : S(); C h = g.form >= 2 ? C(g.a, g.r, g.m, use) : C(g.a, g.r, use);
    if (dense) { auto f = mk_d<S>(g, st); od::rosenbrock4_dense_output<C> hd(h); static_assert(std::is_same<decltype(f), decltype(hd)>::value, "type"); Tr a = trace_d(f, sys, x, g.t0, g.dt, g.n, g.kick), b = trace_d(hd, sys, x, g.t0, g.dt, g.n, g.kick); same_trace("rosenbrock_dense", a, b); nt(s, a, g); }
    else { auto f = mk_c<S>(g, st); static_assert(std::is_same<decltype(f), C>::value, "type"); Tr a = trace_c(f, sys, x, g.t0, g.dt, g.n, g.kick), b = trace_c(h, sys, x, g.t0, g.dt, g.n, g.kick); same_trace("rosenbrock_controlled", a, b); nt(s, a, g); }
}
SUITE(make_rosenbrock, 3000, 100000, C19_RULE) { if (src.flag()) ros_case<MyRos>(src, "rosenbrock4 with a parameter"); else ros_case<od::rosenbrock4<double>>(src, "rosenbrock4"); }

// ---- adaptive-order Adams
template <class C, class A, class S> C hand_cabm(const A& a, const S& s, std::true_type) { return C(a, s); }
template <class C, class A, class S> C hand_cabm(const A& a, const S&, std::false_type) { return C(a); }
template <size_t N> void abm_case(pbt::Src& s) {
    rhs_reset(400000); Arg g = gen_arg(s); g.m = std::fabs(g.m); typedef od::adaptive_adams_bashforth_moulton<N, Vec, double, Vec, double, TagAlgebra> S; typedef od::controlled_adams_bashforth_moulton<S> C;
    Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x); s.label("adaptive ABM"); Sys<Vec> sys(p);
    S st = tagged<S>(g), st2 = st; st2.algebra().n = std::make_shared<long>(0); auto f = mk_c<S>(g, st); typedef typename C::step_adjuster_type A; A adj = g.form >= 2 ? A(g.a, g.r, g.m) : A(g.a, g.r); C h = g.form & 1 ? hand_cabm<C>(adj, st2, std::is_constructible<C, A, S>()) : C(adj); static_assert(std::is_same<decltype(f), C>::value, "type");
    Tr a = trace_c(f, sys, x, g.t0, g.dt, g.n, g.kick), b = trace_c(h, sys, x, g.t0, g.dt, g.n, g.kick); same_trace("adams_controlled", a, b); nt(s, a, g);
    if (g.form & 1) REQUIRE_K("adams_stepper_object", *st.algebra().n > 0, "the passed stepper's algebra is never used");
    REQUIRE_K("adams_stepper_object", *st.algebra().n == *st2.algebra().n, "the passed stepper's algebra was used ", *st.algebra().n, " times, in the hand-built controller ", *st2.algebra().n, " times");
}
SUITE(make_adams, 3000, 100000, C19_RULE) { switch (src.raw(5)) { case 0: return abm_case<2>(src); case 1: return abm_case<1>(src); case 2: return abm_case<3>(src); case 3: return abm_case<5>(src); default: return abm_case<8>(src); } }

// ---- the generic factories with a user's own stepper, controller and dense output
struct MyStepper { typedef double value_type; typedef double time_type; int id = -1; };
struct MyController { double a, r, m; int id, k; MyController(double a_, double r_, const MyStepper& s) : a(a_), r(r_), m(0), id(s.id), k(0) {} MyController(double a_, double r_, double m_, const MyStepper& s) : a(a_), r(r_), m(m_), id(s.id), k(1) {} };
struct MyDense : MyController { using MyController::MyController; };
struct MyFactStepper { typedef float value_type; typedef double time_type; int id = -1; };
struct MyFactController { double a, r; int id; };
namespace boost { namespace numeric { namespace odeint {
template <> struct get_controller<MyStepper> { typedef MyController type; }; template <> struct get_dense_output<MyStepper> { typedef MyDense type; };
template <> struct get_controller<MyFactStepper> { typedef MyFactController type; };
template <> struct controller_factory<MyFactStepper, MyFactController> { MyFactController operator()(double a, double r, const MyFactStepper& s) { return MyFactController{a, r, s.id}; } };
}}}
SUITE(custom_factories, 1000, 20000, "always") {
    Arg g = gen_arg(src); MyStepper st; st.id = (int)src.i(0, 1000); int want = g.form & 1 ? st.id : -1; double m = g.form >= 2 ? g.m : 0;
    MyController c = mk_c<MyStepper>(g, st); REQUIRE_K("custom_controller", c.a == g.a && c.r == g.r && c.m == m && c.id == want && c.k == (g.form >= 2), "controller got abs=", c.a, " rel=", c.r, " max_dt=", c.m, " stepper ", c.id);
    MyDense d = mk_d<MyStepper>(g, st); REQUIRE_K("custom_dense", d.a == g.a && d.r == g.r && d.m == m && d.id == want && d.k == (g.form >= 2), "dense output got abs=", d.a, " rel=", d.r, " max_dt=", d.m, " stepper ", d.id);
    MyFactStepper fs; fs.id = st.id; MyFactController fc = g.form & 1 ? od::make_controlled((float)g.a, (float)g.r, fs) : od::make_controlled<MyFactStepper>((float)g.a, (float)g.r); REQUIRE_K("custom_factory", fc.a == (float)g.a && fc.r == (float)g.r && fc.id == want, "the user's factory got abs=", fc.a, " rel=", fc.r, " stepper ", fc.id); src.nontrivial();
}
