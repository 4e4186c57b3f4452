// C13, states with more than one extent: multi_array (extents and index bases), ublas::matrix, fusion sequences of resizable parts
#ifndef SHAPES_HPP
#define SHAPES_HPP
#include "c13.hpp"
#include <boost/multi_array.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/fusion/include/vector.hpp>
#include <boost/fusion/include/at_c.hpp>
namespace bub = boost::numeric::ublas;
typedef std::vector<long> Shape; // extents, then whatever else identifies the layout
template <size_t R> struct MulA { typedef boost::multi_array<double, R> S; typedef od::multi_array_algebra Alg; static const char* n() { return R == 2 ? "multi_array<2>" : "multi_array<3>"; }
    static Shape gen(pbt::Src& s) { Shape h; for (size_t k = 0; k < R; ++k) h.push_back(s.i(1, 4)); for (size_t k = 0; k < R; ++k) h.push_back(s.raw(3) ? 0 : s.i(-2, 2)); return h; }
    static S mk(const Shape& h, pbt::Src&) { boost::array<long, R> e, b; for (size_t k = 0; k < R; ++k) { e[k] = h[k]; b[k] = h[R + k]; } S a(e); a.reindex(b); return a; }
    static Shape of(const S& x) { Shape h; for (size_t k = 0; k < R; ++k) h.push_back((long)x.shape()[k]); for (size_t k = 0; k < R; ++k) h.push_back((long)x.index_bases()[k]); return h; }
    template <class F> static void each(S& x, F f) { for (size_t i = 0; i < x.num_elements(); ++i) f(x.data()[i], (long)i); } static void set(S& x, const S& y) { boost::array<long, R> e, b; Shape h = of(y); for (size_t k = 0; k < R; ++k) { e[k] = h[k]; b[k] = h[R + k]; } x.resize(e); x.reindex(b); x = y; } };
template <class L> struct MatA { typedef bub::matrix<double, L> S; typedef od::vector_space_algebra Alg; static const char* n() { return "ublas::matrix"; } static Shape gen(pbt::Src& s) { return Shape{s.i(1, 4), s.i(1, 4)}; } static S mk(const Shape& h, pbt::Src&) { return S(h[0], h[1]); } static Shape of(const S& x) { return Shape{(long)x.size1(), (long)x.size2()}; }
    template <class F> static void each(S& x, F f) { for (size_t i = 0; i < x.size1(); ++i) for (size_t j = 0; j < x.size2(); ++j) f(x(i, j), (long)(7 * i + j)); } static void set(S& x, const S& y) { x = y; } };
typedef bub::vector<double> BV;
struct FusA { typedef boost::fusion::vector<BV, double, BV> S; typedef od::fusion_algebra Alg; static const char* n() { return "fusion sequence of vectors"; } static Shape gen(pbt::Src& s) { return Shape{s.i(1, 5), s.i(1, 5)}; } static S mk(const Shape& h, pbt::Src&) { return S(BV(h[0]), 0.0, BV(h[1])); } static Shape of(const S& x) { using boost::fusion::at_c; return Shape{(long)at_c<0>(x).size(), (long)at_c<2>(x).size()}; }
    template <class F> static void each(S& x, F f) { using boost::fusion::at_c; long k = 0; for (size_t i = 0; i < at_c<0>(x).size(); ++i) f(at_c<0>(x)[i], k++); f(at_c<1>(x), k++); for (size_t i = 0; i < at_c<2>(x).size(); ++i) f(at_c<2>(x)[i], k++); } static void set(S& x, const S& y) { x = y; } };
inline std::string sh(const Shape& h) { std::string r = "("; for (long v : h) r += pbt::str(v, " "); return r + ")"; }
template <class T> struct ShSys { Shape want; double a, b; void operator()(const typename T::S& x, typename T::S& d, double t) const { rhs_tick(); typedef typename T::S S; if (T::of(x) != want) pbt::fail("state_size", pbt::str("the system was called with a state of shape ", sh(T::of(x)), ", the caller's has ", sh(want))); if (T::of(d) != want) pbt::fail("derivative_size", pbt::str("the system was handed a derivative of shape ", sh(T::of(d)), " for a state of shape ", sh(want)));
    std::vector<double> v; T::each(const_cast<S&>(x), [&](double& e, long) { v.push_back(e); }); size_t q = 0; T::each(d, [&](double& e, long) { e = -a * v[q] + b * std::sin(v[(q + 1) % v.size()] + t); ++q; }); } };
template <class T> Vec flat(const typename T::S& x) { Vec v; T::each(const_cast<typename T::S&>(x), [&](double& e, long) { v.push_back(e); }); return v; }
#define SHP(NAME, TPL) template <class T, class R> using NAME = od::TPL<typename T::S, double, typename T::S, double, typename T::Alg, typename od::operations_dispatcher<typename T::S>::operations_type, R>;
SHP(h_euler, euler) SHP(h_rk4, runge_kutta4) SHP(h_rk4c, runge_kutta4_classic) SHP(h_ck, runge_kutta_cash_karp54) SHP(h_dp, runge_kutta_dopri5) SHP(h_f78, runge_kutta_fehlberg78) SHP(h_mm, modified_midpoint)
template <class T, class R> using h_ab3 = od::adams_bashforth<3, typename T::S, double, typename T::S, double, typename T::Alg, typename od::operations_dispatcher<typename T::S>::operations_type, R>;
template <class T, class R> using h_abm2 = od::adams_bashforth_moulton<2, typename T::S, double, typename T::S, double, typename T::Alg, typename od::operations_dispatcher<typename T::S>::operations_type, R>;
template <class T> struct Steps { template <class St, class X> static void go(St& st, const ShSys<T>& sys, X& x, double t, double dt, int op) { if (op == 1) { X y(x); st.do_step(sys, x, t, y, dt); T::set(x, y); } else st.do_step(sys, x, t, dt); } };
struct SSeg { Shape h; double a, b, t0, dt; int n; std::vector<int> op; };
template <class T> std::vector<SSeg> gensh(pbt::Src& s) { rhs_reset(); int n = (int)s.i(1, 4); std::vector<SSeg> r; for (int k = 0; k < n; ++k) { SSeg g; g.h = T::gen(s); if (k && s.flag(25)) { g.h = r.back().h; if (s.flag()) std::swap(g.h[0], g.h[1]); } g.a = s.mag(0.1, 1); g.b = s.num(1); g.t0 = s.num(2); g.dt = s.logmag(0.01, 0.3); g.n = (int)s.i(1, 5); for (int j = 0; j < g.n; ++j) g.op.push_back((int)s.raw(4)); r.push_back(g); s.note("shape", sh(g.h)); s.note("steps", g.n); } return r; }
template <class T> void ntsh(pbt::Src& s, const std::vector<SSeg>& g) { bool ch = false, same = false; for (size_t k = 1; k < g.size(); ++k) if (g[k].h != g[k - 1].h) { ch = true; long p = 1, q = 1; for (size_t j = 0; j < g[k].h.size() && j < 2; ++j) { p *= g[k].h[j]; q *= g[k - 1].h[j]; } same |= p == q; } if (ch) s.nontrivial(); if (same) s.label("other shape, same number of elements"); s.label(T::n()); }
template <class T> typename T::S start(const SSeg& g, pbt::Src& s) { typename T::S x = T::mk(g.h, s); T::each(x, [&](double& e, long k) { e = std::cos(1.7 * k + g.a); }); return x; }
template <class T, template <class, class> class F, class R> void shape13(pbt::Src& s) {
    typedef F<T, R> A; typedef F<T, od::initially_resizer> B; Pol pol = PolOf<R>::v; auto g = gensh<T>(s); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); std::shared_ptr<A> st(new A);
    for (size_t k = 0; k < g.size(); ++k) {
        typename T::S x = start<T>(g[k], s), y = start<T>(g[k], s); B ref; ShSys<T> sys{g[k].h, g[k].a, g[k].b}; double t = g[k].t0; if (pol == NEVER || (pol == INITIALLY && k)) st->adjust_size(x); if (!(pol == ALWAYS && k && g[k].h != g[k - 1].h)) do_reset(*st, 0);
        for (int j = 0; j < g[k].n; ++j) { if (g[k].op[j] == 2) st = std::shared_ptr<A>(new A(*st)); Steps<T>::go(*st, sys, x, t, g[k].dt, g[k].op[j]); Steps<T>::go(ref, sys, y, t, g[k].dt, g[k].op[j]); t += g[k].dt; REQUIRE_K("size", T::of(x) == g[k].h, "the caller's state has shape ", sh(T::of(x)), " after a step, it was ", sh(g[k].h)); eq13(flat<T>(x), flat<T>(y), "state", (int)k, j, PolOf<R>::n()); }
    }
    ntsh<T>(s, g);
}
template <class T, class E, class R> void shapec13(pbt::Src& s) { // controlled
    typedef od::controlled_runge_kutta<E, od::default_error_checker<double, typename T::Alg, typename od::operations_dispatcher<typename T::S>::operations_type>, od::default_step_adjuster<double, double>, R> A; Pol pol = PolOf<R>::v; auto g = gensh<T>(s); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); double tol = s.logmag(1e-8, 1e-3); typename A::error_checker_type ec(tol, tol); std::shared_ptr<A> st(new A(ec));
    for (size_t k = 0; k < g.size(); ++k) {
        typename T::S x = start<T>(g[k], s), y = start<T>(g[k], s); A ref(ec); ref.adjust_size(y); ShSys<T> sys{g[k].h, g[k].a, g[k].b}; double t = g[k].t0, dt = 3 * g[k].dt, u = t, du = dt; if (pol == NEVER || (pol == INITIALLY && k)) st->adjust_size(x); if (!(pol == ALWAYS && k && g[k].h != g[k - 1].h)) do_reset(*st, 0);
        for (int j = 0; j < g[k].n; ++j) { if (g[k].op[j] == 2) st = std::shared_ptr<A>(new A(*st)); int ra, rb; if (g[k].op[j] == 1) { typename T::S o(x), q(y); ra = st->try_step(sys, x, t, o, dt); rb = ref.try_step(sys, y, u, q, du); T::set(x, o); T::set(y, q); } else { ra = st->try_step(sys, x, t, dt); rb = ref.try_step(sys, y, u, du); }
            REQUIRE_K("acceptance", ra == rb && t == u && dt == du, "segment ", k, " trial ", j, ": t ", t, " dt ", dt, ", a stepper made for this shape gives ", u, " ", du); REQUIRE_K("size", T::of(x) == g[k].h, "the caller's state has shape ", sh(T::of(x)), " after a step, it was ", sh(g[k].h)); eq13(flat<T>(x), flat<T>(y), "state", (int)k, j, PolOf<R>::n()); }
    }
    ntsh<T>(s, g);
}
template <class T, class R> void shapeall(pbt::Src& s) { switch (s.raw(9)) { case 0: return shape13<T, h_euler, R>(s); case 1: return shape13<T, h_rk4, R>(s); case 2: return shape13<T, h_rk4c, R>(s); case 3: return shape13<T, h_ck, R>(s); case 4: return shape13<T, h_dp, R>(s); case 5: return shape13<T, h_f78, R>(s); case 6: return shape13<T, h_mm, R>(s); case 7: return shape13<T, h_ab3, R>(s); default: return shape13<T, h_abm2, R>(s); } }
template <class T, class R> void shapecall(pbt::Src& s) { if (s.flag()) shapec13<T, h_ck<T, R>, R>(s); else shapec13<T, h_dp<T, R>, R>(s); }
#define RSH "at least two segments with different state shapes"
#endif
