// C13: buffers follow the state size. The state is a std::vector whose allocator fills every newly created
// element with a NaN of a recognisable payload, under the libstdc++ debug mode, ASan and UBSan.
#ifndef C13_HPP
#define C13_HPP
#include "prob.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
namespace od = boost::numeric::odeint;
template <class T> struct NaNAlloc { typedef T value_type; template <class U> struct rebind { typedef NaNAlloc<U> other; }; NaNAlloc() {} template <class U> NaNAlloc(const NaNAlloc<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t) { ::operator delete(p); }
    template <class U, class... A> void construct(U* p, A&&... a) { ::new ((void*)p) U(std::forward<A>(a)...); } void construct(T* p) { ::new ((void*)p) T(std::numeric_limits<T>::quiet_NaN()); }
    bool operator==(const NaNAlloc&) const { return true; } bool operator!=(const NaNAlloc&) const { return false; } };
typedef std::vector<double, NaNAlloc<double>> NV;
inline NV tonv(const Vec& v) { return NV(v.begin(), v.end()); } inline Vec pv(const NV& v) { return Vec(v.begin(), v.end()); } inline Vec pv(const Vec& v) { return v; }
template <class S> S mkst(const Vec& v) { return S(v.begin(), v.end()); }
template <class S> struct NSys { const Prob* p; mutable std::shared_ptr<long> calls; void operator()(const S& x, S& d, double t) const { rhs_tick(); if ((int)x.size() != p->d) pbt::fail("state_size", pbt::str("the system was called with a state of size ", x.size(), ", the caller's has ", p->d)); if ((int)d.size() != p->d) pbt::fail("derivative_size", pbt::str("the system was handed a derivative of size ", d.size(), " for a state of size ", p->d));
    for (size_t i = 0; i < x.size(); ++i) if (std::isnan(x[i])) pbt::fail("uninitialised", pbt::str("the system was called with component ", i, " never written")); p->eval<double>(x, d, t); } };
enum Pol { ALWAYS, INITIALLY, NEVER };
template <class R> struct PolOf; template <> struct PolOf<od::always_resizer> { static const Pol v = ALWAYS; static const char* n() { return "always"; } }; template <> struct PolOf<od::initially_resizer> { static const Pol v = INITIALLY; static const char* n() { return "initially"; } }; template <> struct PolOf<od::never_resizer> { static const Pol v = NEVER; static const char* n() { return "never"; } };
struct Seg { Prob p; Vec x0; double t0, dt; std::vector<int> op; };
inline std::vector<Seg> gen13(pbt::Src& s, Pol pol, int maxops = 5) {
    rhs_reset(); int n = (int)s.i(1, 5); std::vector<Seg> r; for (int k = 0; k < n; ++k) { Seg g; int d = s.raw(6) < 5 ? (int)s.i(1, 7) : (int)s.i(8, 40); if (k && s.flag(15)) d = r.back().p.d; g.p = gen_prob(s, d, ALLKINDS, 1.0); g.x0 = s.vec(d, 1.0); g.t0 = s.raw(3) ? s.num(2) : 0; g.dt = s.logmag(0.005, 0.2); if (s.flag()) g.dt = -g.dt; int m = (int)s.i(1, maxops); for (int j = 0; j < m; ++j) g.op.push_back((int)s.raw(8)); r.push_back(g); }
    std::string q; for (auto& g : r) { q += pbt::str("[", g.p.describe(), " n=", g.p.d, " dt=", g.dt, " ops"); for (int o : g.op) q += pbt::str(" ", o); q += "] "; } s.note(q); return r;
}
template <class St> auto do_reset(St& s, int) -> decltype(s.reset(), void()) { s.reset(); }
template <class St> void do_reset(St&, long) {}
inline void eq13(const Vec& a, const Vec& b, const char* what, int seg, int k, const char* pol) {
    REQUIRE_K("size", a.size() == b.size(), what, " has size ", a.size(), ", expected ", b.size());
    for (size_t i = 0; i < a.size(); ++i) REQUIRE_K("value", a[i] == b[i] || (std::isnan(b[i]) && std::isnan(a[i])), what, " component ", i, " in segment ", seg, " after step ", k, " is ", a[i], "; a stepper made for this size gives ", b[i], " (", pol, "_resizer)"); }
inline void nt13(pbt::Src& s, const std::vector<Seg>& g) { bool up = false, down = false; for (size_t k = 1; k < g.size(); ++k) { up |= g[k].p.d > g[k - 1].p.d; down |= g[k].p.d < g[k - 1].p.d; } if (up && down) { s.label("grow and shrink"); s.nontrivial(); } else if (up || down) { s.label(up ? "grow" : "shrink"); s.nontrivial(); } else s.label("one size"); }
#define R13 "at least two segments with different state sizes"

// how a segment starts: explicit size adjustment where the policy asks for it, restart of the history
// unless the size change itself must restart it
template <class St, class S> void begin_seg(St& st, Pol pol, const S& x, size_t k, int prevd, int d, bool adj_anyway) {
    if (pol == NEVER || (pol == INITIALLY && k > 0) || adj_anyway) st.adjust_size(x);
    if (!(pol == ALWAYS && d != prevd && k > 0)) do_reset(st, 0);
}
// ops of plain steppers: 0,1,2 in place; 3,4 out of place; 5 copy-construct the stepper; 6 assign to an older one; 7 assign to a used one of other size
template <class S, class St> void step_ip(St& st, const NSys<S>& sys, S& x, double t, double dt) { st.do_step(sys, x, t, dt); }
template <class S, class St> void step_oop(St& st, const NSys<S>& sys, S& x, double t, double dt) { S y(x.size(), 0.0); st.do_step(sys, x, t, y, dt); x = y; }
template <class S, class St> void step_err(St& st, const NSys<S>& sys, S& x, double t, double dt, S& e) { st.do_step(sys, x, t, dt, e); }
template <template <class, class> class F, class R> void plain13(pbt::Src& s) {
    typedef F<NV, R> A; typedef F<Vec, od::initially_resizer> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 10); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20);
    std::shared_ptr<A> st(new A); std::shared_ptr<A> old;
    for (size_t k = 0; k < g.size(); ++k) {
        NV x = tonv(g[k].x0); Vec y = g[k].x0; B ref; NSys<NV> sa{&g[k].p}; NSys<Vec> sb{&g[k].p}; double t = g[k].t0; begin_seg(*st, pol, x, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j];
            if (op == 5) { old = st; st = std::shared_ptr<A>(new A(*st)); } else if (op >= 6) { if (!old || op == 6) { old = std::shared_ptr<A>(new A); } *old = *st; std::swap(old, st); }
            if (op == 3 || op == 4) { step_oop<NV>(*st, sa, x, t, g[k].dt); step_oop<Vec>(ref, sb, y, t, g[k].dt); } else { step_ip<NV>(*st, sa, x, t, g[k].dt); step_ip<Vec>(ref, sb, y, t, g[k].dt); }
            t += g[k].dt; eq13(pv(x), y, "state", k, j, PolOf<R>::n()); }
    }
    nt13(s, g);
}
template <template <class, class> class F, class R> void err13(pbt::Src& s) {
    typedef F<NV, R> A; typedef F<Vec, od::initially_resizer> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 6); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A);
    for (size_t k = 0; k < g.size(); ++k) {
        NV x = tonv(g[k].x0), e(x.size()); Vec y = g[k].x0, f(y.size()); B ref; NSys<NV> sa{&g[k].p}; NSys<Vec> sb{&g[k].p}; double t = g[k].t0; begin_seg(*st, pol, x, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op >= 5) st = std::shared_ptr<A>(new A(*st));
            if (op < 4) { st->do_step(sa, x, t, g[k].dt, e); ref.do_step(sb, y, t, g[k].dt, f); eq13(pv(e), f, "error estimate", k, j, PolOf<R>::n()); } else { st->do_step(sa, x, t, g[k].dt); ref.do_step(sb, y, t, g[k].dt); }
            t += g[k].dt; eq13(pv(x), y, "state", k, j, PolOf<R>::n()); }
    }
    nt13(s, g);
}
// controlled steppers; make: tolerance -> stepper
template <class A, class B, class R, class MA, class MB> void ctrl13(pbt::Src& s, MA ma, MB mb) {
    Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 8); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); double tol = s.logmag(1e-9, 1e-2); s.note("tol", tol); std::shared_ptr<A> st(new A(ma(tol)));
    for (size_t k = 0; k < g.size(); ++k) {
        NV x = tonv(g[k].x0); Vec y = g[k].x0; B ref = mb(tol); NSys<NV> sa{&g[k].p}; NSys<Vec> sb{&g[k].p}; double t = g[k].t0, dt = 3 * g[k].dt, tb = t, dtb = dt; begin_seg(*st, pol, x, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op >= 6) st = std::shared_ptr<A>(new A(*st)); int ra, rb;
            if (op == 3 || op == 4) { NV o(x.size(), 0.0); Vec q(y.size(), 0.0); ra = st->try_step(sa, x, t, o, dt); rb = ref.try_step(sb, y, tb, q, dtb); if (rb == od::success) { x = o; y = q; } } else { ra = st->try_step(sa, x, t, dt); rb = ref.try_step(sb, y, tb, dtb); }
            REQUIRE_K("acceptance", ra == rb, "segment ", k, " trial ", j, ": result differs from a stepper made for this size"); REQUIRE_K("time", t == tb && dt == dtb, "segment ", k, " trial ", j, ": t ", t, " dt ", dt, " expected ", tb, " ", dtb); eq13(pv(x), y, "state", k, j, PolOf<R>::n()); if (!(std::fabs(t) < 40)) break; }
    }
    nt13(s, g);
}
// dense output steppers
template <class A, class B, class R, class MA, class MB> void dense13(pbt::Src& s, MA ma, MB mb) {
    Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 5); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); double tol = s.logmag(1e-9, 1e-2); s.note("tol", tol); std::shared_ptr<A> st(new A(ma(tol)));
    for (size_t k = 0; k < g.size(); ++k) {
        NV x = tonv(g[k].x0); Vec y = g[k].x0; B ref = mb(tol); NSys<NV> sa{&g[k].p}; NSys<Vec> sb{&g[k].p}; if (pol == NEVER || (pol == INITIALLY && k > 0) || adj) st->adjust_size(x); st->initialize(x, g[k].t0, g[k].dt); ref.initialize(y, g[k].t0, g[k].dt);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op >= 6) st = std::shared_ptr<A>(new A(*st)); auto a = st->do_step(sa); auto b = ref.do_step(sb);
            REQUIRE_K("time", a.first == b.first && a.second == b.second, "segment ", k, " step ", j, ": interval ", a.first, "..", a.second, " expected ", b.first, "..", b.second); eq13(pv(st->current_state()), ref.current_state(), "current state", k, j, PolOf<R>::n()); eq13(pv(st->previous_state()), ref.previous_state(), "previous state", k, j, PolOf<R>::n());
            double th = a.first + (0.1 + 0.2 * (op % 5)) * (a.second - a.first); NV p(x.size()); Vec q(y.size()); st->calc_state(th, p); ref.calc_state(th, q); eq13(pv(p), q, "interpolated state", k, j, PolOf<R>::n()); if (!(std::fabs(a.second) < 40)) break; }
    }
    nt13(s, g);
}
#define POLICIES(CALL) switch (src.raw(3)) { case 0: { typedef od::always_resizer R; CALL; break; } case 1: { typedef od::initially_resizer R; CALL; break; } default: { typedef od::never_resizer R; CALL; } }
#define F13(NAME, TPL) template <class S, class R> using NAME = od::TPL<S, double, S, double, od::range_algebra, od::default_operations, R>;
F13(g_euler, euler) F13(g_rk4, runge_kutta4) F13(g_rk4c, runge_kutta4_classic) F13(g_ck, runge_kutta_cash_karp54) F13(g_ckc, runge_kutta_cash_karp54_classic) F13(g_dp, runge_kutta_dopri5) F13(g_f78, runge_kutta_fehlberg78) F13(g_mm, modified_midpoint) F13(g_bs, bulirsch_stoer) F13(g_bsd, bulirsch_stoer_dense_out)
#define F13N(NAME, TPL, N) template <class S, class R> using NAME = od::TPL<N, S, double, S, double, od::range_algebra, od::default_operations, R>;
F13N(g_ex4, extrapolation_stepper, 4) F13N(g_ex8, extrapolation_stepper, 8) F13N(g_ab1, adams_bashforth, 1) F13N(g_ab4, adams_bashforth, 4) F13N(g_abm3, adams_bashforth_moulton, 3) F13N(g_abm5, adams_bashforth_moulton, 5) F13N(g_aabm, adaptive_adams_bashforth_moulton, 4)
#endif
