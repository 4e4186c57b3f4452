// C13, steppers with more than one state per step: the symplectic family and velocity Verlet
#include "c13.hpp"
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
// the caller's size, the size of everything handed over, and nothing never written
template <class Q, class A> void look(const Prob* p, const Q& q, const A& a, const char* what) { rhs_tick(); if ((int)q.size() != p->d) pbt::fail("state_size", pbt::str(what, ": called with a state of size ", q.size(), ", the caller's has ", p->d)); if ((int)a.size() != p->d) pbt::fail("derivative_size", pbt::str(what, ": handed a derivative of size ", a.size(), " for a state of size ", p->d));
    for (size_t i = 0; i < q.size(); ++i) if (std::isnan(q[i])) pbt::fail("uninitialised", pbt::str(what, ": component ", i, " never written")); }
template <class S> struct MomF { const Prob* p; template <class Q, class A> void operator()(const Q& q, A& a) const { look(p, q, a, "momentum function"); for (int i = 0; i < p->d; ++i) a[i] = -q[i] * (1 + 0.3 * std::sin(q[(i + 1) % p->d])); } };
template <class S> struct CooF { const Prob* p; template <class Q, class A> void operator()(const Q& q, A& a) const { look(p, q, a, "coordinate function"); for (int i = 0; i < p->d; ++i) a[i] = 0.8 * q[i] + 0.1 * q[(i + 1) % p->d]; } };
template <class S> struct AccF { const Prob* p; template <class Q, class P, class A> void operator()(const Q& q, const P& v, A& a, double t) const { look(p, q, a, "acceleration"); look(p, v, a, "acceleration, velocity"); for (int i = 0; i < p->d; ++i) a[i] = -q[i] - 0.2 * v[i] + 0.3 * std::sin(t + i); } };
#define SY(NAME, TPL) template <class S, class R> using NAME = od::TPL<S, S, double, S, S, double, od::range_algebra, od::default_operations, R>;
SY(g_se, symplectic_euler) SY(g_mcl, symplectic_rkn_sb3a_mclachlan) SY(g_m4, symplectic_rkn_sb3a_m4_mclachlan)
template <class S, class R> using g_vv = od::velocity_verlet<S, S, double, S, double, double, od::range_algebra, od::default_operations, R>;
inline Vec second(const Seg& g) { Vec p(g.x0.size()); for (size_t i = 0; i < p.size(); ++i) p[i] = std::cos(3.0 * i + 10 * g.x0[i]); return p; }
template <class S, class St> void sym_step(St& st, const Prob* p, S& q, S& v, double t, double dt, int op) {
    std::pair<CooF<S>, MomF<S>> both{CooF<S>{p}, MomF<S>{p}}; MomF<S> one{p};
    switch (op) {
        case 0: st.do_step(one, q, v, t, dt); break; case 1: st.do_step(both, q, v, t, dt); break; case 2: { std::pair<S, S> x(q, v); st.do_step(one, x, t, dt); q = x.first; v = x.second; break; }
        case 3: { std::pair<S, S> x(q, v), y(S(q.size(), 0.0), S(q.size(), 0.0)); st.do_step(both, x, t, y, dt); q = y.first; v = y.second; break; } case 4: { std::pair<S, S> x(q, v), y(S(q.size(), 0.0), S(q.size(), 0.0)); st.do_step(one, x, t, y, dt); q = y.first; v = y.second; break; }
        default: st.do_step(std::ref(both), std::make_pair(std::ref(q), std::ref(v)), t, dt); } }
template <template <class, class> class F, class R> void sym13(pbt::Src& s) {
    typedef F<NV, R> A; typedef F<Vec, od::initially_resizer> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 8); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A), old;
    for (size_t k = 0; k < g.size(); ++k) {
        NV q = tonv(g[k].x0), v = tonv(second(g[k])); Vec qr = g[k].x0, vr = second(g[k]); B ref; double t = g[k].t0; begin_seg(*st, pol, q, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op == 6) { old = st; st = std::shared_ptr<A>(new A(*st)); } if (op == 7) { st = std::shared_ptr<A>(new A(*st)); }
            sym_step<NV>(*st, &g[k].p, q, v, t, g[k].dt, op); sym_step<Vec>(ref, &g[k].p, qr, vr, t, g[k].dt, op); t += g[k].dt; eq13(pv(q), qr, "coordinates", k, j, PolOf<R>::n()); eq13(pv(v), vr, "momenta", k, j, PolOf<R>::n()); }
    }
    nt13(s, g);
}
template <class R> void vv13(pbt::Src& s) {
    typedef g_vv<NV, R> A; typedef g_vv<Vec, od::initially_resizer> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 8); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A), old;
    for (size_t k = 0; k < g.size(); ++k) {
        NV q = tonv(g[k].x0), v = tonv(second(g[k])); Vec qr = g[k].x0, vr = second(g[k]); B ref; double t = g[k].t0; AccF<NV> fa{&g[k].p}; AccF<Vec> fb{&g[k].p}; bool sized = (k ? g[k - 1].p.d : -1) != g[k].p.d;
        // adjust_size with a new size restarts by itself
        if (pol == NEVER || (pol == INITIALLY && k > 0) || adj) { st->adjust_size(q); if (!sized) st->reset(); } else if (!sized) st->reset();
        if (g[k].op[0] >= 6) { st->initialize(fa, q, v, t); ref.initialize(fb, qr, vr, t); s.label("initialize(system)"); } else if (g[k].op[0] == 5) { NV a(q.size(), 0.25); Vec b(q.size(), 0.25); st->initialize(a); ref.initialize(b); s.label("initialize(acceleration)"); }
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (j && op == 6) { old = st; st = std::shared_ptr<A>(new A(*st)); } if (j && op == 7) { if (!old) old = std::shared_ptr<A>(new A); *old = *st; std::swap(old, st); }
            if (op == 3) { NV a(q.size()), q2(q.size()), v2(q.size()), a2(q.size()); fa(q, v, a, t); st->do_step(fa, q, v, a, q2, v2, a2, t, g[k].dt); Vec b(q.size()), qs(q.size()), vs(q.size()), b2(q.size()); fb(qr, vr, b, t); ref.do_step(fb, qr, vr, b, qs, vs, b2, t, g[k].dt); q = q2; v = v2; qr = qs; vr = vs; eq13(pv(a2), b2, "acceleration", k, j, PolOf<R>::n()); }
            else { std::pair<NV, NV> x(q, v); st->do_step(fa, x, t, g[k].dt); q = x.first; v = x.second; std::pair<Vec, Vec> y(qr, vr); ref.do_step(fb, y, t, g[k].dt); qr = y.first; vr = y.second; }
            t += g[k].dt; eq13(pv(q), qr, "coordinates", k, j, PolOf<R>::n()); eq13(pv(v), vr, "velocities", k, j, PolOf<R>::n()); }
    }
    nt13(s, g);
}
SUITE(sizes_symplectic, 5000, 250000, R13) { switch (src.raw(3)) { case 0: POLICIES((sym13<g_se, R>(src))) break; case 1: POLICIES((sym13<g_mcl, R>(src))) break; default: POLICIES((sym13<g_m4, R>(src))) } }
SUITE(sizes_verlet, 4000, 200000, R13) { POLICIES((vv13<R>(src))) }
