#include "c18.hpp"
using namespace boost::numeric::odeint;
template <size_t N> void ab18(pbt::Src& s) { if (s.flag()) vec18(s, [](const Call18&) { return adams_bashforth<N, Vec>(); }, 200, 0.3, 1e-9, true, false, true); else vec18(s, [](const Call18&) { return adams_bashforth_moulton<N, Vec>(); }, 200, 0.3, 1e-9, true, false, true); }
SUITE(one_step, 30000, 1500000, C18_RULE) { switch (src.raw(10)) {
    case 0: vec18(src, [](const Call18&) { return euler<Vec>(); }); break; case 1: vec18(src, [](const Call18&) { return runge_kutta4<Vec>(); }); break; case 2: vec18(src, [](const Call18&) { return runge_kutta4_classic<Vec>(); }); break; case 3: vec18(src, [](const Call18&) { return runge_kutta_cash_karp54<Vec>(); }); break;
    case 4: vec18(src, [](const Call18&) { return runge_kutta_cash_karp54_classic<Vec>(); }); break; case 5: vec18(src, [](const Call18&) { return runge_kutta_dopri5<Vec>(); }); break; case 6: vec18(src, [](const Call18&) { return runge_kutta_fehlberg78<Vec>(); }); break; case 7: { unsigned n = 2 * (unsigned)src.i(1, 4); vec18(src, [n](const Call18&) { return modified_midpoint<Vec>(n); }); break; }
    case 8: vec18(src, [](const Call18&) { return extrapolation_stepper<4, Vec>(); }); break; default: vec18(src, [](const Call18&) { return extrapolation_stepper<8, Vec>(); }); } }
SUITE(multistep, 15000, 700000, C18_RULE) { switch (src.raw(7)) { case 0: ab18<1>(src); break; case 1: ab18<2>(src); break; case 2: ab18<3>(src); break; case 3: ab18<4>(src); break; case 4: ab18<6>(src); break; case 5: ab18<8>(src); break; default: if (src.flag()) vec18(src, [](const Call18&) { return adaptive_adams_bashforth_moulton<4, Vec>(); }, 200, 0.3, 1e-9, true, false, true); else vec18(src, [](const Call18&) { return adaptive_adams_bashforth_moulton<7, Vec>(); }, 200, 0.3, 1e-9, true, false, true); } }
// symplectic steppers: coordinates and momenta
struct SymSys { std::shared_ptr<const Prob> a, b; std::shared_ptr<const Tr> tr; double shift; }; // separable: dq/dt = a(p), dp/dt = b(q), slots permuted / padded together
struct SymF { std::shared_ptr<const Prob> p; std::shared_ptr<const Tr> tr; void operator()(const Vec& y, Vec& dy) const { Tr t0 = *tr; t0.shift = 0; TSys{p, tr}(y, dy, 0.0); } };
struct VF { std::shared_ptr<const Prob> p; std::shared_ptr<const Tr> tr; void operator()(const Vec& q, const Vec&, Vec& a, double t) const { TSys{p, tr}(q, a, t); } };
typedef std::pair<Vec, Vec> QP;
template <class F> void symp(pbt::Src& s, F make) {
    rhs_reset(); Call18 c = gen18(s, 200, 0.2); c.fn %= 4; int d = (int)s.i(1, 3); Prob a = gen_prob(s, d, {K_SIN, K_LIN}, 1.0), b = gen_prob(s, d, {K_SIN, K_LIN, K_MIX}, 1.0); a.autonomous = b.autonomous = true; Tr t = gen_tr(s, d, c, ALLTR, false); Vec q0 = s.vec(d, 1.2), p0 = s.vec(d, 1.2); s.note(a.describe()); s.note(b.describe()); s.note("q", q0); s.note("p", p0);
    auto pa = std::make_shared<Prob>(a), pb = std::make_shared<Prob>(b); Tr id; for (int k = 0; k < d; ++k) id.src.push_back(k); auto it = std::make_shared<Tr>(id), tt = std::make_shared<Tr>(t);
    Tr t2 = t; size_t m = t.src.size(); for (size_t k = 0; k < m; ++k) t2.src.push_back(t.src[k] < 0 ? -1 : t.src[k] + d); for (size_t k = 0; k < m; ++k) t2.inert[m + k] = t2.inert[k];
    Res18 ra = run18<std::false_type>(make, c, std::make_pair(SymF{pa, it}, SymF{pb, it}), QP(q0, p0), true), rb = run18<std::false_type>(make, tcall(c, t), std::make_pair(SymF{pa, tt}, SymF{pb, tt}), QP(t.fwd(q0), t.fwd(p0)), false); for (auto& v : ra.x) if (!allfinite(v)) throw pbt::Discard(); same18(s, c, ra, rb, t2, t.kind != 5 || (c.exact && t.exact), 1e-9);
}
SUITE(symplectic, 10000, 500000, C18_RULE) { switch (src.raw(3)) { case 0: symp(src, [](const Call18&) { return symplectic_euler<Vec>(); }); break; case 1: symp(src, [](const Call18&) { return symplectic_rkn_sb3a_mclachlan<Vec>(); }); break; default: symp(src, [](const Call18&) { return symplectic_rkn_sb3a_m4_mclachlan<Vec>(); }); } }
