#include "c18.hpp"
using namespace boost::numeric::odeint;
template <class B> struct Mk { controlled_runge_kutta<B> operator()(const Call18& c) const { typedef controlled_runge_kutta<B> C; return C(typename C::error_checker_type(c.at, c.rt, c.ax, c.ad), typename C::step_adjuster_type(c.maxdt)); } };
SUITE(controlled, 30000, 1500000, C18_RULE) { switch (src.raw(7)) {
    case 0: vec18(src, Mk<runge_kutta_cash_karp54<Vec>>(), 60, 0.4, 1e-7, false); break; case 1: vec18(src, Mk<runge_kutta_cash_karp54_classic<Vec>>(), 60, 0.4, 1e-7, false); break; case 2: vec18(src, Mk<runge_kutta_dopri5<Vec>>(), 60, 0.4, 1e-7, false); break; case 3: vec18(src, Mk<runge_kutta_fehlberg78<Vec>>(), 60, 0.4, 1e-7, false); break;
    case 4: vec18(src, [](const Call18& c) { return bulirsch_stoer<Vec>(c.at, c.rt, c.ax, c.ad, c.maxdt); }, 40, 0.4, 1e-7, false, true); break;
    case 5: vec18(src, [](const Call18& c) { return make_controlled(c.at, c.rt, adaptive_adams_bashforth_moulton<4, Vec>()); }, 40, 0.3, 1e-7, false); break; default: vec18(src, [](const Call18& c) { return make_controlled(c.at, c.rt, adaptive_adams_bashforth_moulton<7, Vec>()); }, 40, 0.3, 1e-7, false); } }
SUITE(dense, 30000, 1500000, C18_RULE) { switch (src.raw(4)) { case 0: vec18(src, [](const Call18&) { return dense_output_runge_kutta<euler<Vec>>(); }, 100, 0.3); break; case 1: vec18(src, [](const Call18& c) { return bulirsch_stoer_dense_out<Vec>(c.at, c.rt, c.ax, c.ad, c.maxdt); }, 40, 0.4, 1e-7, false, true); break;
    default: vec18(src, [](const Call18& c) { typedef dense_output_runge_kutta<controlled_runge_kutta<runge_kutta_dopri5<Vec>>> D; return D(Mk<runge_kutta_dopri5<Vec>>()(c)); }, 60, 0.4, 1e-7, false); } }
// Rosenbrock: the error norm is a mean over the components, so padding is not a symmetry; LU factorisation orders
// rows by size, so permuted runs agree to rounding only
template <class Make> void ros18(pbt::Src& s, Make make) {
    rhs_reset(); double tol = 1e-9; Call18 c = gen18(s, 20, 0.3); c.fn %= 4; c.at = std::max(c.at, 1e-7); c.rt = std::max(c.rt, 1e-7); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Tr t = gen_tr(s, p.d, c, {0, 1, 5}, true); if (t.kind == 5) { shift_adaptive(c, p, tol); if (s.flag()) p.autonomous = true; } Vec x0 = s.vec(p.d, 1.2); s.note(p.describe()); s.note("x0", x0);
    auto pp = std::make_shared<Prob>(p); Tr id; for (int k = 0; k < p.d; ++k) id.src.push_back(k); auto it = std::make_shared<Tr>(id), tt = std::make_shared<Tr>(t);
    Res18 a = run18<std::false_type>(make, c, std::make_pair(TSys{pp, it}, TJac{pp, it}), mk(x0), true), b = run18<std::false_type>(make, tcall(c, t), std::make_pair(TSys{pp, tt}, TJac{pp, tt}), mk(t.fwd(x0)), false); for (auto& v : a.x) if (!allfinite(v)) throw pbt::Discard(); same18(s, c, a, b, t, t.kind != 5, tol);
}
SUITE(rosenbrock, 8000, 400000, C18_RULE) { if (src.flag()) ros18(src, [](const Call18& c) { return rosenbrock4_controller<rosenbrock4<double>>(c.at, c.rt, c.maxdt); }); else ros18(src, [](const Call18& c) { return rosenbrock4_dense_output<rosenbrock4_controller<rosenbrock4<double>>>(rosenbrock4_controller<rosenbrock4<double>>(c.at, c.rt, c.maxdt)); }); }
