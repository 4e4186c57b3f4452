#include "jsys.hpp"
#include "c02.hpp"
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
// pair systems: by value, referenced as a whole, referenced in parts
template <class F> void pair_styles(int k, JPair& s, std::string& name, F f) { switch (k) { case 0: name = "value"; f(s); break; case 1: name = "boost::ref"; f(boost::ref(s)); break; case 2: name = "pair of boost::ref"; f(std::make_pair(boost::ref(s.first), boost::ref(s.second))); break; case 3: { name = "pair of std::ref"; std::pair<std::reference_wrapper<JF>, std::reference_wrapper<JJ>> q(std::ref(s.first), std::ref(s.second)); f(q); break; } default: name = "std::ref"; f(std::ref(s)); } }
SUITE(rosenbrock_forms, 30000, 1500000, C02_RULE) {
    rhs_reset(); pbt::Src& s = src; int d = (int)s.i(1, 4); Prob p = gen_prob(s, d, ALLKINDS, 1.2); JPair sys = jpair(p); Vec x = s.vec(d, 1.5); double t = s.num(3), dt = s.logmag(1e-3, 0.3); if (s.flag()) dt = -dt; s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt);
    bool ctrl = s.flag(); std::string nm; bool diff = false;
    if (!ctrl) { od::rosenbrock4<double> b; int n = (int)s.i(1, 5); for (int k = 0; k < n; ++k) { od::rosenbrock4<double> a; UV in = mk(x), o1 = mk(x), e1 = mk(x); a.do_step(sys, in, t, o1, dt, e1); int form = (int)s.raw(4), sty = (int)s.raw(5); UV y = mk(x), out = mk(Vec(d, 0.5)), e = out; diff |= form || sty; bool he = form < 2;
        pair_styles(sty, sys, nm, [&](auto q) { switch (form) { case 0: b.do_step(q, y, t, out, dt, e); break; case 1: b.do_step(q, y, t, dt, e); out = y; break; case 2: b.do_step(q, y, t, out, dt); break; default: b.do_step(q, y, t, dt); out = y; } }); if (form == 0 || form == 2) REQUIRE_K("input_written", same_bits(uv(y), x), "input written");
        if (!allfinite(uv(o1)) || maxabs(uv(o1)) > 1e4) return; double tol = 1e-11 * std::max(1.0, maxabs(uv(o1))); check_close("rosenbrock_state", pbt::str("rosenbrock4 form ", form, " system as ", nm, " step ", k), uv(out), uv(o1), tol); if (he) check_close("rosenbrock_error", pbt::str("rosenbrock4 form ", form, " error estimate"), uv(e), uv(e1), tol); x = uv(o1); t += dt; } }
    else { typedef od::rosenbrock4_controller<od::rosenbrock4<double>> C; double at = s.logmag(1e-8, 1e-2), rt = s.logmag(1e-8, 1e-2); C a(at, rt), b(at, rt); int n = (int)s.i(1, 8); for (int k = 0; k < n; ++k) { UV y = mk(x), z = mk(x), out = mk(Vec(d, 0.5)); double ta = t, tb = t, da = dt, db = dt; int form = (int)s.raw(2), sty = (int)s.raw(5); diff |= form || sty; int ra = a.try_step(sys, y, ta, da), rb = 0; pair_styles(sty, sys, nm, [&](auto q) { rb = form ? b.try_step(q, z, tb, out, db) : b.try_step(q, z, tb, db); });
        if (!allfinite(uv(y)) || maxabs(uv(y)) > 1e4) return; if (form) { REQUIRE_K("input_written", same_bits(uv(z), x), "input written"); if (rb == od::success) z = out; } REQUIRE_K("decision", ra == rb && ta == tb, "rosenbrock controller form ", form, " system as ", nm, ": result ", rb, " t=", tb, " against ", ra, " ", ta); REQUIRE_K("step", std::fabs(da - db) <= 1e-8 * std::fabs(da), "next step ", db, " against ", da); check_close("rosenbrock_state", "controller state", uv(z), uv(y), 1e-11 * std::max(1.0, maxabs(uv(y)))); x = uv(y); t = ta; dt = std::fabs(da) > 1 ? std::copysign(0.5, da) : da; if (std::fabs(dt) < 1e-8) return; } }
    if (diff) s.nontrivial();
}
SUITE(implicit_euler_forms, 6000, 300000, C02_RULE) {
    rhs_reset(); pbt::Src& s = src; int d = (int)s.i(1, 4); Prob p = gen_prob(s, d, ALLKINDS, 1.0); JPair sys = jpair(p); Vec x = s.vec(d, 1.5); double t = s.num(3), dt = s.logmag(1e-3, 0.1); s.note(p.describe()); od::implicit_euler<double> a, b; std::string nm; int sty = (int)s.raw(5); UV y = mk(x), z = mk(x); a.do_step(sys, y, t, dt); if (!allfinite(uv(y)) || maxabs(uv(y)) > 1e4) return; pair_styles(sty, sys, nm, [&](auto q) { b.do_step(q, z, t, dt); }); check_close("implicit_state", "implicit_euler with system as " + nm, uv(z), uv(y), 1e-12 * std::max(1.0, maxabs(uv(y)))); if (sty) s.nontrivial(); }
// velocity Verlet: pair, pair of references, temporary pair, and the form that takes accelerations
struct Acc { std::shared_ptr<const Prob> p; void operator()(const Vec& q, const Vec& v, Vec& a, double t) const { rhs_tick(); Vec y(q); for (size_t i = 0; i < y.size(); ++i) y[i] += 0.25 * v[i]; p->eval<double>(y, a, t); } };
SUITE(verlet_forms, 30000, 1500000, C02_RULE) {
    rhs_reset(); pbt::Src& s = src; int d = (int)s.i(1, 5); Prob p = gen_prob(s, d, ALLKINDS, 1.2); Acc f{std::make_shared<const Prob>(p)}; Vec q = s.vec(d, 1.5), v = s.vec(d, 1.5); double t = s.num(3), dt = s.logmag(1e-3, 0.3); if (s.flag()) dt = -dt; s.note(p.describe()); s.note(" q", q); s.note("v", v); s.note("t", t); s.note("dt", dt); od::velocity_verlet<Vec> b; int n = (int)s.i(1, 8); std::string h; bool diff = false; Vec prev;
    bool cached = false; // velocity-dependent forces: the stored acceleration is the one computed with the velocity before the kick
    for (int k = 0; k < n; ++k) { int form = (int)s.raw(5), sty = (int)s.raw(3); if (form == 3 && s.flag(40)) { q = s.vec(d, 1.5); t = s.num(3); h += "jump; "; }
        Vec a0(d), a1(d); if (form != 3 && cached) a0 = prev; else f(q, v, a0, t); Vec qo(d), vo(d); for (int i = 0; i < d; ++i) qo[i] = q[i] + dt * v[i] + 0.5 * dt * dt * a0[i]; f(qo, v, a1, t + dt); for (int i = 0; i < d; ++i) vo[i] = v[i] + 0.5 * dt * (a0[i] + a1[i]);
        Vec Q = q, V = v, A = a0, QO(d, 0.5), VO(d, 0.5), AO(d, 0.5); Acc fc = f; diff |= form || sty; h += pbt::str("form ", form, " system by ", sy_name(sty), "; ");
        with_sys(sty, fc, [&](auto g) { switch (form) { case 0: { std::pair<Vec, Vec> x(Q, V); b.do_step(g, x, t, dt); QO = x.first; VO = x.second; break; } case 1: b.do_step(g, std::make_pair(boost::ref(Q), boost::ref(V)), t, dt); QO = Q; VO = V; break; case 2: { auto x = std::make_pair(boost::ref(Q), boost::ref(V)); b.do_step(g, x, t, dt); QO = Q; VO = V; break; } case 3: b.do_step(g, Q, V, A, QO, VO, AO, t, dt); REQUIRE_K("input_written", same_bits(Q, q) && same_bits(V, v) && same_bits(A, a0), "input written"); check_close("verlet_acceleration", "acceleration handed out [" + h + "]", AO, a1, 1e-12 * (1 + maxabs(a1))); break; default: { std::pair<Vec, Vec> x(Q, V); auto r = boost::ref(x); b.do_step(g, r, t, dt); QO = x.first; VO = x.second; } } });
        if (!allfinite(qo) || maxabs(qo) > 1e3 || maxabs(vo) > 1e3) return; double tol = 1e-12 * std::max({1.0, maxabs(qo), maxabs(vo), maxabs(a0), maxabs(a1)}); check_close("verlet_q", pbt::str("coordinates, step ", k, " [", h, "]"), QO, qo, tol); check_close("verlet_v", pbt::str("velocities, step ", k, " [", h, "]"), VO, vo, tol); q = qo; v = vo; t += dt; cached = form != 3; prev = a1; if (s.flag(10)) { b.reset(); cached = false; h += "reset; "; } }
    if (diff) s.nontrivial();
}
// dense output: system by value / reference, interpolation into differently held states
template <class D> void dense_case(pbt::Src& s, D a, D b) {
    rhs_reset(); int d = (int)s.i(1, 4); Prob p = gen_prob(s, d, SMOOTHKINDS, 1.2); Sys<Vec> sys(p); Vec x = s.vec(d, 1.5); double t = s.num(3), dt = s.logmag(1e-3, 0.2); s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt); a.initialize(x, t, dt); b.initialize(x, t, dt); int n = (int)s.i(1, 6); bool diff = false;
    for (int k = 0; k < n; ++k) { auto ra = a.do_step(sys); std::pair<double, double> rb; int sty = (int)s.raw(SY_N); diff |= sty; with_sys(sty, sys, [&](auto g) { rb = b.do_step(g); }); if (maxabs(a.current_state()) > 1e4) return; double tol = 1e-12 * std::max(1.0, maxabs(a.current_state())); REQUIRE_K("dense_time", ra == rb, "interval [", rb.first, ",", rb.second, "] against [", ra.first, ",", ra.second, "], system by ", sy_name(sty)); check_close("dense_state", pbt::str("system by ", sy_name(sty)), b.current_state(), a.current_state(), tol); REQUIRE_K("dense_times", b.previous_time() == rb.first && b.current_time() == rb.second, "interval returned [", rb.first, ",", rb.second, "], reported [", b.previous_time(), ",", b.current_time(), "]");
        for (int j = 0; j < 3; ++j) { double th = s.mag(0, 1), tt = ra.first + th * (ra.second - ra.first); Vec u(d, 0.5), w(d, 0.5); a.calc_state(tt, u); const D& c = b; switch (j) { case 0: b.calc_state(tt, w); break; case 1: c.calc_state(tt, w); break; default: { Sub z(w); auto r = z.range(); c.calc_state(tt, r); w = z.get(); diff = true; } } check_close("calc_state", pbt::str("interpolation form ", j, " at t=", tt), w, u, tol); } }
    if (diff) s.nontrivial();
}
SUITE(dense_forms, 20000, 1000000, C02_RULE) { switch (src.raw(3)) { case 0: { typedef od::dense_output_runge_kutta<od::controlled_runge_kutta<od::runge_kutta_dopri5<Vec>>> D; double tol = src.logmag(1e-9, 1e-2); auto m = [&] { return od::make_dense_output(tol, tol, od::runge_kutta_dopri5<Vec>()); }; dense_case<D>(src, m(), m()); break; } case 1: { typedef od::dense_output_runge_kutta<od::euler<Vec>> D; dense_case<D>(src, D(), D()); break; } default: { typedef od::bulirsch_stoer_dense_out<Vec> D; double tol = src.logmag(1e-8, 1e-2); dense_case<D>(src, D(tol, tol), D(tol, tol)); } } }
