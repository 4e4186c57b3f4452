#include "c05.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/array.hpp>
using namespace boost::numeric::odeint;
template <class St> void explicit_run(pbt::Src& s, const St& proto, int p, int q) {
    Tol tol = gen_tol(s); if (s.flag(30)) tol.maxdt = (s.flag() ? -1 : 1) * s.logmag(0.02, 0.8);
    typedef controlled_runge_kutta<St> C; pbt::Poisoned<C> c(typename C::error_checker_type(tol.ea, tol.er, tol.ax, tol.ad), typename C::step_adjuster_type(tol.maxdt), proto); pbt::Poisoned<St> u(proto);
    c05_rk(s, tol, p, q, false, 5, [&](Sys<Vec>& sys, const Vec& x, const Vec& dx, double t, double dt) { Trial r; r.out = x; r.err.assign(x.size(), NAN); u->do_step(sys, x, dx, t, r.out, dt, r.err); return r; },
        [&](int form, Sys<Vec>& sys, Vec& x, Vec& dx, double& t, double& dt, Vec& out, Vec&) {
            controlled_step_result r; Vec keep = x;
            switch (form) { case 0: r = c->try_step(sys, x, t, dt); break; case 1: r = c->try_step(sys, x, dx, t, dt); break; case 2: r = c->try_step(sys, x, t, out, dt); break; case 3: r = c->try_step(sys, x, dx, t, out, dt); break; default: r = c->try_step(boost::ref(sys), std::make_pair(x.begin(), x.end()), t, dt); }
            if (form == 0 || form == 1 || form == 4) { if (r == success) { out = x; x = keep; } }
            else REQUIRE_K("input_written", same_bits(keep, x), "the input state of an out-of-place trial changed");
            return r; },
        [](int, Sys<Vec>&, const Vec&, const Vec&, double) {});
}
SUITE(cash_karp54, 60000, 3000000, C05_RULE) { explicit_run(src, runge_kutta_cash_karp54<Vec>(), 5, 4); }
SUITE(cash_karp54_classic, 40000, 2000000, C05_RULE) { explicit_run(src, runge_kutta_cash_karp54_classic<Vec>(), 5, 4); }
SUITE(fehlberg78, 40000, 2000000, C05_RULE) { explicit_run(src, runge_kutta_fehlberg78<Vec>(), 8, 7); }
SUITE(generic, 40000, 2000000, C05_RULE) { // Bogacki-Shampine 3(2) as a user-defined tableau
    typedef explicit_error_generic_rk<4, 3, 3, 2, Vec> St; typedef St::coef_a_type A; boost::array<double, 1> a1 = {{0.5}}; boost::array<double, 2> a2 = {{0, 0.75}}; boost::array<double, 3> a3 = {{2.0 / 9, 1.0 / 3, 4.0 / 9}};
    St::coef_b_type b = {{2.0 / 9, 1.0 / 3, 4.0 / 9, 0}}, e = {{2.0 / 9 - 7.0 / 24, 1.0 / 3 - 0.25, 4.0 / 9 - 1.0 / 3, -0.125}}; St::coef_c_type c = {{0, 0.5, 0.75, 1}};
    explicit_run(src, St(A(a1, a2, a3), b, e, c), 3, 2);
}
SUITE(dopri5, 80000, 4000000, C05_RULE) {
    Tol tol = gen_tol(src); if (src.flag(30)) tol.maxdt = (src.flag() ? -1 : 1) * src.logmag(0.02, 0.8);
    typedef runge_kutta_dopri5<Vec> St; typedef controlled_runge_kutta<St> C; pbt::Poisoned<C> c(C::error_checker_type(tol.ea, tol.er, tol.ax, tol.ad), C::step_adjuster_type(tol.maxdt), St()); pbt::Poisoned<St> u;
    int init = (int)src.raw(3); src.note("init", init); bool junk = src.flag(30);
    c05_rk(src, tol, 5, 4, true, 5, [&](Sys<Vec>& sys, const Vec& x, const Vec& dx, double t, double dt) { Trial r; size_t d = x.size(); r.out.assign(d, NAN); r.err.assign(d, NAN); r.dout.assign(d, NAN); u->do_step(sys, x, dx, t, r.out, r.dout, dt, r.err); r.has_dout = true; return r; },
        [&](int form, Sys<Vec>& sys, Vec& x, Vec& dx, double& t, double& dt, Vec& out, Vec& dout) {
            controlled_step_result r; Vec keep = x, dkeep = dx;
            switch (form) { case 0: r = c->try_step(sys, x, t, dt); break; case 1: r = c->try_step(sys, x, dx, t, dt); break; case 2: r = c->try_step(sys, x, t, out, dt); break; case 3: r = c->try_step(sys, x, dx, t, out, dout, dt); break; default: r = c->try_step(boost::ref(sys), std::make_pair(x.begin(), x.end()), t, dt); }
            if (form == 0 || form == 1 || form == 4) { if (r == success) { out = x; x = keep; if (form == 1) { dout = dx; dx = dkeep; } } }
            else REQUIRE_K("input_written", same_bits(keep, x) && same_bits(dkeep, dx), "an input of an out-of-place trial changed");
            return r; },
        [&](int form, Sys<Vec>& sys, const Vec& x, const Vec& dx, double t) {
            if (junk) { Vec y(x.size(), 0.7), o(x.size()); double tt = 0.1, h = 1e-3; c->try_step(sys, y, tt, h); } // an unrelated earlier use
            if (form == 0 || form == 2 || form == 4) { if (init == 0 && !junk) {} else if (init == 1) c->initialize(dx); else if (init == 2) c->initialize(sys, x, t); else c->reset(); } });
}
