#include "c01.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
using namespace boost::numeric::odeint;
// first-same-as-last: along one trajectory the cached derivative is f at the current point,
// so every step is the tableau step; "external" forms carry the derivative themselves.
SUITE(dopri5_step, 150000, 6000000, C01_RULE) {
    pbt::Poisoned<runge_kutta_dopri5<Vec>> st; Vec dx; bool external = src.flag(30);
    c01_run(src, tb_dopri5(), 5, true, [&](Sys<Vec> f, const Vec& x, double t, double dt, int mode) {
        StepOut o; o.has_err = mode >= 2; o.has_dxdt = false; size_t n = x.size(); if (o.has_err) o.err.assign(n, NAN);
        if (external) {
            if (dx.empty()) { dx.resize(n); f(x, dx, t); }
            o.has_dxdt = true;
            switch (mode) {
            case 0: o.x = x; st->do_step(f, o.x, dx, t, dt); o.dxdt = dx; break;
            case 1: o.x.assign(n, NAN); o.dxdt.assign(n, NAN); st->do_step(f, x, dx, t, o.x, o.dxdt, dt); dx = o.dxdt; break;
            case 2: o.x = x; st->do_step(f, o.x, dx, t, dt, o.err); o.dxdt = dx; break;
            default: o.x.assign(n, NAN); o.dxdt.assign(n, NAN); st->do_step(f, x, dx, t, o.x, o.dxdt, dt, o.err); dx = o.dxdt; break;
            }
        } else switch (mode) {
            case 0: o.x = x; st->do_step(f, o.x, t, dt); break;
            case 1: o.x.assign(n, NAN); st->do_step(f, x, t, o.x, dt); break;
            case 2: o.x = x; st->do_step(f, o.x, t, dt, o.err); break;
            default: o.x.assign(n, NAN); st->do_step(f, x, t, o.x, dt, o.err); break;
        }
        return o; });
    if (external) src.label("external derivative");
}
