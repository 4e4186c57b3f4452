#include "c01.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
using namespace boost::numeric::odeint;
template <class St> void err(pbt::Src& s, const Tableau& tb, int order) {
    pbt::Poisoned<St> st;
    c01_run(s, tb, order, false, [&](Sys<Vec> f, const Vec& x, double t, double dt, int mode) {
        StepOut o; o.has_err = mode >= 2; o.has_dxdt = false; size_t n = x.size();
        if (o.has_err) o.err.assign(n, NAN);
        switch (mode) {
        case 0: o.x = x; st->do_step(f, o.x, t, dt); break;
        case 1: o.x.assign(n, NAN); st->do_step(f, x, t, o.x, dt); break;
        case 2: o.x = x; st->do_step(f, o.x, t, dt, o.err); break;
        default: o.x.assign(n, NAN); st->do_step(f, x, t, o.x, dt, o.err); break;
        }
        return o; });
}
SUITE(cash_karp54_step, 150000, 6000000, C01_RULE) { err<runge_kutta_cash_karp54<Vec>>(src, tb_ck54(), 5); }
SUITE(cash_karp54_classic_step, 150000, 6000000, C01_RULE) { err<runge_kutta_cash_karp54_classic<Vec>>(src, tb_ck54(), 5); }
SUITE(fehlberg78_step, 150000, 6000000, C01_RULE) { err<runge_kutta_fehlberg78<Vec>>(src, tb_rkf78(), 8); }
