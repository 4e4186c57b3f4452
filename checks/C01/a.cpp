#include "c01.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
using namespace boost::numeric::odeint;
template <class St> void plain(pbt::Src& s, const Tableau& tb, int order) {
    pbt::Poisoned<St> st;
    c01_run(s, tb, order, false, [&](Sys<Vec> f, const Vec& x, double t, double dt, int mode) {
        StepOut o; o.has_err = o.has_dxdt = false;
        if (mode & 1) { o.x = Vec(x.size(), NAN); st->do_step(f, x, t, o.x, dt); } else { o.x = x; st->do_step(f, o.x, t, dt); }
        return o; });
}
SUITE(euler_step, 150000, 6000000, C01_RULE) { plain<euler<Vec>>(src, tb_euler(), 1); }
SUITE(rk4_step, 150000, 6000000, C01_RULE) { plain<runge_kutta4<Vec>>(src, tb_rk4(), 4); }
SUITE(rk4_classic_step, 150000, 6000000, C01_RULE) { plain<runge_kutta4_classic<Vec>>(src, tb_rk4(), 4); }
