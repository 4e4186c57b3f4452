#include "c08.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
using namespace boost::numeric::odeint;
SUITE(plain, 120000, 6000000, C08_RULE) {
    switch (src.raw(5)) {
    case 0: c08_run(src, [] { return runge_kutta4<Vec>(); }, PLAIN8, 600, 4, 0); break;
    case 1: c08_run(src, [] { return runge_kutta_cash_karp54<Vec>(); }, PLAIN8, 100, 4, 0); break;
    case 2: c08_run(src, [] { return runge_kutta_dopri5<Vec>(); }, PLAIN8, 100, 4, 0); break;
    case 3: c08_run(src, [] { return euler<Vec>(); }, PLAIN8, 100, 4, 0); break;
    default: c08_run(src, [] { return runge_kutta_fehlberg78<Vec>(); }, PLAIN8, 60, 4, 0); break;
    }
}
SUITE(dense_without_control, 60000, 3000000, C08_RULE) { c08_run(src, [] { return dense_output_runge_kutta<euler<Vec>>(); }, DENSEFIX8, 200, 4, 0); }
