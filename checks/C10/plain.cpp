#include "c10.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
using namespace boost::numeric::odeint;
SUITE(const_step_plain, 20000, 1500000, C10_RULE) { if (src.flag()) c10_const(src, [] { return runge_kutta4<Vec>(); }, false, 1e-11); else c10_const(src, [] { return runge_kutta_dopri5<Vec>(); }, false, 1e-11); }
SUITE(n_step_plain, 20000, 1500000, C10_RULE) { if (src.flag()) c10_const(src, [] { return runge_kutta4<Vec>(); }, true, 1e-11); else c10_const(src, [] { return runge_kutta_dopri5<Vec>(); }, true, 1e-11); }
SUITE(times_plain, 20000, 1500000, C10_RULE) { if (src.flag()) c10_times(src, [] { return runge_kutta4<Vec>(); }, 1e-11); else c10_times(src, [] { return euler<Vec>(); }, 1e-11); }
