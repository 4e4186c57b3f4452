#include "c07.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
using namespace boost::numeric::odeint;
SUITE(const_rk4, 40000, 2000000, C07_RULE) { c07_run(src, [] { return runge_kutta4<Vec>(); }, J_ITERATE, false, 3000, 0.5, 0); }
SUITE(nsteps_rk4, 40000, 2000000, C07_RULE) { c07_run(src, [] { return runge_kutta4<Vec>(); }, J_ITERATE, true, 3000, 0.5, 0); }
SUITE(const_plain_other, 30000, 1500000, C07_RULE) { switch (src.raw(4)) { case 0: c07_run(src, [] { return runge_kutta_cash_karp54<Vec>(); }, J_ITERATE, false, 300, 0.5, 0); break; case 1: c07_run(src, [] { return runge_kutta_dopri5<Vec>(); }, J_ITERATE, false, 300, 0.5, 0); break; case 2: c07_run(src, [] { return adams_bashforth<4, Vec>(); }, J_ITERATE, false, 300, 0.1, 0); break; default: c07_run(src, [] { return modified_midpoint<Vec>(); }, J_ITERATE, false, 300, 0.5, 0); } }
SUITE(nsteps_plain_other, 30000, 1500000, C07_RULE) { switch (src.raw(4)) { case 0: c07_run(src, [] { return runge_kutta_cash_karp54<Vec>(); }, J_ITERATE, true, 300, 0.5, 0); break; case 1: c07_run(src, [] { return runge_kutta_dopri5<Vec>(); }, J_ITERATE, true, 300, 0.5, 0); break; case 2: c07_run(src, [] { return adams_bashforth<4, Vec>(); }, J_ITERATE, true, 300, 0.1, 0); break; default: c07_run(src, [] { return modified_midpoint<Vec>(); }, J_ITERATE, true, 300, 0.5, 0); } }
