#include "c09.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
using namespace boost::numeric::odeint;
SUITE(plain, 60000, 4000000, C09_RULE) { switch (src.raw(3)) { case 0: c09_run(src, [] { return runge_kutta4<Vec>(); }, 120, 4, 0); break; case 1: c09_run(src, [] { return euler<Vec>(); }, 120, 4, 0); break; default: c09_run(src, [] { return runge_kutta_cash_karp54<Vec>(); }, 120, 4, 0); } }
