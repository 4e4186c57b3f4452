#include "c09.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
using namespace boost::numeric::odeint;
SUITE(controlled, 20000, 1000000, C09_RULE) { double e = src.logmag(1e-10, 1e-5); src.note("tol", e);
    switch (src.raw(3)) { case 0: c09_run(src, [e] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }, 80, 2, e); break;
    case 1: c09_run(src, [e] { return make_controlled(e, e, runge_kutta_dopri5<Vec>()); }, 80, 2, e); break;
    default: c09_run(src, [e] { return bulirsch_stoer<Vec>(e, e); }, 80, 2, e); } }
