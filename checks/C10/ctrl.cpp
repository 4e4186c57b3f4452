#include "c10.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
using namespace boost::numeric::odeint;
SUITE(adaptive_controlled, 15000, 900000, C10_RULE) { double e = src.logmag(1e-10, 1e-4); src.note("tol", e); switch (src.raw(3)) { case 0: c10_adaptive(src, [=] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }); break; case 1: c10_adaptive(src, [=] { return make_controlled(e, e, runge_kutta_dopri5<Vec>()); }); break; default: c10_adaptive(src, [=] { return bulirsch_stoer<Vec>(e, e); }); } }
SUITE(times_controlled, 10000, 600000, C10_RULE) { double e = src.logmag(1e-10, 1e-5); src.note("tol", e); switch (src.raw(3)) { case 0: c10_times(src, [=] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }, acc_tol(e)); break; case 1: c10_times(src, [=] { return make_controlled(e, e, runge_kutta_dopri5<Vec>()); }, acc_tol(e)); break; default: c10_times(src, [=] { return bulirsch_stoer<Vec>(e, e); }, acc_tol(e)); } }
