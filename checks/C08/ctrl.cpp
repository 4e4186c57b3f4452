#include "c08.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
SUITE(controlled_rk, 20000, 1000000, C08_RULE) { double e = src.logmag(1e-10, 1e-4); src.note("tol", e);
    switch (src.raw(3)) { case 0: c08_run(src, [e] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }, ACC8, 2000, 2, e); break;
    case 1: c08_run(src, [e] { return make_controlled(e, e, runge_kutta_dopri5<Vec>()); }, ACC8, 2000, 2, e); break;
    default: c08_run(src, [e] { return make_controlled(e, e, runge_kutta_fehlberg78<Vec>()); }, ACC8, 2000, 2, e); } }
SUITE(controlled_bs, 8000, 400000, C08_RULE) { double e = src.logmag(1e-10, 1e-4); src.note("tol", e); c08_run(src, [e] { return bulirsch_stoer<Vec>(e, e); }, ACC8, 2000, 2, e); }
SUITE(dense_dopri5, 20000, 1000000, C08_RULE) { double e = src.logmag(1e-10, 1e-4); src.note("tol", e); c08_run(src, [e] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, ACC8, 2000, 2, e); }
SUITE(dense_bs, 8000, 400000, C08_RULE) { double e = src.logmag(1e-10, 1e-4); src.note("tol", e); c08_run(src, [e] { return bulirsch_stoer_dense_out<Vec>(e, e); }, ACC8, 2000, 2, e); }
