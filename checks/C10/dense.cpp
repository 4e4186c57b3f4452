#include "c10.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
static double bstol(double e) { return 100 * std::pow(e, 0.6); }
SUITE(adaptive_dense, 12000, 700000, C10_RULE) { double e = src.logmag(1e-10, 1e-4); src.note("tol", e); if (src.flag(70)) c10_adaptive(src, [=] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }); else c10_adaptive(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e); }); }
SUITE(const_step_dense, 8000, 500000, C10_RULE) { double e = src.logmag(1e-10, 1e-5); src.note("tol", e); if (src.flag(70)) c10_const(src, [=] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, false, acc_tol(e)); else c10_const(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e); }, false, bstol(e)); }
SUITE(n_step_dense, 8000, 500000, C10_RULE) { double e = src.logmag(1e-10, 1e-5); src.note("tol", e); if (src.flag(70)) c10_const(src, [=] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, true, acc_tol(e)); else c10_const(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e); }, true, bstol(e)); }
SUITE(times_dense, 8000, 500000, C10_RULE) { double e = src.logmag(1e-10, 1e-5); src.note("tol", e); if (src.flag(70)) c10_times(src, [=] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, acc_tol(e)); else c10_times(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e); }, bstol(e)); }
