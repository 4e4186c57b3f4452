#include "c09.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
SUITE(dense_dopri5, 16000, 900000, C09_RULE) { double e = src.logmag(1e-10, 1e-5); src.note("tol", e); c09_run(src, [e] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, 80, 2, e); }
SUITE(dense_bs, 8000, 400000, C09_RULE) { double e = src.logmag(1e-10, 1e-5); bool ci = src.flag(); src.note("tol", e); c09_run(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e, 1.0, 1.0, 0.0, ci); }, 80, 2, e, ci ? 0 : 100 * std::pow(e, 0.6)); }
