#include "c07.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
using namespace boost::numeric::odeint;
SUITE(const_dense_dopri5, 8000, 400000, C07_RULE) { double e = src.pick({1e-6, 1e-9}); c07_run(src, [e] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, J_ACCURATE, false, 400, 0.7, e, acc_tol(e)); }
SUITE(nsteps_dense_dopri5, 8000, 400000, C07_RULE) { double e = src.pick({1e-6, 1e-9}); c07_run(src, [e] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, J_ACCURATE, true, 400, 0.7, e, acc_tol(e)); }
SUITE(const_dense_bs, 3000, 150000, C07_RULE) { double e = src.pick({1e-6, 1e-9}); bool ci = src.flag(); if (ci) src.label("interpolation error controlled"); c07_run(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e, 1.0, 1.0, 0.0, ci); }, J_ACCURATE, false, 400, 0.7, e, ci ? acc_tol(e) : 30 * std::pow(e, 0.6)); }
SUITE(nsteps_dense_bs, 3000, 150000, C07_RULE) { double e = src.pick({1e-6, 1e-9}); bool ci = src.flag(); if (ci) src.label("interpolation error controlled"); c07_run(src, [=] { return bulirsch_stoer_dense_out<Vec>(e, e, 1.0, 1.0, 0.0, ci); }, J_ACCURATE, true, 400, 0.7, e, ci ? acc_tol(e) : 30 * std::pow(e, 0.6)); }
