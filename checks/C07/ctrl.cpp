#include "c07.hpp"
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
using namespace boost::numeric::odeint;
static double eps = 1e-8;
static void go(pbt::Src& src, bool n) {
    switch (src.raw(3)) {
    case 0: c07_run(src, [] { return make_controlled(eps, eps, runge_kutta_cash_karp54<Vec>()); }, J_ACCURATE, n, 400, 0.7, eps); break;
    case 1: c07_run(src, [] { return make_controlled(eps, eps, runge_kutta_dopri5<Vec>()); }, J_ACCURATE, n, 400, 0.7, eps); break;
    default: c07_run(src, [] { return bulirsch_stoer<Vec>(eps, eps); }, J_ACCURATE, n, 400, 0.7, eps); break;
    }
}
SUITE(const_controlled, 8000, 400000, C07_RULE) { go(src, false); }
SUITE(nsteps_controlled, 8000, 400000, C07_RULE) { go(src, true); }
