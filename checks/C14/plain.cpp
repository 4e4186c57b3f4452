#include "c14.hpp"
#include <boost/numeric/odeint.hpp>
using namespace boost::numeric::odeint;
SUITE(limit_plain, 40000, 2000000, C14_RULE) { switch (src.raw(6)) {
    case 0: c14_vec(src, [] { return euler<Vec>(); }, false); break; case 1: c14_vec(src, [] { return runge_kutta4<Vec>(); }, false); break; case 2: c14_vec(src, [] { return runge_kutta_dopri5<Vec>(); }, false); break;
    case 3: c14_vec(src, [] { return adams_bashforth<3, Vec>(); }, false); break; case 4: c14_vec(src, [] { return adams_bashforth_moulton<3, Vec>(); }, false); break; default: c14_vec(src, [] { return modified_midpoint<Vec>(); }, false); } }
SUITE(limit_dense, 40000, 2000000, C14_RULE) { double e = src.logmag(1e-10, 1e-2), m = src.flag(40) ? src.logmag(0.005, 0.3) : 0; src.note("tol", e); (void)m; switch (src.raw(3)) {
    case 0: c14_vec(src, [] { return dense_output_runge_kutta<euler<Vec>>(); }, false); break; case 1: c14_vec(src, [e] { return make_dense_output(e, e, runge_kutta_dopri5<Vec>()); }, true); break;
    default: c14_vec(src, [e] { return bulirsch_stoer_dense_out<Vec>(e, e); }, true); } }
SUITE(limit_rosenbrock, 10000, 500000, C14_RULE) { double e = src.logmag(1e-7, 1e-2); src.note("tol", e); rhs_reset(); Call14 c = gen_call(src, true); Prob p = gen_prob(src, (int)src.i(1, 3), SMOOTHKINDS, 1.0); int which = (int)src.raw(3); if (which == 0) p.kind = K_LINT; Vec x0 = src.vec(p.d, 1.5); src.note(p.describe()); src.note("x0", x0); UV u = mk(x0); // implicit_euler: Newton need not converge for nonlinear problems with long steps
    switch (which) { case 0: c14_run(src, [] { return implicit_euler<double>(); }, jpair(p), u, c); break; case 1: c14_run(src, [e] { return make_controlled(e, e, rosenbrock4<double>()); }, jpair(p), u, c); break; default: c14_run(src, [e] { return make_dense_output(e, e, rosenbrock4<double>()); }, jpair(p), u, c); } }
