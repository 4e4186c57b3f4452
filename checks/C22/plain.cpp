#include "c22.hpp"
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
SUITE(plain, 3000, 80000, C22_RULE) { switch (src.raw(10)) { case 0: return seq_vec(src, "rk4", od::runge_kutta4<Vec>()); case 1: return seq_vec(src, "cash_karp", od::runge_kutta_cash_karp54<Vec>()); case 2: return seq_vec(src, "dopri5", od::runge_kutta_dopri5<Vec>()); case 3: return seq_vec(src, "adams_bashforth", od::adams_bashforth<4, Vec>()); case 4: return seq_vec(src, "adams_bashforth_moulton", od::adams_bashforth_moulton<4, Vec>()); case 5: return seq_vec(src, "fehlberg78", od::runge_kutta_fehlberg78<Vec>()); case 6: return seq_vec(src, "modified_midpoint", od::modified_midpoint<Vec>(4)); case 7: return seq_vec(src, "extrapolation", od::extrapolation_stepper<4, Vec>()); case 8: return seq_vec(src, "rk4_classic", od::runge_kutta4_classic<Vec>()); default: return seq_vec(src, "euler", od::euler<Vec>()); } }
