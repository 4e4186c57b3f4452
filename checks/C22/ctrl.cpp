#include "c22.hpp"
SUITE(controlled, 3000, 80000, C22_RULE) { double t = gtol(src); switch (src.raw(4)) { case 0: return seq_vec(src, "controlled cash_karp", od::make_controlled(t, t, od::runge_kutta_cash_karp54<Vec>())); case 1: return seq_vec(src, "controlled dopri5", od::make_controlled(t, t, od::runge_kutta_dopri5<Vec>())); case 2: return seq_vec(src, "bulirsch_stoer", od::bulirsch_stoer<Vec>(t, t)); default: return seq_vec(src, "adaptive adams", od::make_controlled(t, t, od::adaptive_adams_bashforth_moulton<4, Vec>())); } }
