#include "c22.hpp"
SUITE(iter_plain, 3000, 80000, C22_RULE) { if (src.flag()) return iter<WAll>(src, "adams_bashforth_moulton", od::adams_bashforth_moulton<3, Vec>()); return iter<WAll>(src, "dopri5", od::runge_kutta_dopri5<Vec>()); }
SUITE(iter_controlled, 2000, 60000, C22_RULE) { double t = gtol(src); return iter<WAdapt>(src, "controlled dopri5", od::make_controlled(t, t, od::runge_kutta_dopri5<Vec>())); }
SUITE(iter_dense, 2000, 60000, C22_RULE) { double t = gtol(src); return iter<WDense>(src, "dense dopri5", od::make_dense_output(t, t, od::runge_kutta_dopri5<Vec>())); }
