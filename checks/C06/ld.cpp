#include "c06.hpp"

#define L_(Q) Lim L; L.q = Q
typedef std::vector<long double> LV;
// the tolerances are 1e-4 times those of the double runs
SUITE(long_double, 60, 8000, C06_RULE) { L_(4); L.unit = 1e-4; L.lo = 1e-12; L.hi = 1e-8; L.med = 0.4e-4; L.high = 1e-3; L.modes = false;
    switch (src.raw(3)) { case 0: return ensemble(src, "dopri5 long double", [](double a, double r) { return make_controlled((long double)a, (long double)r, runge_kutta_dopri5<LV, long double>()); }, L);
    case 1: return ensemble(src, "cash_karp54 long double", [](double a, double r) { return make_controlled((long double)a, (long double)r, runge_kutta_cash_karp54<LV, long double>()); }, L);
    default: L.coupled = true; L.outliers = 4; return ensemble(src, "fehlberg78 long double", [](double a, double r) { return make_controlled((long double)a, (long double)r, runge_kutta_fehlberg78<LV, long double>()); }, L); } }
