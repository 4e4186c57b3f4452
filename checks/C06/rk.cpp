#include "c06.hpp"

#define L_(Q) Lim L; L.q = Q
SUITE(cash_karp, 120, 12000, C06_RULE) { L_(4); if (src.flag()) ensemble(src, "cash_karp54", [](double a, double r) { return make_controlled(a, r, runge_kutta_cash_karp54<Vec>()); }, L); else ensemble(src, "cash_karp54_classic", [](double a, double r) { return make_controlled(a, r, runge_kutta_cash_karp54_classic<Vec>()); }, L); }
SUITE(dopri5, 120, 12000, C06_RULE) { L_(4); ensemble(src, "dopri5", [](double a, double r) { return make_controlled(a, r, runge_kutta_dopri5<Vec>()); }, L); }
SUITE(fehlberg78, 120, 12000, C06_RULE) { L_(6); L.coupled = true; L.outliers = 4; ensemble(src, "fehlberg78", [](double a, double r) { return make_controlled(a, r, runge_kutta_fehlberg78<Vec>()); }, L); }
SUITE(dense_dopri5, 120, 12000, C06_RULE) { L_(4); ensemble(src, "dense dopri5", [](double a, double r) { return make_dense_output(a, r, runge_kutta_dopri5<Vec>()); }, L); }
