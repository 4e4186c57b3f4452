#include "c06.hpp"

#define L_(Q) Lim L; L.q = Q
SUITE(rosenbrock, 60, 6000, C06_RULE) { L_(4); L.lo = 1e-11; if (src.flag()) ensemble(src, "rosenbrock4", [](double a, double r) { return make_controlled(a, r, rosenbrock4<double>()); }, L); else ensemble(src, "dense rosenbrock4", [](double a, double r) { return make_dense_output(a, r, rosenbrock4<double>()); }, L); }
