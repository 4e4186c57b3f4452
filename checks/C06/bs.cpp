#include "c06.hpp"

#define L_(Q) Lim L; L.q = Q
SUITE(bulirsch_stoer_, 120, 12000, C06_RULE) { L_(4); L.high = 10; ensemble(src, "bulirsch_stoer", [](double a, double r) { return bulirsch_stoer<Vec>(a, r); }, L); }
SUITE(bulirsch_stoer_dense, 120, 12000, C06_RULE) { L_(4); L.high = 200; L.outliers = 4; if (src.flag()) ensemble(src, "bulirsch_stoer_dense_out", [](double a, double r) { return bulirsch_stoer_dense_out<Vec>(a, r); }, L); else { L.high = 10; L.outliers = 2; ensemble(src, "bulirsch_stoer_dense_out, interpolation controlled", [](double a, double r) { return bulirsch_stoer_dense_out<Vec>(a, r, 1.0, 1.0, 0.0, true); }, L); } }
