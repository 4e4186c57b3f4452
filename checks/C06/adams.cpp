#include "c06.hpp"

#define L_(Q) Lim L; L.q = Q
template <int K> void adams(pbt::Src& s, double q, double lo) { L_(q); L.lo = lo; ensemble(s, pbt::str("adaptive adams ", K).c_str(), [](double a, double r) { return make_controlled(a, r, adaptive_adams_bashforth_moulton<K, Vec>()); }, L); }
SUITE(adaptive_adams, 120, 12000, C06_RULE) { switch (src.raw(5)) { case 0: return adams<5>(src, 5, 1e-12); case 1: return adams<3>(src, 3.9, 1e-11); case 2: return adams<1>(src, 2, 1e-6); case 3: return adams<8>(src, 6, 1e-12); default: return adams<4>(src, 4.5, 1e-12); } }
