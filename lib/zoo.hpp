// Accuracy helpers for adaptive runs: the problem families are chosen so that
// |f_x| <= ~1.5 and the interval is short enough for error growth below ~e^6.
#ifndef ZOO_HPP
#define ZOO_HPP
#include "rec.hpp"
inline Prob gen_smooth(pbt::Src& s, int dmax = 4) { int d = (int)s.i(1, dmax); return gen_prob(s, d, SMOOTHKINDS, 1.0); }
#endif
