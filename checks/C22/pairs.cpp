#include "c22.hpp"
SUITE(pairs_rosenbrock, 2000, 40000, C22_RULE) { double t = gtol(src); switch (src.raw(4)) { case 0: return seq_u(src, "rosenbrock4", od::rosenbrock4<double>()); case 1: return seq_u(src, "rosenbrock4 controlled", od::make_controlled(t, t, od::rosenbrock4<double>())); case 2: return seq_u(src, "rosenbrock4 dense", od::make_dense_output(t, t, od::rosenbrock4<double>())); default: return seq_u(src, "implicit_euler", od::implicit_euler<double>()); } }
SUITE(pairs_symplectic, 2000, 40000, C22_RULE) { switch (src.raw(3)) { case 0: return seq_h(src, "symplectic_euler", od::symplectic_euler<Vec>()); case 1: return seq_h(src, "symplectic mclachlan", od::symplectic_rkn_sb3a_mclachlan<Vec>()); default: return seq_v(src); } }
