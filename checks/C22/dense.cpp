#include "c22.hpp"
SUITE(dense, 3000, 80000, C22_RULE) { double t = gtol(src); switch (src.raw(3)) { case 0: return seq_vec(src, "dense dopri5", od::make_dense_output(t, t, od::runge_kutta_dopri5<Vec>())); case 1: return seq_vec(src, "dense euler", od::dense_output_runge_kutta<od::euler<Vec>>()); default: return seq_vec(src, "bulirsch_stoer_dense", od::bulirsch_stoer_dense_out<Vec>(t, t)); } }
