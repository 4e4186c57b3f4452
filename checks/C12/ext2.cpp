#include "eig.hpp"
#define PART4
#include "ctrl.inc"
SUITE(ctrl_eigen, 6000, 300000, C12_RULE) { switch (src.raw(2)) { case 0: allc<REigen<3>>(src); break; default: allc<REigen<Eigen::Dynamic>>(src); } }
