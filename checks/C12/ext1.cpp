#include "eig.hpp"
template <class R> void alle(pbt::Src& s) { switch (s.raw(12)) {
    case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_rk4c, R>(s); break; case 3: p12<f_ck, R>(s); break; case 4: p12<f_f78, R>(s); break; case 5: p12<f_mm, R>(s); break;
    case 6: p12<f_ex4, R>(s); break; case 7: p12<f_ab<4>, R>(s); break; case 8: p12<f_abm<3>, R>(s); break; case 9: p12<f_dp, R>(s); break; case 10: e12<f_ck, R>(s); break; default: e12<f_dp, R>(s); break; } }
template <class R> void some(pbt::Src& s) { switch (s.raw(5)) { case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_rk4c, R>(s); break; case 3: p12<f_ck, R>(s); break; default: p12<f_f78, R>(s); break; } }
SUITE(eigen_plain, 8000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: alle<REigen<3>>(src); break; case 1: alle<REigen<Eigen::Dynamic>>(src); break; default: some<REigenM>(src); } }
