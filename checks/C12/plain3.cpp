#include "c12.hpp"
template <class R> void allp(pbt::Src& s) { switch (s.raw(14)) {
    case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_rk4c, R>(s); break; case 3: p12<f_ck, R>(s); break; case 4: p12<f_ckc, R>(s); break; case 5: p12<f_dp, R>(s); break; case 6: p12<f_f78, R>(s); break; case 7: p12<f_mm, R>(s); break;
    case 8: p12<f_ex4, R>(s); break; case 9: p12<f_ex8, R>(s); break; case 10: p12<f_ab<3>, R>(s); break; case 11: p12<f_ab<7>, R>(s); break; case 12: p12<f_abm<2>, R>(s); break; default: p12<f_abm<5>, R>(s); break; } }
SUITE(plain_complex, 15000, 800000, C12_RULE) { switch (src.raw(3)) { case 0: allp<RCVec>(src); break; case 1: allp<RCArr<2>>(src); break; default: allp<RCScalar>(src); } }
