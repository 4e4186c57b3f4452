#include "c12.hpp"
// ublas::matrix states (vector-space algebra), both element orders
namespace bub = boost::numeric::ublas;
template <class L, size_t ROWS> struct RUmat : RVec { typedef bub::matrix<double, L> state, deriv; static const bool vs = true; static const char* name() { return ROWS == 1 ? "ublas::matrix 1 x n" : "ublas::matrix"; }
    static int dim(pbt::Src& s) { return (int)(ROWS * s.i(1, 5)); }
    static state mk(const Vec& v) { state a(ROWS, v.size() / ROWS); for (size_t k = 0; k < v.size(); ++k) a(k % ROWS, k / ROWS) = v[k]; return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { Vec v(x.size1() * x.size2()); for (size_t k = 0; k < v.size(); ++k) v[k] = x(k % ROWS, k / ROWS); return v; }
    static void put(deriv& d, const Vec& v) { if (d.size1() != ROWS || d.size2() * ROWS != v.size()) pbt::fail("derivative_size", "matrix derivative not resized"); d = mk(v); } };
typedef RUmat<bub::row_major, 2> UmR; typedef RUmat<bub::column_major, 3> UmC; typedef RUmat<bub::row_major, 1> Um1;
template <class R> void allm(pbt::Src& s) { switch (s.raw(10)) { case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_ck, R>(s); break; case 3: p12<f_dp, R>(s); break; case 4: p12<f_f78, R>(s); break; case 5: p12<f_mm, R>(s); break; case 6: p12<f_ab<4>, R>(s); break; case 7: p12<f_abm<3>, R>(s); break; case 8: e12<f_ck, R>(s); break; default: e12<f_dp, R>(s); } }
SUITE(ublas_matrix_plain, 6000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: allm<UmR>(src); break; case 1: allm<UmC>(src); break; default: allm<Um1>(src); } }
#define PART4
#include "ctrl.inc"
template <class R> void allmc(pbt::Src& s) { switch (s.raw(5)) { case 0: c12<f_ck, R>(s); break; case 1: c12<f_dp, R>(s); break; case 2: c12<f_f78, R>(s); break; case 3: bs12<R>(s); break; default: dd12<R>(s); } }
SUITE(ublas_matrix_ctrl, 6000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: allmc<UmR>(src); break; case 1: allmc<UmC>(src); break; default: allmc<Um1>(src); } }
