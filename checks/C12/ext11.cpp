// more Eigen shapes: arrays, row-major and fixed-size matrices. With Eigen 3.4 steppers that copy states do not compile for
// two-dimensional states (odeint::copy takes them for ranges), so those are limited to steppers that do not
#include "eig.hpp"
template <class M, int ROWS> struct REigenX : RVec { typedef M state, deriv; static const bool vs = true; static const char* name() { return "Eigen matrix"; }
    static int dim(pbt::Src& s) { return M::SizeAtCompileTime == Eigen::Dynamic ? ROWS * (int)s.i(1, 4) : (int)M::SizeAtCompileTime; }
    static state mk(const Vec& v) { state a(ROWS, v.size() / ROWS); for (size_t k = 0; k < v.size(); ++k) a(k % ROWS, k / ROWS) = v[k]; return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { Vec v(x.size()); for (size_t k = 0; k < v.size(); ++k) v[k] = x(k % ROWS, k / ROWS); return v; }
    static void put(deriv& d, const Vec& v) { if (d.rows() != ROWS || (size_t)d.cols() * ROWS != v.size()) pbt::fail("derivative_size", "Eigen derivative not resized"); d = mk(v); } };
typedef REigenX<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>, 2> ExR; typedef REigenX<Eigen::Matrix2d, 2> Ex2; typedef REigenX<Eigen::Matrix<double, 3, Eigen::Dynamic>, 3> Ex3;
template <class R> void allx(pbt::Src& s) { switch (s.raw(8)) { case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_ck, R>(s); break; case 3: p12<f_dp, R>(s); break; case 4: p12<f_mm, R>(s); break; case 5: p12<f_ab<4>, R>(s); break; case 6: p12<f_abm<3>, R>(s); break; default: e12<f_ck, R>(s); } }
template <class R> void somex(pbt::Src& s) { switch (s.raw(5)) { case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_rk4c, R>(s); break; case 3: p12<f_ck, R>(s); break; default: p12<f_f78, R>(s); } }
SUITE(eigen_shapes, 4000, 300000, C12_RULE) { switch (src.raw(4)) { case 0: somex<ExR>(src); break; case 1: somex<Ex2>(src); break; case 2: somex<Ex3>(src); break; default: allx<REigenA>(src); } }
