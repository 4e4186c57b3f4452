// C13, states of Eigen types
#include "shapes.hpp"
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
template <class M> struct EigA { typedef M S; typedef od::vector_space_algebra Alg; static const bool vec = M::ColsAtCompileTime == 1; static const char* n() { return vec ? "Eigen vector" : "Eigen matrix"; }
    static Shape gen(pbt::Src& s) { Shape h; h.push_back(s.i(1, 5)); h.push_back(vec ? h[0] : s.i(1, 5)); return h; } static S mk(const Shape& h, pbt::Src&) { return S::Zero(h[0], vec ? 1 : h[1]); }
    static Shape of(const S& x) { return Shape{(long)x.rows(), vec ? (long)x.rows() : (long)x.cols()}; } template <class F> static void each(S& x, F f) { for (long i = 0; i < x.rows(); ++i) for (long j = 0; j < x.cols(); ++j) f(x(i, j), 7 * i + j); } static void set(S& x, const S& y) { x = y; } };
typedef EigA<Eigen::VectorXd> EV; typedef EigA<Eigen::MatrixXd> EM; typedef EigA<Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> > ER;
// two-dimensional Eigen states: only steppers that do not call odeint::copy compile with Eigen 3.4
template <class T, class R> void shapeeig(pbt::Src& s) { switch (s.raw(5)) { case 0: return shape13<T, h_euler, R>(s); case 1: return shape13<T, h_rk4, R>(s); case 2: return shape13<T, h_rk4c, R>(s); case 3: return shape13<T, h_ck, R>(s); default: return shape13<T, h_f78, R>(s); } }
SUITE(shapes_eigen, 3000, 200000, RSH) { switch (src.raw(3)) { case 0: POLICIES((shapeall<EV, R>(src))) break; case 1: POLICIES((shapeeig<EM, R>(src))) break; default: POLICIES((shapeeig<ER, R>(src))) } }
SUITE(shapes_eigen_controlled, 2000, 100000, RSH) { POLICIES((shapecall<EV, R>(src))) }
