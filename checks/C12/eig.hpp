#ifndef C12_EIG_HPP
#define C12_EIG_HPP
#include "rep2.hpp"
#include <Eigen/Dense>
#include <boost/numeric/odeint/external/eigen/eigen.hpp>
template <int N> struct REigen : RVec { typedef Eigen::Matrix<double, N, 1> state, deriv; static const bool vs = true; static const char* name() { return N == Eigen::Dynamic ? "Eigen dynamic vector" : "Eigen fixed vector"; }
    static int dim(pbt::Src& s) { return N == Eigen::Dynamic ? (int)s.i(1, 6) : N; } static state mk(const Vec& v) { state a(v.size()); for (size_t i = 0; i < v.size(); ++i) a[i] = v[i]; return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { return Vec(x.data(), x.data() + x.size()); } static void put(deriv& d, const Vec& v) { d = mk(v); } };
struct REigenM : RVec { typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> state, deriv; static const bool vs = true; static const char* name() { return "Eigen dynamic matrix"; }
    static int dim(pbt::Src& s) { return 2 * (int)s.i(1, 4); } static state mk(const Vec& v) { state a(2, v.size() / 2); std::copy(v.begin(), v.end(), a.data()); return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { return Vec(x.data(), x.data() + x.size()); } static void put(deriv& d, const Vec& v) { d = mk(v); } };
struct REigenA : RVec { typedef Eigen::Array<double, Eigen::Dynamic, 1> state, deriv; static const bool vs = true; static const char* name() { return "Eigen dynamic array"; }
    static int dim(pbt::Src& s) { return (int)s.i(1, 6); } static state mk(const Vec& v) { state a(v.size()); std::copy(v.begin(), v.end(), a.data()); return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { return Vec(x.data(), x.data() + x.size()); } static void put(deriv& d, const Vec& v) { d = mk(v); } };
#endif
