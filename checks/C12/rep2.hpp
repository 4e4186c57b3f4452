// C12: states from other libraries and other number types
#ifndef C12_REP2_HPP
#define C12_REP2_HPP
#include "c12.hpp"
// the same container filled with another number type; RHS evaluated in that type
template <class N> struct RPrec : RVec { typedef std::vector<N> state, deriv; typedef N value, time, num; static const char* name();
    static state mk(const Vec& v) { return state(v.begin(), v.end()); } static state mkd(const Vec& v) { return mk(v); } static std::vector<N> get(const state& x) { return x; } static void put(deriv& d, const std::vector<N>& v) { if (d.size() != v.size()) pbt::fail("derivative_size", "not resized"); d = v; }
    static time T(double t) { return N(t); } static N D(const time& t) { return t; } };
template <> inline const char* RPrec<float>::name() { return "vector<float>"; }
template <> inline const char* RPrec<long double>::name() { return "vector<long double>"; }
#endif
