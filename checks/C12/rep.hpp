// C12: state representations. Each Rep holds the same numbers in another type; RSys evaluates
// the generated right-hand side in plain double, so only odeint's own arithmetic differs.
#ifndef C12_REP_HPP
#define C12_REP_HPP
#include "prob.hpp"
#include <array>
#include <list>
#include <deque>
#include <complex>
#include <boost/array.hpp>
#include <boost/operators.hpp>
#include <boost/fusion/container.hpp>
#include <boost/multi_array.hpp>
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra.hpp>
#include <boost/numeric/odeint/algebra/fusion_algebra_dispatcher.hpp>
#include <boost/numeric/odeint/algebra/multi_array_algebra.hpp>
#include <boost/numeric/odeint/util/multi_array_adaption.hpp>
namespace od = boost::numeric::odeint;
namespace boost { namespace numeric { namespace odeint {
template <class T> struct is_resizeable<std::deque<T>> { typedef boost::true_type type; const static bool value = true; };
template <class T> struct is_resizeable<std::list<T>> { typedef boost::true_type type; const static bool value = true; };
} } }
template <class N> struct RNum { typedef N num; };
// conversions of one number
template <class N> struct Conv { static LD ld(const N& x) { return static_cast<LD>(x); } };

struct RVec { typedef Vec state, deriv; typedef double value, time, num; static const bool vs = false, oop = true;
    static const char* name() { return "std::vector<double>"; } static int dim(pbt::Src& s) { return s.raw(8) < 7 ? (int)s.i(1, 6) : (int)s.i(7, 24); } static state mk(const Vec& v) { return v; } static deriv mkd(const Vec& v) { return v; }
    static std::vector<num> get(const state& x) { return x; } static void put(deriv& d, const std::vector<num>& v) { d = v; } static time T(double t) { return t; } static num D(time t) { return t; } static void free_(state&) {} };
template <class C> struct RSeq : RVec { typedef C state, deriv; static const char* name() { return "std sequence"; } static C mk(const Vec& v) { return C(v.begin(), v.end()); } static C mkd(const Vec& v) { return mk(v); }
    static Vec get(const C& x) { return Vec(x.begin(), x.end()); } static void put(C& d, const Vec& v) { if (d.size() != v.size()) pbt::fail("derivative_size", pbt::str("derivative container has ", d.size(), " elements, state ", v.size())); std::copy(v.begin(), v.end(), d.begin()); } };
template <class A, int N> struct RArr : RVec { typedef A state, deriv; static const char* name() { return "fixed array"; } static int dim(pbt::Src&) { return N; } static A mk(const Vec& v) { A a; std::copy(v.begin(), v.end(), a.begin()); return a; } static A mkd(const Vec& v) { return mk(v); }
    static Vec get(const A& x) { return Vec(x.begin(), x.end()); } static void put(A& d, const Vec& v) { std::copy(v.begin(), v.end(), d.begin()); } };
struct RUblas : RVec { typedef boost::numeric::ublas::vector<double> state, deriv; static const char* name() { return "ublas::vector"; } static state mk(const Vec& v) { state a(v.size()); std::copy(v.begin(), v.end(), a.begin()); return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { return Vec(x.begin(), x.end()); } static void put(deriv& d, const Vec& v) { if (d.size() != v.size()) pbt::fail("derivative_size", "ublas derivative not resized"); std::copy(v.begin(), v.end(), d.begin()); } };
// multi_array: rank R, inner extents 2, non-zero index bases
template <size_t R> struct RMulti : RVec { typedef boost::multi_array<double, R> state, deriv; static const char* name() { return R == 1 ? "multi_array<1>" : R == 2 ? "multi_array<2>" : "multi_array<3>"; }
    static int dim(pbt::Src& s) { int m = 1; for (size_t k = 1; k < R; ++k) m *= k == 1 ? 2 : 3; return m * (int)s.i(1, 4); }
    static state mk(const Vec& v) { boost::array<int, R> e; size_t m = 1; for (size_t k = 1; k < R; ++k) { e[k] = k == 1 ? 2 : 3; m *= e[k]; } e[0] = v.size() / m; state a(e); boost::array<int, R> b; for (size_t k = 0; k < R; ++k) b[k] = (int)((v.size() + k * 2) % 5) - 2; a.reindex(b); std::copy(v.begin(), v.end(), a.data()); return a; }
    static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { return Vec(x.data(), x.data() + x.num_elements()); }
    static void put(deriv& d, const Vec& v) { if (d.num_elements() != v.size()) pbt::fail("derivative_size", "multi_array derivative not resized"); state w = mk(v); for (size_t k = 0; k < R; ++k) if (w.shape()[k] != d.shape()[k] || w.index_bases()[k] != d.index_bases()[k]) pbt::fail("derivative_shape", "multi_array derivative has another shape or index base than the state"); std::copy(v.begin(), v.end(), d.data()); } };
struct RScalar : RVec { typedef double state, deriv; static const bool vs = true, oop = false; static const char* name() { return "double"; } static int dim(pbt::Src&) { return 1; } static state mk(const Vec& v) { return v[0]; } static state mkd(const Vec& v) { return v[0]; } static Vec get(state x) { return Vec(1, x); } static void put(deriv& d, const Vec& v) { d = v[0]; } };
struct P3 : boost::additive1<P3, boost::additive2<P3, double, boost::multiplicative2<P3, double>>> { double x, y, z; P3() : x(0), y(0), z(0) {} P3(double v) : x(v), y(v), z(v) {} P3(double a, double b, double c) : x(a), y(b), z(c) {}
    P3& operator+=(const P3& p) { x += p.x; y += p.y; z += p.z; return *this; } P3& operator-=(const P3& p) { x -= p.x; y -= p.y; z -= p.z; return *this; } P3& operator+=(double a) { x += a; y += a; z += a; return *this; } P3& operator-=(double a) { x -= a; y -= a; z -= a; return *this; } P3& operator*=(double a) { x *= a; y *= a; z *= a; return *this; } P3& operator/=(double a) { x /= a; y /= a; z /= a; return *this; } };
inline P3 operator/(const P3& a, const P3& b) { return P3(a.x / b.x, a.y / b.y, a.z / b.z); }
inline P3 abs(const P3& p) { return P3(std::fabs(p.x), std::fabs(p.y), std::fabs(p.z)); }
namespace boost { namespace numeric { namespace odeint { template <> struct vector_space_norm_inf<P3> { typedef double result_type; double operator()(const P3& p) const { return std::max(std::max(std::fabs(p.x), std::fabs(p.y)), std::fabs(p.z)); } };
template <> struct algebra_dispatcher<P3> { typedef vector_space_algebra algebra_type; }; } } }
struct RPoint : RVec { typedef P3 state, deriv; static const bool vs = true; static const char* name() { return "vector-space point"; } static int dim(pbt::Src&) { return 3; } static state mk(const Vec& v) { return P3(v[0], v[1], v[2]); } static state mkd(const Vec& v) { return mk(v); } static Vec get(const state& x) { return Vec{x.x, x.y, x.z}; } static void put(deriv& d, const Vec& v) { d = mk(v); } };
typedef boost::fusion::vector<double, double, double> F3;
struct RFusion : RVec { typedef F3 state, deriv; static const char* name() { return "fusion vector"; } static int dim(pbt::Src&) { return 3; } static state mk(const Vec& v) { return F3(v[0], v[1], v[2]); } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { using boost::fusion::at_c; return Vec{at_c<0>(x), at_c<1>(x), at_c<2>(x)}; } static void put(deriv& d, const Vec& v) { d = mk(v); } };

// complex states: dimension 2m as m complex numbers
typedef std::complex<double> Cx;
inline std::vector<Cx> to_cx(const Vec& v) { std::vector<Cx> r; for (size_t i = 0; i + 1 < v.size(); i += 2) r.push_back(Cx(v[i], v[i + 1])); return r; }
template <class It> Vec from_cx(It a, It b) { Vec r; for (; a != b; ++a) { r.push_back(a->real()); r.push_back(a->imag()); } return r; }
struct RCVec : RVec { typedef std::vector<Cx> state, deriv; static const char* name() { return "vector<complex>"; } static int dim(pbt::Src& s) { return 2 * (int)s.i(1, 4); } static state mk(const Vec& v) { return to_cx(v); } static state mkd(const Vec& v) { return to_cx(v); }
    static Vec get(const state& x) { return from_cx(x.begin(), x.end()); } static void put(deriv& d, const Vec& v) { if (d.size() * 2 != v.size()) pbt::fail("derivative_size", "complex derivative not resized"); d = to_cx(v); } };
template <int N> struct RCArr : RVec { typedef std::array<Cx, N> state, deriv; static const char* name() { return "array<complex>"; } static int dim(pbt::Src&) { return 2 * N; } static state mk(const Vec& v) { state a; auto c = to_cx(v); std::copy(c.begin(), c.end(), a.begin()); return a; } static state mkd(const Vec& v) { return mk(v); } static Vec get(const state& x) { return from_cx(x.begin(), x.end()); } static void put(deriv& d, const Vec& v) { d = mk(v); } };
struct RCScalar : RVec { typedef Cx state, deriv; static const bool vs = true; static const char* name() { return "complex"; } static int dim(pbt::Src&) { return 2; } static state mk(const Vec& v) { return Cx(v[0], v[1]); } static state mkd(const Vec& v) { return mk(v); } static Vec get(const state& x) { return from_cx(&x, &x + 1); } static void put(deriv& d, const Vec& v) { d = mk(v); } };

template <class R> struct RSys {
    const Prob* p;
    void operator()(const typename R::state& x, typename R::deriv& d, typename R::time t) const { rhs_tick(); typedef typename R::num N; std::vector<N> v = R::get(x), o(v.size()); p->eval<N>(v, o, R::D(t)); R::put(d, o); }
};
#endif
