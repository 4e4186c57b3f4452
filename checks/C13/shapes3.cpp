// C13, states of thrust types. Compiled without UBSan: thrust itself binds references to and copies from null pointers
#define THRUST_DEVICE_SYSTEM THRUST_DEVICE_SYSTEM_CPP
#include "shapes.hpp"
#include <boost/numeric/odeint/external/thrust/thrust.hpp>
template <class V> struct ThrA { typedef V S; typedef od::thrust_algebra Alg; static const char* n() { return "thrust vector"; } static Shape gen(pbt::Src& s) { long n = s.i(1, 9); return Shape{n, n}; } static S mk(const Shape& h, pbt::Src&) { return S(h[0]); } static Shape of(const S& x) { return Shape{(long)x.size(), (long)x.size()}; }
    template <class F> static void each(S& x, F f) { for (size_t i = 0; i < x.size(); ++i) { double e = x[i]; f(e, (long)i); x[i] = e; } } static void set(S& x, const S& y) { x = y; } };
typedef ThrA<thrust::host_vector<double> > TH; typedef ThrA<thrust::device_vector<double> > TD;
template <class T, class R> void shapethr(pbt::Src& s) { switch (s.raw(7)) { case 0: return shape13<T, h_euler, R>(s); case 1: return shape13<T, h_rk4, R>(s); case 2: return shape13<T, h_ck, R>(s); case 3: return shape13<T, h_dp, R>(s); case 4: return shape13<T, h_mm, R>(s); case 5: return shape13<T, h_ab3, R>(s); default: return shape13<T, h_abm2, R>(s); } }
SUITE(shapes_thrust, 3000, 200000, RSH) { if (src.flag()) POLICIES((shapethr<TH, R>(src))) else POLICIES((shapethr<TD, R>(src))) }
SUITE(shapes_thrust_controlled, 2000, 100000, RSH) { POLICIES((shapecall<TH, R>(src))) }
