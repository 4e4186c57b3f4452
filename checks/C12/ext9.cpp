// thrust vectors as states (sequential and host back ends; no CUDA here)
#define THRUST_DEVICE_SYSTEM THRUST_DEVICE_SYSTEM_CPP
#include "c12.hpp"
#include <boost/numeric/odeint/external/thrust/thrust.hpp>
template <class S> struct RThrust : RVec { typedef S state, deriv; static const char* name() { return "thrust vector"; }
    static state mk(const Vec& v) { state a(v.size()); for (size_t k = 0; k < v.size(); ++k) a[k] = v[k]; return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { Vec v(x.size()); for (size_t k = 0; k < v.size(); ++k) v[k] = x[k]; return v; }
    static void put(deriv& d, const Vec& v) { if (d.size() != v.size()) pbt::fail("derivative_size", "thrust derivative not resized"); for (size_t k = 0; k < v.size(); ++k) d[k] = v[k]; } };
typedef RThrust<thrust::host_vector<double> > ThH; typedef RThrust<thrust::device_vector<double> > ThD; typedef RThrust<thrust::cpp::vector<double> > ThC;
template <class R> void allth(pbt::Src& s) { switch (s.raw(9)) { case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_ck, R>(s); break; case 3: p12<f_dp, R>(s); break; case 4: p12<f_mm, R>(s); break;
    case 5: p12<f_ab<4>, R>(s); break; case 6: p12<f_abm<3>, R>(s); break; case 7: e12<f_ck, R>(s); break; default: e12<f_dp, R>(s); } }
SUITE(thrust_plain, 6000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: allth<ThH>(src); break; case 1: allth<ThD>(src); break; default: allth<ThC>(src); } }
#define PART4
#include "ctrl.inc"
template <class R> void allthc(pbt::Src& s) { switch (s.raw(4)) { case 0: c12<f_ck, R>(s); break; case 1: c12<f_dp, R>(s); break; case 2: bs12<R>(s); break; default: dd12<R>(s); } }
SUITE(thrust_ctrl, 6000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: allthc<ThH>(src); break; case 1: allthc<ThD>(src); break; default: allthc<ThC>(src); } }
// the norm the controlled steppers use
SUITE(thrust_norm, 2000, 50000, "at least one component is non-zero") {
    int n = (int)src.i(1, 20); Vec v(n); bool nz = false; for (auto& e : v) { e = src.raw(4) ? src.num(10) : 0.0; nz |= e != 0; }
    double want = 0; for (double e : v) want = std::max(want, std::fabs(e));
    src.note("v", v); if (nz) src.nontrivial();
    auto h = ThH::mk(v); auto d = ThD::mk(v); auto c = ThC::mk(v); typedef boost::numeric::odeint::thrust_algebra A;
    double r[3] = { A::norm_inf(h), A::norm_inf(d), A::norm_inf(c) };
    for (int k = 0; k < 3; ++k) if (r[k] != want) pbt::fail("norm", "the maximum norm of a thrust vector is the largest magnitude: " + std::to_string(r[k]) + " instead of " + std::to_string(want));
}
