#include "rep2.hpp"
#define PART4
#include "ctrl.inc"
// real data carried along a fixed direction of the complex plane: an isometric representation, so
// every norm, hence every step-size decision, is the one of the real run
inline Cx dir() { return Cx(0.6, 0.8); }
struct RRot : RVec { typedef std::vector<Cx> state, deriv; static const char* name() { return "vector<complex>, rotated"; } static state mk(const Vec& v) { state r; for (double e : v) r.push_back(e * dir()); return r; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { Vec r; for (auto& e : x) r.push_back((e * std::conj(dir())).real()); return r; } static void put(deriv& d, const Vec& v) { if (d.size() != v.size()) pbt::fail("derivative_size", "not resized"); d = mk(v); } };
struct RRotS : RVec { typedef Cx state, deriv; static const bool vs = true; static const char* name() { return "complex, rotated"; } static int dim(pbt::Src&) { return 1; } static state mk(const Vec& v) { return v[0] * dir(); } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { return Vec{(x * std::conj(dir())).real()}; } static void put(deriv& d, const Vec& v) { d = mk(v); } };
struct RRotA : RVec { typedef std::array<Cx, 3> state, deriv; static const char* name() { return "array<complex>, rotated"; } static int dim(pbt::Src&) { return 3; } static state mk(const Vec& v) { return state{v[0] * dir(), v[1] * dir(), v[2] * dir()}; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { Vec r; for (auto& e : x) r.push_back((e * std::conj(dir())).real()); return r; } static void put(deriv& d, const Vec& v) { d = mk(v); } };
template <class R> void rot(pbt::Src& s) { switch (s.raw(7)) { case 0: c12<f_ck, R>(s, 1e-5); break; case 1: c12<f_ckc, R>(s, 1e-5); break; case 2: c12<f_dp, R>(s, 1e-5); break; case 3: c12<f_f78, R>(s, 1e-5); break; case 4: bs12<R>(s, 1e-5); break; case 5: dd12<R>(s, 1e-5); break; default: e12<f_dp, R>(s); } }
SUITE(ctrl_complex, 8000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: rot<RRot>(src); break; case 1: rot<RRotA>(src); break; default: rot<RRotS>(src); } }
