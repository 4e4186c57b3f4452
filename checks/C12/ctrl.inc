#include "c12.hpp"
// error estimates, controlled and dense-output steppers: step-size decisions included
// runs that round differently: the requested accuracy stays far above rounding, so that no decision hangs on noise
inline void floor12(Case12& c, double tol) { if (tol > 2e-9) { c.at = std::max(c.at, 1e-6); c.rt = std::max(c.rt, 1e-6); } }
template <class F, class R> void c12(pbt::Src& s, double tol = 1e-11) {
    typedef typename F::template T<R> A; typedef typename F::template T<RVec> B; typedef od::controlled_runge_kutta<A> CA; typedef od::controlled_runge_kutta<B> CB;
    Case12 c = gen12(s, R::dim(s), 0.8, 8); floor12(c, tol); s.note("abs", c.at); s.note("rel", c.rt); s.note("maxdt", c.maxdt); double ax = s.pick({1.0, 0.5}), ad = s.pick({1.0, 0.0, 2.0});
    CA a(typename CA::error_checker_type(c.at, c.rt, ax, ad), typename CA::step_adjuster_type(R::T(c.maxdt))); CB b(typename CB::error_checker_type(c.at, c.rt, ax, ad), typename CB::step_adjuster_type(c.maxdt));
    Run ra, rb; if (tol > 2e-9) run_sync<R>(a, b, c, ra, rb); else { GIVEUP(rb = run_ctrl<RVec>(b, c)) GIVEUP2(ra = run_ctrl<R>(a, c)) } cmp12(s, R::name(), ra, rb, tol);
}
template <class R> void bs12(pbt::Src& s, double tol = 1e-10) { Case12 c = gen12(s, R::dim(s), 0.8, 5); floor12(c, tol); double ax = s.pick({1.0, 0.5}), ad = s.pick({1.0, 0.0, 2.0}); f_bs::T<R> a(c.at, c.rt, ax, ad, R::T(c.maxdt)); f_bs::T<RVec> b(c.at, c.rt, ax, ad, c.maxdt); Run ra, rb; if (tol > 2e-9) run_sync<R>(a, b, c, ra, rb, true); else { GIVEUP(rb = run_ctrl<RVec>(b, c)) GIVEUP2(ra = run_ctrl<R>(a, c)) } cmp12(s, R::name(), ra, rb, tol); }
template <class R> void bsd12(pbt::Src& s, double tol = 1e-9) { Case12 c = gen12(s, R::dim(s), 0.5, 3); floor12(c, tol); f_bsd::T<R> a(c.at, c.rt, 1.0, 1.0, R::T(c.maxdt)); f_bsd::T<RVec> b(c.at, c.rt, 1.0, 1.0, c.maxdt); Run rb; GIVEUP(rb = run_dense<RVec>(b, c)) Run ra; GIVEUP2(ra = run_dense<R>(a, c)) cmp12(s, R::name(), ra, rb, tol); }
template <class R> void dd12(pbt::Src& s, double tol = 1e-11) { Case12 c = gen12(s, R::dim(s), 0.5, tol > 2e-9 ? 2 : 6); floor12(c, tol); if (s.flag(30)) { od::dense_output_runge_kutta<f_euler::T<R>> a; od::dense_output_runge_kutta<f_euler::T<RVec>> b; Run rb; GIVEUP(rb = run_dense<RVec>(b, c)) Run ra; GIVEUP2(ra = run_dense<R>(a, c)) cmp12(s, R::name(), ra, rb, tol); return; }
    auto a = od::make_dense_output(c.at, c.rt, f_dp::T<R>()); auto b = od::make_dense_output(c.at, c.rt, f_dp::T<RVec>()); Run rb; GIVEUP(rb = run_dense<RVec>(b, c)) Run ra; GIVEUP2(ra = run_dense<R>(a, c)) cmp12(s, R::name(), ra, rb, tol); }
template <class R> void allc(pbt::Src& s) { switch (s.raw(8)) { case 0: c12<f_ck, R>(s); break; case 1: c12<f_ckc, R>(s); break; case 2: c12<f_dp, R>(s); break; case 3: c12<f_f78, R>(s); break; case 4: bs12<R>(s); break; case 5: bsd12<R>(s); break; case 6: dd12<R>(s); break;
    default: switch (s.raw(4)) { case 0: e12<f_ck, R>(s); break; case 1: e12<f_dp, R>(s); break; case 2: e12<f_f78, R>(s); break; default: e12<f_ex4, R>(s); } } }
#ifdef PART4
#elif defined(PART1)
SUITE(ctrl_sequences, 12000, 600000, C12_RULE) { switch (src.raw(5)) { case 0: allc<RSeq<std::deque<double>>>(src); break; case 1: allc<RSeq<std::list<double>>>(src); break; case 2: allc<RArr<std::array<double, 4>, 4>>(src); break; case 3: allc<RArr<boost::array<double, 3>, 3>>(src); break; default: allc<RUblas>(src); } }
#elif defined(PART2)
SUITE(ctrl_multi_array, 8000, 400000, C12_RULE) { switch (src.raw(3)) { case 0: allc<RMulti<1>>(src); break; case 1: allc<RMulti<2>>(src); break; default: allc<RMulti<3>>(src); break; } }
#else
SUITE(ctrl_vector_space, 12000, 600000, C12_RULE) { switch (src.raw(3)) { case 0: allc<RScalar>(src); break; case 1: allc<RPoint>(src); break; default: allc<RFusion>(src); } }
#endif
