#include "rep2.hpp"
#include <boost/multiprecision/cpp_bin_float.hpp>
#define PART4
#include "ctrl.inc"
// other number types. The right-hand side is evaluated in that type; the same run in double must agree to
// the coarser of the two precisions. Extended precision is also compared with a still wider type: any
// coefficient rounded to double on the way would show as a difference of 1e-17.
template <class R> void allq(pbt::Src& s, double tol) { switch (s.raw(12)) {
    case 0: p12<f_euler, R>(s, tol); break; case 1: p12<f_rk4, R>(s, tol); break; case 2: p12<f_rk4c, R>(s, tol); break; case 3: p12<f_ck, R>(s, tol); break; case 4: p12<f_f78, R>(s, tol); break; case 5: p12<f_mm, R>(s, tol); break;
    case 6: p12<f_ex4, R>(s, tol); break; case 7: p12<f_ab<4>, R>(s, tol); break; case 8: p12<f_abm<3>, R>(s, tol); break; case 9: p12<f_dp, R>(s, tol); break; case 10: p12<f_ckc, R>(s, tol); break; default: p12<f_ex8, R>(s, tol); } }
SUITE(precision_plain, 8000, 400000, C12_RULE) { if (src.flag()) allq<RPrec<float>>(src, 2e-3); else allq<RPrec<long double>>(src, 1e-10); }
template <class R> void allqc(pbt::Src& s, double tol) { switch (s.raw(6)) { case 0: c12<f_ck, R>(s, tol); break; case 1: c12<f_ckc, R>(s, tol); break; case 2: c12<f_dp, R>(s, tol); break; case 3: c12<f_f78, R>(s, tol); break; case 4: dd12<R>(s, tol); break; default: bs12<R>(s, tol); } }
SUITE(precision_ctrl, 4000, 200000, C12_RULE) { allqc<RPrec<long double>>(src, 1e-5); }

namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_bin_float<50>, mp::et_off> M50; typedef mp::number<mp::cpp_bin_float<70>, mp::et_off> M70;
template <class M> struct MRun { std::vector<std::vector<M>> x; };
template <class M> struct MSys { const Prob* p; void operator()(const std::vector<M>& x, std::vector<M>& d, const M& t) const { p->eval<M>(x, d, t); } };
template <class M, class St> MRun<M> mrun(St st, const Case12& c) { MRun<M> r; std::vector<M> x(c.x0.begin(), c.x0.end()); M t(c.t0); MSys<M> sys{&c.p}; for (double dt : c.dts) { st.do_step(sys, x, t, M(dt)); t += M(dt); r.x.push_back(x); } return r; }
template <template <class> class F> void mp12(pbt::Src& s, const char* nm) {
    Case12 c = gen12(s, (int)s.i(1, 2), 0.3, 5); MRun<M50> a = mrun<M50>(F<M50>(), c); MRun<M70> b = mrun<M70>(F<M70>(), c); s.label(nm); double mv = 0;
    for (size_t k = 0; k < a.x.size(); ++k) for (size_t i = 0; i < a.x[k].size(); ++i) { double sc = 1; for (auto& e : b.x[k]) sc = std::max(sc, std::fabs((double)e)); if (!(sc < 1e6)) throw pbt::Discard(); double df = (double)abs(M70(a.x[k][i]) - b.x[k][i]); mv = std::max(mv, std::fabs((double)b.x[k][i] - c.x0[i]));
        REQUIRE_K("precision", df <= 1e-40 * sc, nm, " with 50-digit numbers: component ", i, " after step ", k + 1, " is ", (double)a.x[k][i], " and differs from the 70-digit run by ", df, " (something was rounded to lower precision)"); }
    if (mv > 1e-9 && c.dts.size() > 1) s.nontrivial();
}
template <class M> using m_euler = od::euler<std::vector<M>, M>; template <class M> using m_rk4 = od::runge_kutta4<std::vector<M>, M>; template <class M> using m_rk4c = od::runge_kutta4_classic<std::vector<M>, M>; template <class M> using m_ck = od::runge_kutta_cash_karp54<std::vector<M>, M>;
template <class M> using m_ckc = od::runge_kutta_cash_karp54_classic<std::vector<M>, M>; template <class M> using m_dp = od::runge_kutta_dopri5<std::vector<M>, M>; template <class M> using m_f78 = od::runge_kutta_fehlberg78<std::vector<M>, M>; template <class M> using m_mm = od::modified_midpoint<std::vector<M>, M>;
template <class M> using m_ex6 = od::extrapolation_stepper<6, std::vector<M>, M>; template <class M> using m_ab5 = od::adams_bashforth<5, std::vector<M>, M>; template <class M> using m_ab8 = od::adams_bashforth<8, std::vector<M>, M>; template <class M> using m_abm4 = od::adams_bashforth_moulton<4, std::vector<M>, M>; template <class M> using m_abm7 = od::adams_bashforth_moulton<7, std::vector<M>, M>;

SUITE(precision_wide, 1500, 60000, C12_RULE) { switch (src.raw(13)) { case 0: mp12<m_euler>(src, "euler"); break; case 1: mp12<m_rk4>(src, "runge_kutta4"); break; case 2: mp12<m_rk4c>(src, "runge_kutta4_classic"); break; case 3: mp12<m_ck>(src, "cash_karp54"); break; case 4: mp12<m_ckc>(src, "cash_karp54_classic"); break; case 5: mp12<m_dp>(src, "dopri5"); break;
    case 6: mp12<m_f78>(src, "fehlberg78"); break; case 7: mp12<m_mm>(src, "modified_midpoint"); break; case 8: mp12<m_ex6>(src, "extrapolation<6>"); break; case 9: mp12<m_ab5>(src, "adams_bashforth<5>"); break; case 10: mp12<m_ab8>(src, "adams_bashforth<8>"); break; case 11: mp12<m_abm4>(src, "adams_bashforth_moulton<4>"); break; default: mp12<m_abm7>(src, "adams_bashforth_moulton<7>"); } }
