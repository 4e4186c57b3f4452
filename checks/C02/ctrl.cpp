#include "c02.hpp"
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
typedef std::deque<double> Dq; typedef boost::array<double, 3> A3;
template <class Rk, class Tag> void cc(pbt::Src& s, const Traits& t) { double at = s.logmag(1e-9, 1e-1), rt = s.flag(30) ? 0 : s.logmag(1e-9, 1e-1), mx = s.flag(20) ? 0.05 : 0; s.note("atol", at); s.note("rtol", rt); s.note("max_dt", mx); typedef od::controlled_runge_kutta<Rk> C;
    forms_case<Tag, C>(s, t, [&] { return mx ? C(typename C::error_checker_type(at, rt), typename C::step_adjuster_type(mx)) : C(typename C::error_checker_type(at, rt)); }, std::is_same<typename Rk::state_type, Vec>::value, 1.0); }
SUITE(controlled_forms, 150000, 2000000, C02_RULE) { switch (src.raw(4)) { case 0: cc<od::runge_kutta_cash_karp54<Vec>, F_CR>(src, ctrl_rk()); break; case 1: cc<od::runge_kutta_fehlberg78<Vec>, F_CR>(src, ctrl_rk()); break; case 2: cc<od::runge_kutta_cash_karp54<A3>, F_CR>(src, ctrl_rk()); break; default: cc<od::runge_kutta_cash_karp54<Dq>, F_CR>(src, ctrl_rk()); } }
SUITE(controlled_fsal_forms, 150000, 2000000, C02_RULE) { switch (src.raw(3)) { case 0: cc<od::runge_kutta_dopri5<Vec>, F_CF>(src, ctrl_fs()); break; case 1: cc<od::runge_kutta_dopri5<A3>, F_CF>(src, ctrl_fs()); break; default: cc<od::runge_kutta_dopri5<Dq>, F_CF>(src, ctrl_fs()); } }
SUITE(bulirsch_stoer_forms, 150000, 800000, C02_RULE) { double at = src.logmag(1e-9, 1e-2), rt = src.logmag(1e-9, 1e-2); if (src.flag(70)) forms_case<F_CR, od::bulirsch_stoer<Vec>>(src, ctrl_bs(), [&] { return od::bulirsch_stoer<Vec>(at, rt); }, true, 1.0); else forms_case<F_CR, od::bulirsch_stoer<A3>>(src, ctrl_bs(), [&] { return od::bulirsch_stoer<A3>(at, rt); }, false, 1.0); }
template <class St> void ms(pbt::Src& s) { forms_case<F_MS, St>(s, multi(), [] { return St(); }, std::is_same<typename St::state_type, Vec>::value, 0.2); }
SUITE(multistep_forms, 150000, 1500000, C02_RULE) { switch (src.raw(8)) { case 0: ms<od::adams_bashforth<1, Vec>>(src); break; case 1: ms<od::adams_bashforth<3, Vec>>(src); break; case 2: ms<od::adams_bashforth<5, A3>>(src); break; case 3: ms<od::adams_bashforth<8, Vec>>(src); break; case 4: ms<od::adams_bashforth_moulton<1, Vec>>(src); break; case 5: ms<od::adams_bashforth_moulton<3, Vec>>(src); break; case 6: ms<od::adams_bashforth_moulton<5, A3>>(src); break; default: ms<od::adams_bashforth_moulton<8, Vec>>(src); } }
