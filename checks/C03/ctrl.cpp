#include "c03.hpp"
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
typedef boost::array<double, 3> A3;
template <class Rk, class Tag, Mode MD> void cc(pbt::Src& s, int ninit = 0) { typedef od::controlled_runge_kutta<Rk> C; double at = s.logmag(1e-8, 1e-1), rt = s.logmag(1e-8, 1e-1), mx = s.flag(20) ? 0.1 : 0; FormM<Tag, C, MD, true> m(s, [=](void* q) { return mx ? new (q) C(typename C::error_checker_type(at, rt), typename C::step_adjuster_type(mx)) : new (q) C(typename C::error_checker_type(at, rt)); }, 0.8, MD != MEMLESS); m.ninit = ninit; histories(s, m); }
SUITE(controlled, 90000, 1500000, C03_RULE) { switch (src.raw(3)) { case 0: cc<od::runge_kutta_cash_karp54<A3>, F_CR, MEMLESS>(src); break; case 1: cc<od::runge_kutta_cash_karp54<Vec>, F_CR, MEMLESS>(src); break; default: cc<od::runge_kutta_fehlberg78<Vec>, F_CR, MEMLESS>(src); } }
SUITE(controlled_fsal, 90000, 1500000, C03_RULE) { if (src.flag()) cc<od::runge_kutta_dopri5<A3>, F_CF, FSAL>(src, 2); else cc<od::runge_kutta_dopri5<Vec>, F_CF, FSAL>(src, 2); }
template <class B> void bs(pbt::Src& s) { double at = s.logmag(1e-8, 1e-2), rt = s.logmag(1e-8, 1e-2), mx = s.flag(20) ? 0.2 : 0; FormM<F_CR, B, STATEFUL, true> m(s, [=](void* q) { return mx ? new (q) B(at, rt, 1.0, 1.0, mx) : new (q) B(at, rt); }, 0.8, true); histories(s, m); }
SUITE(bulirsch_stoer, 36000, 600000, C03_RULE) { if (src.flag()) bs<od::bulirsch_stoer<A3>>(src); else bs<od::bulirsch_stoer<Vec>>(src); }
template <class St> void ms(pbt::Src& s, int ninit) { FormM<F_MS, St, STATEFUL, false> m(s, [](void* q) { return new (q) St(); }, 0.2, true); m.ninit = ninit; histories(s, m); }
SUITE(multistep, 90000, 1500000, C03_RULE) { switch (src.raw(8)) { case 0: ms<od::adams_bashforth<1, A3>>(src, 1); break; case 1: ms<od::adams_bashforth<2, A3>>(src, 1); break; case 2: ms<od::adams_bashforth<4, Vec>>(src, 1); break; case 3: ms<od::adams_bashforth<7, A3>>(src, 1); break; case 4: ms<od::adams_bashforth_moulton<1, A3>>(src, 1); break; case 5: ms<od::adams_bashforth_moulton<3, A3>>(src, 1); break; case 6: ms<od::adams_bashforth_moulton<4, Vec>>(src, 1); break; default: ms<od::adams_bashforth_moulton<6, A3>>(src, 1); } }
SUITE(adaptive_adams, 60000, 1000000, C03_RULE) { switch (src.raw(3)) { case 0: ms<od::adaptive_adams_bashforth_moulton<2, A3>>(src, 1); break; case 1: ms<od::adaptive_adams_bashforth_moulton<4, A3>>(src, 1); break; default: ms<od::adaptive_adams_bashforth_moulton<5, Vec>>(src, 1); } }
