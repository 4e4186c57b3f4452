#include "c02.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
template <class St, class Tag> void pc(pbt::Src& s, const Traits& t, bool ranges = true) { forms_case<Tag, St>(s, t, [] { return St(); }, ranges && std::is_same<typename St::state_type, Vec>::value, 0.5); }
typedef std::deque<double> Dq; typedef boost::array<double, 3> A3;
SUITE(explicit_forms, 150000, 2000000, C02_RULE) { switch (src.raw(8)) { case 0: pc<od::euler<Vec>, F_ES>(src, plain_es()); break; case 1: pc<od::runge_kutta4<Vec>, F_ES>(src, plain_es()); break; case 2: pc<od::runge_kutta4_classic<Vec>, F_ES>(src, plain_es()); break; case 3: { int n = (int)src.i(2, 9); forms_case<F_ES, od::modified_midpoint<Vec>>(src, plain_es(), [n] { return od::modified_midpoint<Vec>(n); }, true, 0.5); break; }
    case 4: pc<od::runge_kutta4<A3>, F_ES>(src, plain_es()); break; case 5: pc<od::runge_kutta4<Dq>, F_ES>(src, plain_es()); break; case 6: pc<od::euler<A3>, F_ES>(src, plain_es()); break; default: pc<od::runge_kutta4_classic<A3>, F_ES>(src, plain_es()); } }
SUITE(error_forms, 150000, 2000000, C02_RULE) { switch (src.raw(5)) { case 0: pc<od::runge_kutta_cash_karp54<Vec>, F_EE>(src, plain_ee()); break; case 1: pc<od::runge_kutta_cash_karp54_classic<Vec>, F_EE>(src, plain_ee()); break; case 2: pc<od::runge_kutta_fehlberg78<Vec>, F_EE>(src, plain_ee()); break; case 3: pc<od::runge_kutta_cash_karp54<A3>, F_EE>(src, plain_ee()); break; default: pc<od::runge_kutta_fehlberg78<Dq>, F_EE>(src, plain_ee()); } }
SUITE(fsal_forms, 150000, 2000000, C02_RULE) { switch (src.raw(3)) { case 0: pc<od::runge_kutta_dopri5<Vec>, F_FS>(src, fsal_ee()); break; case 1: pc<od::runge_kutta_dopri5<A3>, F_FS>(src, fsal_ee()); break; default: pc<od::runge_kutta_dopri5<Dq>, F_FS>(src, fsal_ee()); } }
SUITE(extrapolation_forms, 30000, 600000, C02_RULE) { Traits t = plain_ee(); t.amp = 1000; switch (src.raw(3)) { case 0: pc<od::extrapolation_stepper<4, Vec>, F_EE>(src, t); break; case 1: pc<od::extrapolation_stepper<6, Vec>, F_EE>(src, t); break; default: pc<od::extrapolation_stepper<8, A3>, F_EE>(src, t); } }
