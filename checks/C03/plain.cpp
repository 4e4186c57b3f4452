#include "c03.hpp"
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
typedef boost::array<double, 3> A3;
template <class St, class Tag, Mode MD> void go(pbt::Src& s, int ninit = 0) { FormM<Tag, St, MD, false> m(s, [](void* q) { return new (q) St(); }, 0.4, MD != MEMLESS); m.ninit = ninit; histories(s, m); }
SUITE(one_step, 90000, 1500000, C03_RULE) { switch (src.raw(9)) { case 0: go<od::euler<A3>, F_ES, MEMLESS>(src); break; case 1: go<od::runge_kutta4<Vec>, F_ES, MEMLESS>(src); break; case 2: go<od::runge_kutta4_classic<A3>, F_ES, MEMLESS>(src); break; case 3: go<od::modified_midpoint<A3>, F_ES, MEMLESS>(src); break; case 4: go<od::runge_kutta_cash_karp54<A3>, F_EE, MEMLESS>(src); break; case 5: go<od::runge_kutta_cash_karp54_classic<A3>, F_EE, MEMLESS>(src); break; case 6: go<od::runge_kutta_fehlberg78<Vec>, F_EE, MEMLESS>(src); break; case 7: go<od::runge_kutta4<A3>, F_ES, MEMLESS>(src); break; default: go<od::extrapolation_stepper<6, A3>, F_EE, MEMLESS>(src); } }
SUITE(fsal, 90000, 1500000, C03_RULE) { if (src.flag()) go<od::runge_kutta_dopri5<Vec>, F_FS, FSAL>(src, 2); else go<od::runge_kutta_dopri5<A3>, F_FS, FSAL>(src, 2); }
