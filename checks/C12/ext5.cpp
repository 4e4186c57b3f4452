#include "rep2.hpp"
#include <boost/units/systems/si/length.hpp>
#include <boost/units/systems/si/time.hpp>
#include <boost/units/systems/si/velocity.hpp>
#include <boost/units/systems/si/acceleration.hpp>
#include <boost/numeric/odeint/util/unit_helper.hpp>
// quantities with units: state, derivative and time all have different types
namespace bu = boost::units; namespace si = boost::units::si;
typedef bu::quantity<si::time, double> UT; typedef bu::quantity<si::length, double> UL; typedef bu::quantity<si::velocity, double> UV; typedef bu::quantity<si::acceleration, double> UA;
struct RUnits : RVec { typedef boost::fusion::vector<UL, UV> state; typedef boost::fusion::vector<UV, UA> deriv; typedef UT time; static const char* name() { return "fusion vector of quantities"; } static int dim(pbt::Src&) { return 2; }
    static state mk(const Vec& v) { return state(v[0] * si::meter, v[1] * si::meter_per_second); } static Vec get(const state& x) { using boost::fusion::at_c; return Vec{at_c<0>(x).value(), at_c<1>(x).value()}; }
    static void put(deriv& d, const Vec& v) { d = deriv(v[0] * si::meter_per_second, v[1] * si::meter_per_second_squared); } static time T(double t) { return t * si::second; } static double D(const time& t) { return t.value(); } };
template <class R> void allu(pbt::Src& s) { switch (s.raw(10)) { case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_rk4c, R>(s); break; case 3: p12<f_ck, R>(s); break; case 4: p12<f_ckc, R>(s); break; case 5: p12<f_dp, R>(s); break; case 6: p12<f_ab<4>, R>(s); break; case 7: p12<f_ab<2>, R>(s); break;
    case 8: p12<f_mm, R>(s); break; default: p12<f_ab<6>, R>(s); } }
SUITE(units_plain, 5000, 300000, C12_RULE) { allu<RUnits>(src); }
#define PART4
#include "ctrl.inc"
SUITE(units_ctrl, 5000, 300000, C12_RULE) { switch (src.raw(4)) { case 0: c12<f_ck, RUnits>(src); break; case 1: c12<f_ckc, RUnits>(src); break; case 2: c12<f_dp, RUnits>(src); break; default: dd12<RUnits>(src); } }
