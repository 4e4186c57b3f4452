#include "c11.hpp"
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include "jsys.hpp"
using namespace boost::numeric::odeint;
struct RosCtl { rosenbrock4_controller<rosenbrock4<double>> c; UV x; double t, dt; bool rejected = false; template <class S> void step(S& sys) { while (c.try_step(sys, x, t, dt) == fail) rejected = true; } bool matches(const Vec& y, double tt, double h) { return same_bits(uv(x), y) && tt == t && h == dt; } std::string describe() { return pbt::str("the underlying controlled stepper went to t=", t, " dt=", dt, " x=", vstr(uv(x))); } };
struct Ros { typedef UV X; double ea, er; int how; double maxdt = 0.4, polytol = 3e-10; typedef rosenbrock4_dense_output<rosenbrock4_controller<rosenbrock4<double>>> D;
    static Vec toV(const UV& v) { return uv(v); } static UV fromV(const Vec& v) { return mk(v); } JPair sys(const Prob& p) const { return jpair(p); } std::string describe() const { return pbt::str("rosenbrock4 dense atol=", ea, " rtol=", er, " "); }
    D make() const { if (how) return make_dense_output(ea, er, rosenbrock4<double>()); return D(rosenbrock4_controller<rosenbrock4<double>>(ea, er)); }
    RosCtl control(const Vec& x, double t, double dt, JPair&) const { return RosCtl{rosenbrock4_controller<rosenbrock4<double>>(ea, er), mk(x), t, dt}; }
    template <class D1, class D2> static auto quad(D1 der, D2 der2) { auto f = [der](const UV&, UV& dx, double t) { for (size_t i = 0; i < dx.size(); ++i) dx[i] = (double)der((int)i, (LD)t); }; auto j = [der2](const UV&, UM& J, double t, UV& ft) { for (size_t i = 0; i < ft.size(); ++i) { for (size_t k = 0; k < ft.size(); ++k) J(i, k) = 0; ft[i] = (double)der2((int)i, (LD)t); } }; return std::make_pair(f, j); }
    void interior(const Prob& p, const Vec& x0, double a, const Vec& x1, double b, double t, const Vec& o, D&) const {
        if (t == a) { check_close("start_of_step", "interpolation at the start of the step", o, x0, 1e-14 * (1 + maxabs(x0))); return; }
        if (t == b) { check_close("end_of_step", "interpolation at the end of the step", o, x1, 1e-14 * (1 + maxabs(x1))); return; }
        double h = std::fabs(b - a), th = (t - a) / (b - a); if (h > 0.25) return; LVec r = ref_solve(p, toL(x0), a, t, 0.02L); double m = 1 + maxabs(x0) + maxabs(x1); double lip = (1 + m * m * 0.3);
        check_close("interior", pbt::str("interpolation at theta=", th, " against the solution (step ", h, ")"), o, r, 8 * std::pow(h, 4) * m * lip * lip + 1e-11 * m * lip); } };
SUITE(rosenbrock_history, 20000, 800000, C11_RULE) { Ros a; a.ea = src.logmag(1e-9, 1e-2); a.er = src.logmag(1e-9, 1e-2); a.how = (int)src.raw(2); c11_history(src, a); }
SUITE(rosenbrock_poly, 10000, 400000, "the solution is a polynomial of degree at least 2") { Ros a; a.ea = src.logmag(1e-6, 1); a.er = a.ea; a.how = 1; c11_poly(src, a, 3); }
