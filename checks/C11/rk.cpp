#include "c11.hpp"
using namespace boost::numeric::odeint;
struct VecBase { typedef Vec X; static Vec toV(const Vec& v) { return v; } static Vec fromV(const Vec& v) { return v; } Sys<Vec> sys(const Prob& p) const { return Sys<Vec>(p); }
    template <class D1, class D2> static auto quad(D1 der, D2) { return [der](const Vec&, Vec& dx, double t) { for (size_t i = 0; i < dx.size(); ++i) dx[i] = (double)der((int)i, (LD)t); }; } double maxdt = 0.5, polytol = 1e-12; };
struct DopriCtl { controlled_runge_kutta<runge_kutta_dopri5<Vec>> c; Vec x, dx; double t, dt; bool first = true, rejected = false;
    template <class S> void step(S& sys) { if (first) { dx.resize(x.size()); sys(x, dx, t); first = false; } while (c.try_step(sys, x, dx, t, dt) == fail) rejected = true; }
    bool matches(const Vec& y, double tt, double h) { return same_bits(x, y) && tt == t && h == dt; } std::string describe() { return pbt::str("the underlying controlled stepper went to t=", t, " dt=", dt, " x=", vstr(x)); } };
struct Dopri : VecBase { double ea, er; int how; std::string describe() const { return pbt::str("dopri5 dense atol=", ea, " rtol=", er, " "); }
    typedef dense_output_runge_kutta<controlled_runge_kutta<runge_kutta_dopri5<Vec>>> D;
    D make() const { if (how) return make_dense_output(ea, er, runge_kutta_dopri5<Vec>()); return D(controlled_runge_kutta<runge_kutta_dopri5<Vec>>(default_error_checker<double, range_algebra, default_operations>(ea, er))); }
    DopriCtl control(const Vec& x, double t, double dt, Sys<Vec>&) const { return DopriCtl{controlled_runge_kutta<runge_kutta_dopri5<Vec>>(default_error_checker<double, range_algebra, default_operations>(ea, er)), x, Vec(), t, dt}; }
    void interior(const Prob& p, const Vec& x0, double a, const Vec& x1, double b, double t, const Vec& o, D&) const {
        if (t == a) { check_close("start_of_step", "interpolation at the start of the step", o, x0, 1e-14 * (1 + maxabs(x0))); return; }
        static const Tableau tb = tb_dopri5(); std::vector<LVec> k; LVec e; LD sc; LD h = (LD)b - (LD)a, th = ((LD)t - (LD)a) / h; rk_step<LD>(tb, RefF{p}, toL(x0), (LD)a, h, &e, &k, &sc); Vec want(x0.size());
        if (t == b) { check_close("end_of_step", "interpolation at the end of the step", o, x1, 1e-14 * (1 + (double)sc) * (1 + std::fabs(b - a) * 10) + 4 * ulp(std::fabs(a) + std::fabs(b)) * (1 + (double)sc) * (1 + 1 / std::fabs(b - a))); return; }
        static const LD D[7] = {-12715105075.0L / 11282082432.0L, 0, 87487479700.0L / 32700410799.0L, -10690763975.0L / 1880347072.0L, 701980252875.0L / 199316789632.0L, -1453857185.0L / 822651844.0L, 69997945.0L / 29380423.0L};
        double tn = std::fabs(b - a) * (std::fabs(a) + 1) * 3e-13 * (1 + (double)sc) + 8 * ulp(std::fabs(a) + std::fabs(b)) * (double)sc * (1 + 1 / std::fabs(b - a)), em = 0; 
        for (size_t i = 0; i < x0.size(); ++i) { LD yd = (LD)x1[i] - x0[i], bs = h * k[0][i] - yd, c4 = yd - h * k[6][i] - bs, c5 = 0; for (int j = 0; j < 7; ++j) c5 += D[j] * k[j][i]; c5 *= h; want[i] = (double)(x0[i] + th * (yd + (1 - th) * (bs + th * (c4 + (1 - th) * c5)))); em = std::max(em, (double)std::fabs(e[i])); }
        check_close("interior", pbt::str("interpolation at theta=", (double)th, " against the published continuous extension"), o, want, 0.25 * em + 2e-13 * (1 + (double)sc) + tn);
        // and against the solution through the start of the step
        LD hs = std::min((LD)0.1, std::fabs(h) / 2 + 1e-3L); LVec r = ref_solve(p, toL(x0), a, t, hs); double tol = 200 * em + 2e-13 * (1 + (double)sc) + tn; double stiff = 1; (void)stiff; if (std::fabs(b - a) < 0.3) check_close("interior_solution", pbt::str("interpolation at theta=", (double)th, " against the solution"), o, r, tol + 0.05 * std::pow(std::fabs((double)h), 5) * (1 + (double)sc / std::fabs((double)h)) * 60);
    } };
SUITE(dopri5_history, 30000, 1500000, C11_RULE) { Dopri a; a.ea = src.logmag(1e-10, 1e-2); a.er = src.logmag(1e-10, 1e-2); a.how = (int)src.raw(2); c11_history(src, a); }
SUITE(dopri5_poly, 20000, 800000, "the solution is a polynomial of degree at least 2") { Dopri a; a.ea = src.logmag(1e-6, 1); a.er = a.ea; a.how = 1; c11_poly(src, a, 4); }
struct EulCtl { Vec x; double t, dt; bool rejected = false; euler<Vec> e; template <class S> void step(S& sys) { e.do_step(sys, x, t, dt); t += dt; } bool matches(const Vec& y, double tt, double h) { return same_bits(x, y) && tt == t && h == dt; } std::string describe() { return pbt::str("the plain Euler stepper went to t=", t, " x=", vstr(x)); } };
struct Eul : VecBase { typedef dense_output_runge_kutta<euler<Vec>> D; std::string describe() const { return "euler dense "; } D make() const { return D(euler<Vec>()); } EulCtl control(const Vec& x, double t, double dt, Sys<Vec>&) const { return EulCtl{x, t, dt}; }
    void interior(const Prob&, const Vec& x0, double a, const Vec& x1, double b, double t, const Vec& o, D&) const { LD th = ((LD)t - a) / ((LD)b - a); Vec w(x0.size()); for (size_t i = 0; i < w.size(); ++i) w[i] = (double)(x0[i] + th * ((LD)x1[i] - x0[i])); check_close("interior", pbt::str("interpolation at theta=", (double)th), o, w, 1e-13 * (1 + maxabs(x0) + maxabs(x1)) + ulp(std::fabs(a) + std::fabs(b)) / std::fabs(b - a) * maxdiff(x0, x1) * 4); } };
SUITE(euler_history, 30000, 1500000, C11_RULE) { c11_history(src, Eul()); }
SUITE(euler_poly, 5000, 100000, "the solution is a polynomial of degree 1") { Eul a; c11_poly(src, a, 1); src.nontrivial(); }
struct BS : VecBase { typedef bulirsch_stoer_dense_out<Vec> D; double ea; bool ci; std::string describe() const { return pbt::str("bulirsch_stoer_dense_out tol=", ea, " control_interpolation=", ci, " "); } D make() const { return D(ea, ea, 1.0, 1.0, 0.0, ci); } NoControl control(const Vec&, double, double, Sys<Vec>&) const { return NoControl(); }
    void interior(const Prob& p, const Vec& x0, double a, const Vec& x1, double b, double t, const Vec& o, D&) const { if (std::fabs(b - a) > 2) return; double th = (t - a) / (b - a); RefTrace r = ref_trace(p, x0, {a, t}, 0.02L); if (!r.ok || r.G > 50 || r.xmax > 30) return; (void)th; double m = 1 + r.xmax + maxabs(x1);
        check_close("interior", pbt::str("interpolation at theta=", th, " against the solution"), o, r.x[1], (ci ? acc_tol(ea) : 100 * std::pow(ea, 0.6)) * m * r.G); } };
SUITE(bs_history, 15000, 600000, C11_RULE) { BS a; a.ea = src.logmag(1e-10, 1e-4); a.ci = src.flag(); c11_history(src, a); }
SUITE(bs_poly, 8000, 200000, "the solution is a polynomial of degree at least 2") { BS a; a.ea = src.logmag(1e-6, 1); a.ci = false; a.polytol = 1e-10; c11_poly(src, a, 3); }
