#include "prob.hpp"
#include <boost/numeric/odeint/config.hpp>
// Take n steps along one trajectory with one stepper; every step is compared with
// the reference tableau applied to the state the step started from.
enum { F_NOERR = 0, F_ERR = 1 };
struct StepOut { Vec x, err, dxdt; bool has_err, has_dxdt; };
template <class Do>   // Do(sys, x, t, dt, mode) -> StepOut
void c01_run(pbt::Src& s, const Tableau& tb, int order, bool fsal, Do step, double maxdt = 1.0, double amp = 1.5) {
    static bool sane = tb_sane(tb, order); if (!sane && order) pbt::fail("reference", "reference tableau is inconsistent");
    rhs_reset();
    int d = gen_dim(s); Prob p = gen_prob(s, d, ALLKINDS, amp); Vec x = s.vec(d, 2.0); double t = s.flag(70) ? s.num(3) : s.num(1000);
    int n = (int)s.i(1, 5); double dt = s.raw(20) == 19 ? 0.0 : s.logmag(1e-5, maxdt); if (s.flag()) dt = -dt;
    s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt); s.note("steps", n);
    bool change = s.flag(40); double sc_all = 0;
    for (int q = 0; q < n; ++q) {
        int mode = (int)s.raw(4);
        if (q && change) { double f = s.pick({0.5, 1.0, 0.3, 1.7}); dt *= f; if (std::fabs(dt) > maxdt) dt = dt > 0 ? maxdt : -maxdt; }
        StepOut o = step(Sys<Vec>(p), x, t, dt, mode);
        LVec e1; Vec e2; LD sc; LVec r = rk_step<LD>(tb, RefF{p}, toL(x), (LD)t, (LD)dt, tb.has_err ? &e1 : 0, 0, &sc); Vec rd = rk_step<double>(tb, RefF{p}, x, t, dt, tb.has_err ? &e2 : 0);
        if (!std::isfinite((double)sc) || sc > 1e12) throw pbt::Discard();
        // explicit t: rounding of t + c dt (|t| ulp) enters through the right-hand side
        double tnoise = std::fabs(dt) * (std::fabs(t) + 1) * 1e-15 * 300;
        double tol = 2e-13 * (double)(sc + maxabs(x)) + 100 * maxdiff(r, rd) + tnoise * (1 + (double)sc);
        check_close("state", pbt::str("step ", q, " mode ", mode, " state"), o.x, r, tol);
        if (o.has_err) { double te = 2e-13 * (double)sc * 1.0 + 100 * maxdiff(e1, e2) + tnoise * (1 + (double)sc); te = std::min(te, tol);
            check_close("error", pbt::str("step ", q, " mode ", mode, " error estimate"), o.err, e1, te); s.label("error estimate"); }
        if (o.has_dxdt) { LVec dr(d); p.eval<LD>(r, dr, (LD)t + (LD)dt); Vec dd(d); p.eval<double>(toD(r), dd, t + dt); double L = 200; check_close("dxdt", pbt::str("step ", q, " derivative at the new point"), o.dxdt, dr, tol * L + 100 * maxdiff(dr, dd) + 1e-13 * maxabs(dd) + (std::fabs(t) + 1) * 1e-13 * (1 + (double)sc)); s.label("final derivative"); }
        sc_all = std::max(sc_all, maxdiff(r, x));
        x = o.x; t += dt;
        if (!allfinite(x)) throw pbt::Discard();
    }
    if (sc_all > 1e-6 && (d > 1 || !p.autonomous)) s.nontrivial();
    if (dt < 0) s.label("backward"); if (dt == 0) s.label("zero step"); if (d > 6) s.label("large dimension"); if (!p.autonomous) s.label("time dependent"); if (n > 1) s.label("several steps");
}
#define C01_RULE "state moved by >1e-6 and the problem is coupled (d>1) or explicitly time dependent"
