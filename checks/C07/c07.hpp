#include "accuracy.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
// how the observed states are to be judged
enum Judge { J_ITERATE, J_ACCURATE };
#define C07_RULE "at least two observations were due, or the interval is empty / shorter than one step"
static std::vector<double> expect_times(const Grid& g, long n) { std::vector<double> t; for (long k = 0; k <= n; ++k) t.push_back(g.t0 + k * g.dt); return t; }
// Make: () -> fresh stepper.
template <class Make> void c07_run(pbt::Src& s, Make make, Judge judge, bool nsteps_form, long maxn, double dtmax, double eps, double itol = 0) {
    auto st = make(); typedef decltype(st) St; typedef BaseTag<St> Tag; const bool plain = std::is_same<Tag, od::stepper_tag>::value, dense = std::is_same<Tag, od::dense_output_stepper_tag>::value;
    if (itol == 0) itol = 1e3 * eps; // accuracy of interpolated states
    rhs_reset();
    Grid g = gen_grid(s, maxn, dtmax); Prob p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5);
    if (judge == J_ACCURATE) { double T = std::fabs(g.n * g.dt); if (T > 4) { g.n = std::max(1l, (long)(4 / std::fabs(g.dt))); g.t1 = g.t0 + (g.exact ? g.n * g.dt : (g.n + 0.5) * g.dt); g.boundary = false; } }
    if (g.boundary && s.flag(60)) { auto dec = [](double v) { return std::round(v * 1e3) / 1e3; }; double d = dec(g.dt); if (d != 0) { g.dt = d; g.t0 = dec(g.t0); g.t1 = dec(g.t0 + g.n * g.dt); s.label("decimal grid"); } }
    note_grid(s, g); s.note(p.describe()); s.note(" x0", x0); s.note(nsteps_form ? "integrate_n_steps" : "integrate_const");
    bool byref = s.flag(30), checker = s.flag(25), noobs_form = false; 
    auto log = std::make_shared<StepLog>(); auto rec = recorded(st, log); Vec x = x0; Trace tr; Sys<Vec> sys(p); Obs obs{&tr};
    od::max_step_checker chk(100000);
    double ret_time = 0; size_t ret = 0;
    if (nsteps_form) {
        size_t n = (size_t)g.n;
        if (checker) ret_time = byref ? od::integrate_n_steps(boost::ref(rec), sys, x, g.t0, g.dt, n, obs, chk) : od::integrate_n_steps(rec, sys, x, g.t0, g.dt, n, obs, chk);
        else ret_time = byref ? od::integrate_n_steps(boost::ref(rec), boost::ref(sys), x, g.t0, g.dt, n, obs) : od::integrate_n_steps(rec, sys, x, g.t0, g.dt, n, boost::ref(obs));
    } else {
        if (checker) ret = byref ? od::integrate_const(boost::ref(rec), sys, x, g.t0, g.t1, g.dt, obs, chk) : od::integrate_const(rec, sys, x, g.t0, g.t1, g.dt, obs, chk);
        else ret = byref ? od::integrate_const(boost::ref(rec), boost::ref(sys), x, g.t0, g.t1, g.dt, obs) : od::integrate_const(rec, sys, x, g.t0, g.t1, g.dt, boost::ref(obs));
    }
    if (byref) s.label("stepper by reference"); if (checker) s.label("with step limit");
    // number of observations
    long got = (long)tr.t.size() - 1;
    bool count_ok = got == g.n || (!nsteps_form && g.boundary && got == g.n - 1);
    if (!nsteps_form && !count_ok && !g.exact) { // rounding of the interval end
        double tl = g.t0 + got * g.dt, slack = 8 * ulp(std::max(std::fabs(g.t0), std::fabs(g.t1))) + 4.5e-16; int sg = g.dt > 0 ? 1 : -1;
        count_ok = (g.t1 - tl) * sg >= -slack && (tl + g.dt - g.t1) * sg >= -slack;
    }
    // a grid point on the end of the interval up to rounding (one machine epsilon) belongs to it, however the point is computed
    if (!nsteps_form && count_ok && got < g.n && g.boundary) { const double sg = g.dt > 0 ? 1 : -1, eps1 = std::numeric_limits<double>::epsilon();
        double a = g.t0 + (got + 1) * g.dt, b = (g.t0 + got * g.dt) + g.dt; if ((a - g.t1) * sg <= eps1 && (b - g.t1) * sg <= eps1) count_ok = false; }
    REQUIRE_K("observations", count_ok, "expected ", g.n + 1, " observer calls, got ", got + 1, " (last at t=", got >= 0 ? tr.t.back() : NAN, ", t1=", g.t1, ")");
    std::vector<double> want = expect_times(g, got);
    for (long k = 0; k <= got; ++k) { double tt = time_tol(g, want[k]); REQUIRE_K("times", std::fabs(tr.t[k] - want[k]) <= tt, "observation ", k, " at t=", tr.t[k], " instead of ", want[k], " (tolerance ", tt, ")"); }
    if (nsteps_form) REQUIRE_K("return_time", std::fabs(ret_time - want[got]) <= time_tol(g, want[got]), "returned time ", ret_time, " instead of ", want[got]);
    else { if (plain) REQUIRE_K("return_steps", (long)ret == got, "returned ", ret, " for ", got, " steps"); REQUIRE_K("return_steps", (long)ret == log->ok, "returned ", ret, " steps, stepper took ", log->ok); }
    if (plain) REQUIRE_K("steps", log->ok == got, "stepper took ", log->ok, " steps for ", got, " observations after the start");
    // final state
    double xall = 0; for (auto& v : tr.x) xall = std::max(xall, maxabs(v));
    REQUIRE_K("start_state", dense && nsteps_form ? maxdiff(tr.x[0], x0) <= itol * (1 + xall) : same_bits(tr.x[0], x0), "first observation is not the initial state: ", vstr(tr.x[0]), " vs ", vstr(x0));
    { double m = maxabs(x) + 1e-300; if (maxdiff(x, tr.x[got]) > (judge == J_ITERATE ? 1e-12 : itol) * (1 + m)) pbt::fail("final_state", pbt::str("caller's state ", vstr(x), " is not the last observed one ", vstr(tr.x[got]))); }
    if (dense) check_log(*log, std::max({std::fabs(g.t0), std::fabs(g.t1), std::fabs(want[got])}));
    // the stepper must not be driven far beyond the interval: only dense output may overshoot an observation time
    // states
    if (judge == J_ITERATE) {
        auto fresh = make();
        Vec y = x0; double tol = 1e-300; rhs_reset();
        for (long k = 0; k <= got; ++k) {
            if (k) plain_step(fresh, sys, y, g.t0 + (k - 1) * g.dt, g.dt, Tag());
            double tl = 1e-11 * (1 + maxabs(y)) * (1 + k * 0.05); if (!allfinite(y) || maxabs(y) > 1e8) break;
            if (plain) check_close("state", pbt::str("observation ", k, " at t=", tr.t[k]), tr.x[k], y, tl);
        }
        (void)tol;
    } else {
        RefTrace r = ref_trace(p, x0, want); if (!r.ok) throw pbt::Discard();
        for (long k = 0; k <= got; ++k) check_close("state", pbt::str("observation ", k, " at t=", tr.t[k], " against the exact solution"), tr.x[k], r.x[k], 3 * itol * r.G * (1 + r.xmax));
    }
    if (got >= 2 || g.n < 1) s.nontrivial();
    if (dense && log->ok < got) s.label("dense steps longer than the grid"); if (dense && log->ok > got) s.label("dense steps shorter than the grid"); if (!plain && log->failed) s.label("rejected steps");
}
