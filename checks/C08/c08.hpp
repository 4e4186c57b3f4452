#include "accuracy.hpp"
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#define C08_RULE "at least two accepted steps were taken, or the interval is empty / shorter than one step"
enum Kind8 { PLAIN8, DENSEFIX8, ACC8 };
// times at which the system is evaluated
struct TimeSpan { double lo = INFINITY, hi = -INFINITY; long n = 0; };
struct SpanSys {
    Sys<Vec> s; std::shared_ptr<TimeSpan> sp; SpanSys(const Prob& p) : s(p), sp(std::make_shared<TimeSpan>()) {}
    template <class X, class D> void operator()(const X& x, D&& dx, double t) const { sp->lo = std::min(sp->lo, t); sp->hi = std::max(sp->hi, t); ++sp->n; s(x, dx, t); }
};
struct Interval { double t0, t1, dt; bool exact; std::string cls; };
// maxn: bound on the number of steps of the suggested length, T: longest interval
inline Interval gen_interval(pbt::Src& s, long maxn, double T, bool fixed) {
    Interval g; g.exact = s.flag(35); g.t0 = gen_t0(s, g.exact); double L;
    int c = (int)s.raw(12);
    if (c == 0) { L = 0; g.cls = "empty interval"; } else L = g.exact ? s.i(1, (long)(T * 16)) / 16.0 : s.mag(T / 50, T);
    double dt;
    if (g.exact) { dt = std::ldexp((double)s.i(1, 3), -(int)s.i(0, 6)); while (L / dt > maxn) dt *= 2; if (!fixed && s.flag(20)) dt *= 16; }
    else { double r = fixed ? s.logmag(1.0 / (double)maxn, 1.6) : s.logmag(1e-4, 20); dt = (L ? L : 0.3) * r; if (!fixed) while (L / dt > 20000) dt *= 2; }
    g.dt = dt; if (c) g.cls = dt > L ? "interval shorter than the step" : dt == L ? "interval of one step" : "several steps";
    int sg = s.flag() ? -1 : 1; g.dt *= sg; g.t1 = g.t0 + sg * L;
    if (!g.exact && c && s.flag(15)) { // both ends of comparable size, opposite signs: end-start+start rounds
        g.t0 = -sg * s.mag(0.2, 0.8) * T; g.t1 = sg * s.mag(0.01, 0.2) * T; g.dt = sg * std::fabs(g.t1 - g.t0) * s.pick({1.5, 1.0, 0.3, 0.05}); g.cls = "interval across zero";
    }
    return g;
}
inline void note_interval(pbt::Src& s, const Interval& g) { s.note("t0", g.t0); s.note("t1", g.t1); s.note("dt", g.dt); s.label(g.cls); if (g.dt < 0) s.label("backward"); if (std::fabs(g.t0) > 50) s.label("large start time"); }

template <class Make> void c08_run(pbt::Src& s, Make make, Kind8 kind, long maxn, double T, double eps, double itol = 0, double dtcap = 1e300) {
    auto st = make(); typedef decltype(st) St; typedef BaseTag<St> Tag;
    rhs_reset(); Interval g = gen_interval(s, maxn, T, kind != ACC8); Prob p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); if (kind == ACC8) p.w = 0.5 + (p.w - 0.5) * 0.3; Vec x0 = s.vec(p.d, 1.5);
    if (std::fabs(g.dt) > dtcap) g.dt = g.dt < 0 ? -dtcap : dtcap;
    bool byref = s.flag(30); int form = (int)s.raw(3); note_interval(s, g); s.note(p.describe()); s.note(" x0", x0);
    auto log = std::make_shared<StepLog>(); auto rec = recorded(st, log); Trace tr; SpanSys sys(p); Obs obs{&tr}; Vec x = x0; size_t ret;
    rhs_reset(400000);
    if (form == 0) ret = byref ? od::integrate_adaptive(boost::ref(rec), sys, x, g.t0, g.t1, g.dt, obs) : od::integrate_adaptive(rec, sys, x, g.t0, g.t1, g.dt, obs);
    else if (form == 1) ret = byref ? od::integrate_adaptive(boost::ref(rec), boost::ref(sys), x, g.t0, g.t1, g.dt, boost::ref(obs)) : od::integrate_adaptive(rec, boost::ref(sys), x, g.t0, g.t1, g.dt, boost::ref(obs));
    else { auto log2 = std::make_shared<StepLog>(); auto rec2 = recorded(make(), log2); Vec y = x0; size_t r2 = od::integrate_adaptive(rec2, sys, y, g.t0, g.t1, g.dt); s.label("also without observer");
        ret = od::integrate_adaptive(rec, sys, x, g.t0, g.t1, g.dt, obs);
        REQUIRE_K("without_observer", r2 == ret && same_bits(x, y), "the call without an observer returns ", r2, " steps / state ", vstr(y), ", with observer ", ret, " / ", vstr(x)); }
    double sc = std::max(std::fabs(g.t0), std::fabs(g.t1)), slack = 4 * ulp(sc) + 4.5e-16; int sg = g.dt > 0 ? 1 : -1;
    long n = (long)tr.t.size() - 1;
    REQUIRE_K("observations", n == log->ok, n + 1, " observer calls for ", log->ok, " accepted steps");
    REQUIRE_K("return_steps", (long)ret == log->ok, "returned ", ret, " for ", log->ok, " accepted steps");
    REQUIRE_K("start", tr.t[0] == g.t0 && same_bits(tr.x[0], x0), "first observation at t=", tr.t[0], " x=", vstr(tr.x[0]));
    REQUIRE_K("end", n == 0 ? std::fabs(tr.t[n] - g.t1) <= slack : kind == PLAIN8 && g.exact ? tr.t[n] == g.t1 : std::fabs(tr.t[n] - g.t1) <= slack, "last observation at t=", tr.t[n], ", interval ends at ", g.t1);
    for (long k = 1; k <= n; ++k) REQUIRE_K("monotone", (tr.t[k] - tr.t[k - 1]) * sg > 0, "times not strictly monotone: ", tr.t[k - 1], " then ", tr.t[k]);
    for (long k = 0; k < n && k < (long)log->states.size(); ++k) REQUIRE_K("observed_state", same_bits(log->states[k], tr.x[k + 1]), "observation ", k + 1, " saw ", vstr(tr.x[k + 1]), ", the stepper had ", vstr(log->states[k]));
    for (long k = 0; k < n && k < (long)log->steps.size(); ++k) {
        double a = log->steps[k].first, b = log->steps[k].second; double tl = kind == PLAIN8 ? 4 * ulp(sc) : 0;
        REQUIRE_K("step_times", std::fabs(a - tr.t[k]) <= tl && std::fabs(b - tr.t[k + 1]) <= 2 * tl, "step ", k, " was [", a, ",", b, "], observed at ", tr.t[k], " and ", tr.t[k + 1]);
        REQUIRE_K("beyond_end", (b - g.t1) * sg <= slack, "accepted step [", a, ",", b, "] passes the end ", g.t1);
        if (kind != ACC8 && k + 1 < n) REQUIRE_K("step_length", std::fabs((b - a) - g.dt) <= 4 * ulp(sc), "step ", k, " has length ", b - a, " instead of ", g.dt);
        if (kind != ACC8 && k + 1 == n) REQUIRE_K("step_length", (b - a - g.dt) * sg <= 4 * ulp(sc), "last step has length ", b - a, " with dt=", g.dt);
    }
    if (kind != ACC8 && g.exact) { long want = (long)std::ceil((g.t1 - g.t0) / g.dt); REQUIRE_K("step_count", n == want, n, " steps instead of ", want); }
    if (n) REQUIRE_K("evaluated_inside", sys.sp->lo >= std::min(g.t0, g.t1) - 16 * slack && sys.sp->hi <= std::max(g.t0, g.t1) + 16 * slack, "system evaluated on [", sys.sp->lo, ",", sys.sp->hi, "] for the interval [", g.t0, ",", g.t1, "]");
    REQUIRE_K("final_state", same_bits(x, tr.x[n]), "caller's state ", vstr(x), " is not the last observed ", vstr(tr.x[n]));
    if (kind == ACC8) {
        RefTrace r = ref_trace(p, x0, tr.t); if (!r.ok) throw pbt::Discard();
        for (long k = 0; k <= n; ++k) check_close("state", pbt::str("observation ", k, " at t=", tr.t[k], " against the exact solution"), tr.x[k], r.x[k], acc_tol(eps) * r.G * (1 + r.xmax));
    } else {
        auto fresh = make(); Vec y = x0; Tag tag; (void)tag;
        if (kind == PLAIN8) for (long k = 1; k <= n; ++k) { double t = g.t0 + (k - 1) * g.dt; plain_step(fresh, sys, y, t, k < n ? g.dt : std::fabs(g.t1 - t) > std::fabs(g.dt) * (1 - 1e-9) ? g.dt : g.t1 - t, Tag()); if (!allfinite(y) || maxabs(y) > 1e8) break; check_close("state", pbt::str("observation ", k, " at t=", tr.t[k]), tr.x[k], y, 1e-11 * (1 + maxabs(y)) * (1 + 0.05 * k)); }
        else { RefF f{p}; LVec z = toL(x0), d; for (long k = 1; k <= n; ++k) { f(z, d, (LD)tr.t[k - 1]); for (size_t i = 0; i < z.size(); ++i) z[i] += d[i] * (k < n || sg * ((LD)g.t1 - (LD)tr.t[k - 1]) >= sg * (LD)g.dt ? (LD)g.dt : (LD)g.t1 - (LD)tr.t[k - 1]); double m = 0; for (auto v : z) m = std::max(m, (double)std::fabs(v)); if (!(m < 1e6)) break; check_close("state", pbt::str("observation ", k, " at t=", tr.t[k], " against the Euler polygon"), tr.x[k], z, (1e-11 + 1e-14 * sc) * (1 + m) * (1 + 0.05 * k)); } }
    }
    if (n >= 2 || g.cls != "several steps") s.nontrivial(); if (byref) s.label("stepper by reference");
    if (log->failed) s.label("rejected steps"); if (n > 50) s.label("more than 50 steps");
}
