// Modified midpoint, extrapolation stepper and Bulirsch-Stoer against Gragg's rule and the
// Aitken-Neville tableau evaluated in long double.
#include "gbs.hpp"
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
namespace od = boost::numeric::odeint;
struct Case { Prob p; Vec x, dx; double t, dt; };
static Case gen(pbt::Src& s, double dtmax) {
    rhs_reset(); Case c; int d = gen_dim(s); c.p = gen_prob(s, d, ALLKINDS, 1.2); c.x = s.vec(d, 1.5); c.t = s.flag(70) ? s.num(3) : s.num(200); c.dt = s.logmag(1e-3, dtmax); if (s.flag()) c.dt = -c.dt; c.dx.assign(d, 0); c.p.eval<double>(c.x, c.dx, c.t);
    s.note(c.p.describe()); s.note(" x", c.x); s.note("t", c.t); s.note("dt", c.dt); if (c.dt < 0) s.label("backward"); return c;
}
static double ulp(double x) { x = std::fabs(x); return x < 1e-300 ? 5e-324 : std::nextafter(x, INFINITY) - x; }
// rounding of midpoint runs with up to n substeps: stages are perturbed by ~eps*scale each and the
// accumulated time by ~n*ulp(t)/2; both act through f (|f_x|, |f_t|/|f| <= ~4) over the step
static double tol_of(const Case& c, LD scale, int n) { double sc = (double)(scale + 0.1L); return 2e-14 * sc * std::max(1.0, n / 8.0) * std::exp(2 * std::fabs(c.dt)) + n * 2.3e-16 * (std::fabs(c.t) + 1) * std::fabs(c.dt) * 4 * (1 + sc); }

SUITE(midpoint, 60000, 3000000, "at least three substeps of a problem that depends on the state or the time") {
    Case c = gen(src, 1.0); int n = (int)(src.flag(80) ? src.i(1, 12) : src.i(1, 60)); src.note("n", n); LD sc = 0; LVec want = gragg<LD>(RefF{c.p}, toL(c.x), (LD)c.t, (LD)c.dt, n, &sc);
    pbt::Poisoned<od::modified_midpoint<Vec>> st((unsigned short)(src.flag() ? n : 2)); st->set_steps(n); REQUIRE_K("steps", st->steps() == n, "steps() is ", st->steps(), " after set_steps(", n, ")"); Sys<Vec> sys(c.p); Vec out(c.x.size(), NAN), keep = c.x;
    if (src.flag(30)) { st->set_steps((int)src.i(1, 9)); Vec o(c.x.size()); st->do_step(sys, c.x, c.t + 0.5, o, 0.1); st->set_steps(n); src.label("used before"); }
    int form = (int)src.raw(4); src.note("form", form); long before = rhs_count().calls;
    switch (form) { case 0: st->do_step(sys, c.x, c.t, out, c.dt); break; case 1: st->do_step(sys, c.x, c.dx, c.t, out, c.dt); break; case 2: out = c.x; st->do_step(sys, out, c.t, c.dt); break; default: out = c.x; st->do_step(sys, out, c.dx, c.t, c.dt); }
    long used = rhs_count().calls - before; if (!allfinite(out) || maxabs(out) > 1e5) throw pbt::Discard();
    check_close("midpoint", pbt::str("modified midpoint with ", n, " substeps"), out, want, tol_of(c, sc, n)); REQUIRE_K("input_written", same_bits(keep, c.x), "input written");
    REQUIRE_K("evaluations", used == n + ((form & 1) ? 0 : 1), n, " substeps evaluated the right-hand side ", used, " times");
    if (n >= 3) src.nontrivial(); src.label(n == 1 ? "one substep" : n % 2 ? "odd" : "even");
}
template <int O> struct Ex { static void go(pbt::Src& s) {
    Case c = gen(s, 0.8); typedef od::extrapolation_stepper<O, Vec> St; pbt::Poisoned<St> st; Sys<Vec> sys(c.p); s.note("order", O);
    REQUIRE_K("order", st->order() == O && st->stepper_order() == O && st->error_order() == O - 2, "orders reported: ", st->order(), ",", st->stepper_order(), ",", st->error_order());
    std::vector<int> seq; for (int i = 1; i <= O / 2; ++i) seq.push_back(2 * i); LD sc = 0; auto T = gbs_table<LD>(RefF{c.p}, toL(c.x), (LD)c.t, (LD)c.dt, seq, &sc); int r = O / 2 - 1; LVec want = T[r][r], err(want.size()); for (size_t i = 0; i < err.size(); ++i) err[i] = T[r][r][i] - T[r][r - 1][i];
    size_t d = c.x.size(); Vec out(d, NAN), e(d, NAN), keep = c.x; bool witherr = false; if (s.flag(30)) { Vec o = c.x; st->do_step(sys, o, c.t - 0.3, 0.1); s.label("used before"); }
    int form = (int)s.raw(8); s.note("form", form);
    switch (form) {
    case 0: st->do_step(sys, c.x, c.t, out, c.dt); break; case 1: st->do_step(sys, c.x, c.dx, c.t, out, c.dt); break; case 2: out = c.x; st->do_step(sys, out, c.t, c.dt); break; case 3: out = c.x; st->do_step(sys, out, c.dx, c.t, c.dt); break;
    case 4: st->do_step(sys, c.x, c.t, out, c.dt, e); witherr = true; break; case 5: st->do_step(sys, c.x, c.dx, c.t, out, c.dt, e); witherr = true; break; case 6: out = c.x; st->do_step(sys, out, c.t, c.dt, e); witherr = true; break; default: out = c.x; st->do_step(sys, out, c.dx, c.t, c.dt, e); witherr = true; }
    if (!allfinite(out) || maxabs(out) > 1e5) throw pbt::Discard();
    double tol = 20 * tol_of(c, sc, O); check_close("extrapolation", pbt::str("order ", O, " step"), out, want, tol); REQUIRE_K("input_written", same_bits(keep, c.x), "input written");
    if (witherr) check_close("error_estimate", pbt::str("error estimate of order ", O), e, err, 2 * tol);
    s.nontrivial(); s.label(pbt::str("order ", O));
} };
SUITE(extrapolation, 60000, 3000000, "always: a step with at least two extrapolation rows was compared") {
    switch (src.raw(7)) { case 0: Ex<4>::go(src); break; case 1: Ex<6>::go(src); break; case 2: Ex<8>::go(src); break; case 3: Ex<10>::go(src); break; case 4: Ex<12>::go(src); break; case 5: Ex<14>::go(src); break; default: Ex<16>::go(src); }
}
struct Tols { double ea, er, ax, ad; };
static Tols gen_tols(pbt::Src& s) { Tols t; t.ea = s.logmag(1e-12, 1e-2); t.er = s.flag(25) ? 0 : s.logmag(1e-12, 1e-2); t.ax = s.pick({1.0, 1.0, 0.0, 2.5}); t.ad = s.pick({1.0, 1.0, 0.0, 0.3}); s.note("atol", t.ea); s.note("rtol", t.er); s.note("a_x", t.ax); s.note("a_dxdt", t.ad); return t; }
// scaled error of column k, with rounding noise bound in the same units
static void scaled(const Tols& tl, const Vec& x, const Vec& dx, double dt, const std::vector<std::vector<LVec>>& T, int k, double noise, LD& lo, LD& hi) {
    lo = hi = 0; for (size_t i = 0; i < x.size(); ++i) { LD den = (LD)tl.ea + (LD)tl.er * ((LD)tl.ax * std::fabs((LD)x[i]) + (LD)tl.ad * std::fabs((LD)dt * dx[i])); LD e = std::fabs(T[k][k][i] - T[k][k - 1][i]); hi = std::max(hi, (e + noise) / den); lo = std::max(lo, (e - noise) / den); }
}
SUITE(bulirsch_stoer, 40000, 2000000, "an accepted step used at least three tableau rows, or a step was rejected") {
    pbt::Src& s = src; Tols tl = gen_tols(s); Case c = gen(s, 3.0); pbt::Poisoned<od::bulirsch_stoer<Vec>> st(tl.ea, tl.er, tl.ax, tl.ad); Sys<Vec> sys(c.p); Vec x = c.x; double t = c.t, dt = c.dt; std::vector<int> seq; for (int i = 1; i <= 9; ++i) seq.push_back(2 * i); bool nt = false;
    for (int n = (int)s.i(1, 6), q = 0; q < n; ++q) {
        if (q && s.flag(20)) { dt = (dt < 0 ? -1 : 1) * s.logmag(1e-3, 3.0); s.note("dt'", dt); }
        c.t = t; c.dt = dt; c.x = x; c.p.eval<double>(x, c.dx, t); LD sc = 0; auto T = gbs_table<LD>(RefF{c.p}, toL(x), (LD)t, (LD)dt, seq, &sc); if (!(sc < 1e4)) break; double noise = 20 * tol_of(c, sc, 18);
        Vec in = x, out(x.size(), NAN), dx = c.dx; double t1 = t, dt1 = dt; int form = (int)s.raw(4); long before = rhs_count().calls; od::controlled_step_result r;
        switch (form) { case 0: r = st->try_step(sys, x, t1, dt1); break; case 1: r = st->try_step(sys, x, dx, t1, dt1); break; case 2: r = st->try_step(sys, in, t1, out, dt1); break; default: r = st->try_step(sys, in, dx, t1, out, dt1); }
        long used = rhs_count().calls - before - ((form & 1) ? 0 : 1), sum = 0; int k = -1; for (int i = 0; i < 9; ++i) { sum += seq[i]; if (sum == used) k = i; }
        REQUIRE_K("rows", k >= 1, "trial evaluated the right-hand side ", used, " times, which is no complete set of tableau rows");
        if (form >= 2 && r == od::success) x = out; LD lo, hi; scaled(tl, in, c.dx, dt, T, k, noise, lo, hi);
        if (r == od::success) { check_close("entry", pbt::str("accepted step from t=", t, " with dt=", dt, " using rows 0..", k, " x=", vstr(in)), x, T[k][k], noise); REQUIRE_K("tolerance", lo <= 1 + 1e-9L, "accepted step has scaled error ", (double)lo, " in row ", k); if (k >= 2) nt = true; s.label(pbt::str("rows ", k + 1)); }
        else { REQUIRE_K("rejected_good", hi >= 1 - 1e-9L, "rejected a step whose last row ", k, " has scaled error ", (double)hi); REQUIRE_K("failed_moved", t1 == t && same_bits(x, in), "failed step moved"); nt = true; s.label("rejected"); }
        t = t1; dt = dt1; if (std::fabs(dt) > 4) dt = dt < 0 ? -4 : 4; if (!std::isfinite(dt) || maxabs(x) > 1e3) break;
    }
    if (nt) s.nontrivial();
}
SUITE(bulirsch_stoer_dense, 30000, 1500000, "an accepted step used at least three tableau rows") {
    pbt::Src& s = src; Tols tl = gen_tols(s); Case c = gen(s, 3.0); pbt::Poisoned<od::bulirsch_stoer_dense_out<Vec>> st(tl.ea, tl.er, tl.ax, tl.ad, 0.0, s.flag(25)); Sys<Vec> sys(c.p); std::vector<int> seq; for (int i = 0; i < 9; ++i) seq.push_back(2 + 4 * i); bool nt = false; Vec x = c.x;
    st->initialize(x, c.t, c.dt);
    for (int n = (int)s.i(1, 5), q = 0; q < n; ++q) {
        if (std::fabs(st->current_time_step()) > 4) break; // outside the region where the reference is cheap
        std::pair<double, double> r = st->do_step(sys); Vec y = st->current_state(); double h = r.second - r.first; c.x = x; c.t = r.first; c.p.eval<double>(x, c.dx, c.t);
        // the step size is only known as a difference of times: allow for that
        LD sc = 0; c.dt = h; if (std::fabs(h) < 1e-9) break; auto T = gbs_table<LD>(RefF{c.p}, toL(x), (LD)c.t, (LD)h, seq, &sc); if (!(sc < 1e4) || !allfinite(y)) break; double noise = 20 * tol_of(c, sc, 34) + 4 * maxabs(c.dx) * ulp(std::max(std::fabs(r.first), std::fabs(r.second)));
        int hit = -1; LD lo = 0, hi = 0; LD best = INFINITY; for (int k = 1; k < 9; ++k) { if (maxdiff(y, T[k][k]) > noise) continue; scaled(tl, x, c.dx, h, T, k, noise, lo, hi); if (lo <= 1 + 1e-9L && hit < 0) hit = k; best = std::min(best, lo); }
        REQUIRE_K("dense_entry", hit >= 0, "step [", r.first, ",", r.second, "] from ", vstr(x), " gives ", vstr(y), ", which is no diagonal entry of the tableau that meets the tolerance (", std::isinf((double)best) ? std::string("no entry agrees; entry 3 is ") + vstr(toD(T[3][3])) : pbt::str("scaled error ", (double)best), ")");
        if (hit >= 2) nt = true; s.label(pbt::str("rows ", hit + 1)); x = y; if (maxabs(x) > 1e3) break;
    }
    if (nt) s.nontrivial();
}
