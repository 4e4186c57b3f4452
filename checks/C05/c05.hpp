#include "prob.hpp"
#include <boost/numeric/odeint/config.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/ref.hpp>
namespace od = boost::numeric::odeint;
#define C05_RULE "at least one trial step was accepted and the trajectory saw a rejection, a growth or the maximum step"
struct Tol { double ea, er, ax, ad, maxdt; };
inline Tol gen_tol(pbt::Src& s, double lo = 1e-11, double hi = 1e-1) {
    Tol t; t.ea = s.logmag(lo, hi); t.er = s.flag(25) ? 0 : s.logmag(lo, hi); if (t.er && s.flag(15)) t.ea = 0;
    t.ax = s.pick({1.0, 1.0, 0.0, 2.5}); t.ad = s.pick({1.0, 1.0, 0.0, 0.3, 4.0}); if (t.ea == 0 && t.ax == 0 && t.ad == 0) t.ax = 1; t.maxdt = 0; return t;
}
// closed interval contains, relative
inline bool approx(LD a, LD b, LD rel) { return std::fabs(a - b) <= rel * std::max(std::fabs(a), std::fabs(b)); }

// Truth about one trial: state, error estimate (from the plain stepper) and the scaled error
struct Trial { Vec out, err, dout; bool has_dout = false; };
// Run: a trajectory of trial steps. Under(sys,x,dxdt,t,dt)->Trial uses a plain error stepper.
// Ctl(form, sys, x, dxdt, t, dt, out, dout) -> result; forms 0..F-1. 
template <class Under, class Ctl, class Reset> void c05_rk(pbt::Src& s, const Tol& tol, int p, int q, bool fsal, int forms, Under under, Ctl ctl, Reset reset) {
    rhs_reset(); int d = (int)s.i(1, 5); Prob pr = gen_prob(s, d, ALLKINDS, 1.3); Sys<Vec> sys(pr);
    Vec x = s.vec(d, 2.0); double t = s.flag(70) ? s.num(3) : s.num(500); int sg = tol.maxdt < 0 ? -1 : tol.maxdt > 0 ? 1 : s.flag() ? -1 : 1; double dt = sg * s.logmag(1e-4, 1.5);
    int form = (int)s.raw(forms); long n = s.i(1, 10); bool keep = s.flag(70); s.note("atol", tol.ea); s.note("rtol", tol.er); s.note("a_x", tol.ax); s.note("a_dxdt", tol.ad); s.note("max_dt", tol.maxdt); s.note("form", form); s.note(pr.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt);
    Vec dxdt(d); pr.eval<double>(x, dxdt, t); reset(form, sys, x, dxdt, t); bool acc = false, other = false;
    for (long k = 0; k < n; ++k) {
        if (k && !keep && s.flag(50)) { dt = sg * s.logmag(1e-4, 1.5); s.note("dt'", dt); }
        Vec in = x, din = dxdt, out(d, NAN), dout(d, NAN); double t1 = t, dt1 = dt; long before = rhs_count().calls;
        Vec xin = x, dxin = dxdt;
        od::controlled_step_result r = ctl(form, sys, xin, dxin, t1, dt1, out, dout); // in-place forms copy xin to out
        long used = rhs_count().calls - before;
        REQUIRE_K("step_sign", dt1 * sg > 0, "dt ", dt, " became ", dt1);
        if (tol.maxdt && std::fabs(dt) > std::fabs(tol.maxdt) * (1 + 1e-13)) {
            REQUIRE_K("max_dt", r == od::fail && dt1 == tol.maxdt && t1 == t, "step ", dt, " beyond the maximum ", tol.maxdt, " gives result ", (r == od::success ? "success" : "fail"), " dt=", dt1, " t=", t1, " (was ", t, ")");
            REQUIRE_K("max_dt", same_bits(in, xin) && same_bits(din, dxin), "state or derivative changed by a step refused for its length");
            (void)used; dt = dt1; other = true; s.label("step longer than the maximum"); continue;
        }
        if (tol.maxdt) REQUIRE_K("max_dt", std::fabs(dt1) <= std::fabs(tol.maxdt), "proposed step ", dt1, " exceeds the maximum ", tol.maxdt);
        Trial tr = under(sys, in, din, t, dt); LD err = 0; bool big = false;
        for (int i = 0; i < d; ++i) { LD den = (LD)tol.ea + (LD)tol.er * ((LD)tol.ax * std::fabs((LD)in[i]) + (LD)tol.ad * std::fabs((LD)dt) * std::fabs((LD)din[i])); LD e = std::fabs((LD)tr.err[i]) / den; if (!std::isfinite((double)e)) big = true; err = std::max(err, e); }
        if (big || !allfinite(tr.out)) throw pbt::Discard();
        const LD rel = 1e-9L;
        if (err > 1 + rel) REQUIRE_K("accepted_bad_step", r == od::fail, "step ", k, " with scaled error ", (double)err, " was accepted (dt=", dt, ")");
        if (err < 1 - rel) REQUIRE_K("rejected_good_step", r == od::success, "step ", k, " with scaled error ", (double)err, " was rejected (dt=", dt, ")");
        if (r == od::success) {
            REQUIRE_K("time", t1 == t + dt, "time became ", t1, " from ", t, " with dt=", dt);
            check_close("state", pbt::str("accepted state of trial ", k), out, tr.out, 1e-13 * (1 + maxabs(tr.out)) * (1 + std::fabs(dt)));
            if (tr.has_dout) { double sc = maxabs(tr.dout); if (!std::isnan(dout[0])) check_close("derivative", pbt::str("derivative after trial ", k), dout, tr.dout, 1e-11 * (1 + sc)); }
            LD f = err < 0.5L ? 0.9L * std::pow(std::max(err, std::pow(5.0L, -(LD)p)), -1.0L / p) : 1; LD alt = std::fabs(err - 0.5L) < rel ? 0.9L * std::pow(0.5L, -1.0L / p) : f; LD alt2 = std::fabs(err - 0.5L) < rel ? 1 : f;
            auto lim = [&](LD v) { v *= dt; if (tol.maxdt && err < 0.5L + rel && std::fabs(v) > std::fabs((LD)tol.maxdt)) v = tol.maxdt; return v; };
            REQUIRE_K("growth", approx(dt1, lim(f), 1e-9L) || approx(dt1, lim(alt), 1e-9L) || approx(dt1, lim(alt2), 1e-9L), "after scaled error ", (double)err, " the step went from ", dt, " to ", dt1, ", expected ", (double)lim(f));
            acc = true; if (dt1 != dt) { other = true; s.label("step grew"); } if (err < std::pow(5.0L, -(LD)p)) s.label("maximal growth");
            x = out; t = t1; if (tr.has_dout) dxdt = tr.dout; else { pr.eval<double>(x, dxdt, t); }
            if (!fsal) pr.eval<double>(x, dxdt, t); else if (!std::isnan(dout[0])) dxdt = dout;
        } else {
            REQUIRE_K("failed_step_moved", t1 == t && same_bits(in, xin) && same_bits(din, dxin), "failed trial changed time ", t, " -> ", t1, " or state ", vstr(in), " -> ", vstr(xin), " or derivative");
            LD f = std::max(0.9L * std::pow(err, -1.0L / (q - 1)), 0.2L); REQUIRE_K("shrink", approx(dt1, f * dt, 1e-9L) , "after scaled error ", (double)err, " the step went from ", dt, " to ", dt1, ", expected ", (double)(f * dt));
            REQUIRE_K("shrink", std::fabs(dt1) < std::fabs(dt), "failed step did not shrink: ", dt, " -> ", dt1); other = true; s.label("rejected"); if (f == 0.2L) s.label("maximal shrink");
        }
        dt = dt1; if (std::fabs(dt) > 3) dt = sg * 3 * s.mag(0.01, 0.5); if (tol.maxdt && std::fabs(dt) > std::fabs(tol.maxdt) && keep) dt = tol.maxdt; if (!allfinite(x) || maxabs(x) > 1e8) break;
    }
    if (acc && other) s.nontrivial(); if (sg < 0) s.label("backward"); if (tol.maxdt) s.label("maximum step set");
}
