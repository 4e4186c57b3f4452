#include "c05.hpp"
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
using namespace boost::numeric::odeint;
typedef boost::numeric::ublas::vector<double> UV; typedef boost::numeric::ublas::matrix<double> UM;
static Vec uv(const UV& v) { return Vec(v.begin(), v.end()); }
struct JSys { Prob p; void f(const UV& x, UV& dx, double t) const { rhs_tick(); p.eval<double>(x, dx, t); }
    void j(const UV& x, UM& J, double t, UV& ft) const { size_t n = x.size(); std::vector<LD> y(n), a(n), b(n); for (size_t i = 0; i < n; ++i) y[i] = x[i];
        const LD h = 1e-6L; for (size_t k = 0; k < n; ++k) { LD s = y[k]; y[k] = s + h; p.eval<LD>(y, a, (LD)t); y[k] = s - h; p.eval<LD>(y, b, (LD)t); y[k] = s; for (size_t i = 0; i < n; ++i) J(i, k) = (double)((a[i] - b[i]) / (2 * h)); }
        p.eval<LD>(y, a, (LD)t + h); p.eval<LD>(y, b, (LD)t - h); for (size_t i = 0; i < n; ++i) ft[i] = (double)((a[i] - b[i]) / (2 * h)); } };
SUITE(rosenbrock, 40000, 2000000, C05_RULE) {
    rhs_reset(); pbt::Src& s = src; int d = (int)s.i(1, 4); JSys js{gen_prob(s, d, ALLKINDS, 1.5)}; if (s.flag(25)) for (auto& a : js.p.A) a *= 20;
    double at = s.logmag(1e-10, 1e-1), rt = s.flag(25) ? 0 : s.logmag(1e-10, 1e-1), maxdt = 0; if (s.flag(30)) maxdt = (s.flag() ? -1 : 1) * s.logmag(0.02, 0.8);
    typedef rosenbrock4<double> St; typedef rosenbrock4_controller<St> C; pbt::Poisoned<C> c(at, rt, maxdt); pbt::Poisoned<St> u;
    Vec x0 = s.vec(d, 2.0); UV x(d); for (int i = 0; i < d; ++i) x[i] = x0[i]; double t = s.flag(70) ? s.num(3) : s.num(500); int sg = maxdt < 0 ? -1 : maxdt > 0 ? 1 : s.flag() ? -1 : 1; double dt = sg * s.logmag(1e-3, 1.5); long n = s.i(1, 10); bool keep = s.flag(70); bool outp = s.flag();
    s.note("atol", at); s.note("rtol", rt); s.note("max_dt", maxdt); s.note(js.p.describe()); s.note(" x", x0); s.note("t", t); s.note("dt", dt);
    auto f = [&](const UV& a, UV& b, double tt) { js.f(a, b, tt); }; auto jac = [&](const UV& a, UM& b, double tt, UV& c2) { js.j(a, b, tt, c2); }; auto sys = std::make_pair(f, jac);
    bool first = true, lastrej = false, acc = false, other = false; LD eold = 0, hold = 0;
    for (long k = 0; k < n; ++k) {
        if (k && !keep && s.flag(50)) { dt = sg * s.logmag(1e-3, 1.5); s.note("dt'", dt); }
        UV in = x, out(d, NAN), xi = x; double t1 = t, dt1 = dt; controlled_step_result r = outp ? c->try_step(sys, xi, t1, out, dt1) : c->try_step(sys, xi, t1, dt1);
        if (outp) REQUIRE_K("input_written", same_bits(uv(in), uv(xi)), "the input state of an out-of-place trial changed"); else if (r == success) { out = xi; xi = in; }
        if (!std::isfinite(dt1)) throw pbt::Discard();
        REQUIRE_K("step_sign", dt1 * sg > 0, "dt ", dt, " became ", dt1);
        if (maxdt && std::fabs(dt) > std::fabs(maxdt) * (1 + 1e-13)) { REQUIRE_K("max_dt", r == fail && dt1 == maxdt && t1 == t && same_bits(uv(in), uv(xi)), "step ", dt, " beyond the maximum ", maxdt, " gives dt=", dt1, " t=", t1, " or changed the state"); dt = dt1; other = true; s.label("step longer than the maximum"); continue; }
        UV o(d), e(d); u->do_step(sys, in, t, o, dt, e); LD sum = 0; for (int i = 0; i < d; ++i) { LD sk = (LD)at + (LD)rt * std::max(std::fabs((LD)in[i]), std::fabs((LD)o[i])); sum += (LD)e[i] * e[i] / sk / sk; }
        LD err = std::sqrt(sum / d); if (!std::isfinite((double)err)) throw pbt::Discard(); const LD rel = 1e-9L;
        if (err > 1 + rel) REQUIRE_K("accepted_bad_step", r == fail, "step ", k, " with scaled error ", (double)err, " was accepted (dt=", dt, ")");
        if (err < 1 - rel) REQUIRE_K("rejected_good_step", r == success, "step ", k, " with scaled error ", (double)err, " was rejected (dt=", dt, ")");
        auto cl = [](LD v) { return std::max(1.0L / 6, std::min(5.0L, v)); }; LD fac = cl(std::pow(err, 0.25L) / 0.9L);
        if (r == success) {
            REQUIRE_K("time", t1 == t + dt, "time became ", t1, " from ", t, " with dt=", dt); check_close("state", pbt::str("accepted state of trial ", k), uv(out), uv(o), 1e-12 * (1 + maxabs(uv(o))));
            if (!first) fac = std::max(fac, cl((hold / dt) * std::pow(err * err / eold, 0.25L) / 0.9L));
            LD nd = dt / fac; if (lastrej && std::fabs(nd) > std::fabs((LD)dt)) nd = dt; if (maxdt && std::fabs(nd) > std::fabs((LD)maxdt)) nd = maxdt;
            REQUIRE_K("growth", approx(dt1, nd, 1e-8L), "after scaled error ", (double)err, " the step went from ", dt, " to ", dt1, ", expected ", (double)nd);
            first = false; lastrej = false; hold = dt; eold = std::max(0.01L, err); acc = true; if (std::fabs(dt1) > std::fabs(dt)) { other = true; s.label("step grew"); } x = out; t = t1;
        } else {
            REQUIRE_K("failed_step_moved", t1 == t && same_bits(uv(in), uv(xi)), "failed trial changed time or state"); REQUIRE_K("shrink", approx(dt1, dt / fac, 1e-8L) , "after scaled error ", (double)err, " the step went from ", dt, " to ", dt1, ", expected ", (double)(dt / fac));
            lastrej = true; other = true; s.label("rejected");
        }
        dt = dt1; if (std::fabs(dt) > 3) dt = sg * 3 * s.mag(0.01, 0.5); Vec xx = uv(x); if (!allfinite(xx) || maxabs(xx) > 1e8) break;
    }
    if (acc && other) s.nontrivial(); if (sg < 0) s.label("backward"); if (maxdt) s.label("maximum step set");
}
// Bulirsch-Stoer: the contract (what is accepted is decided by C17 and C06)
SUITE(bs, 40000, 2000000, C05_RULE) {
    rhs_reset(); pbt::Src& s = src; Tol tol = gen_tol(s); if (s.flag(30)) tol.maxdt = (s.flag() ? -1 : 1) * s.logmag(0.05, 1.5);
    int d = (int)s.i(1, 4); Prob pr = gen_prob(s, d, ALLKINDS, 1.3); Sys<Vec> sys(pr); Vec x = s.vec(d, 2.0); double t = s.flag(70) ? s.num(3) : s.num(500); int sg = tol.maxdt < 0 ? -1 : tol.maxdt > 0 ? 1 : s.flag() ? -1 : 1; double dt = sg * s.logmag(1e-3, 6); int form = (int)s.raw(5); long n = s.i(1, 12); bool keep = s.flag(70);
    typedef od::bulirsch_stoer<Vec> St; pbt::Poisoned<St> c(tol.ea, tol.er, tol.ax, tol.ad, tol.maxdt); bool acc = false, other = false; int fails = 0;
    s.note("atol", tol.ea); s.note("rtol", tol.er); s.note("a_x", tol.ax); s.note("a_dxdt", tol.ad); s.note("max_dt", tol.maxdt); s.note("form", form); s.note(pr.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt);
    for (long k = 0; k < n; ++k) {
        if (k && !keep && s.flag(40)) { dt = sg * s.logmag(1e-3, 6); fails = 0; s.note("dt'", dt); }
        Vec in = x, out(d, NAN), dx(d); pr.eval<double>(x, dx, t); Vec din = dx; double t1 = t, dt1 = dt; controlled_step_result r; long before = rhs_count().calls;
        switch (form) { case 0: r = c->try_step(sys, x, t1, dt1); break; case 1: r = c->try_step(sys, x, dx, t1, dt1); break; case 2: r = c->try_step(sys, x, t1, out, dt1); break; case 3: r = c->try_step(sys, x, dx, t1, out, dt1); break; default: r = c->try_step(boost::ref(sys), std::make_pair(x.begin(), x.end()), t1, dt1); }
        long used = rhs_count().calls - before; if (!std::isfinite(dt1)) throw pbt::Discard();
        if (form == 2 || form == 3) REQUIRE_K("input_written", same_bits(in, x), "the input state of an out-of-place trial changed"); else { out = x; if (r == success) x = in; }
        REQUIRE_K("input_written", same_bits(din, dx), "the supplied derivative changed"); REQUIRE_K("step_sign", dt1 * sg > 0, "dt ", dt, " became ", dt1);
        if (tol.maxdt && std::fabs(dt) > std::fabs(tol.maxdt) * (1 + 1e-13)) { REQUIRE_K("max_dt", r == fail && dt1 == tol.maxdt && t1 == t && same_bits(in, x), "step ", dt, " beyond the maximum ", tol.maxdt, " gives dt=", dt1, " t=", t1, " or changed the state"); dt = dt1; other = true; s.label("step longer than the maximum"); continue; }
        if (tol.maxdt) REQUIRE_K("max_dt", std::fabs(dt1) <= std::fabs(tol.maxdt), "proposed step ", dt1, " exceeds the maximum ", tol.maxdt);
        (void)used; if (r == success) { REQUIRE_K("time", t1 == t + dt, "time became ", t1, " from ", t, " with dt=", dt); if (!allfinite(out)) throw pbt::Discard();
            REQUIRE_K("growth", std::fabs(dt1) <= 10 * std::fabs(dt), "step grew from ", dt, " to ", dt1); acc = true; if (std::fabs(dt1) > std::fabs(dt)) { other = true; s.label("step grew"); } x = out; t = t1; fails = 0; }
        else { REQUIRE_K("failed_step_moved", t1 == t && same_bits(in, x), "failed trial changed time or state"); REQUIRE_K("shrink", std::fabs(dt1) < std::fabs(dt), "failed step did not shrink: ", dt, " -> ", dt1); other = true; s.label("rejected"); REQUIRE_K("no_progress", ++fails < 60, "60 rejections in a row"); }
        dt = dt1; if (std::fabs(dt) > 8) dt = sg * 8 * s.mag(0.01, 0.5); if (!allfinite(x) || maxabs(x) > 1e6) break;
    }
    if (acc && other) s.nontrivial(); if (sg < 0) s.label("backward"); if (tol.maxdt) s.label("maximum step set");
}
