#include "accuracy.hpp"
#include <boost/numeric/odeint/config.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
#include <boost/ref.hpp>
#define C11_RULE "at least two steps were taken and a state strictly inside a step was queried, or the stepper was re-initialised"
// Adapter: what differs between the dense-output steppers
//   X (state), toV / fromV, sys(p): system object, exact_ends, interior(...) oracle, underlying controlled step
template <class A> void c11_history(pbt::Src& s, A ad) {
    typedef typename A::X X; rhs_reset(); Prob p = gen_prob(s, (int)s.i(1, 4), ALLKINDS, 1.2); auto sys = ad.sys(p); Vec x0 = s.vec(p.d, 1.5); double t0 = gen_t0(s, false); int sg = s.flag() ? -1 : 1; double dt0 = sg * s.logmag(1e-3, ad.maxdt);
    s.note(ad.describe()); s.note(p.describe()); s.note(" x0", x0); s.note("t0", t0); s.note("dt0", dt0);
    auto proto = ad.make(); typedef decltype(proto) D; std::unique_ptr<D> stp(new D(proto)), twp(new D(ad.make())); X xi = ad.fromV(x0); stp->initialize(xi, t0, dt0); twp->initialize(xi, t0, dt0); auto ctl0 = ad.control(x0, t0, dt0, sys); typedef decltype(ctl0) Ctl; std::unique_ptr<Ctl> cp_(new Ctl(ctl0));
#define st (*stp)
#define twin (*twp)
#define ctl (*cp_)
    
    REQUIRE_K("initialize", same_bits(ad.toV(st.current_state()), x0) && st.current_time() == t0 && st.current_time_step() == dt0, "after initialize: state ", vstr(ad.toV(st.current_state())), " time ", st.current_time(), " step ", st.current_time_step());
    int n = (int)s.i(1, 12); bool inner = false, reinit = false; int steps = 0; double tcur = t0; Vec xcur = x0; bool byref = s.flag(30);
    for (int k = 0; k < n; ++k) {
        if (k && s.raw(10) == 9) { // restart: both the used stepper and a brand-new one
            Vec y0 = s.vec(p.d, 1.5); double t1 = gen_t0(s, false); sg = s.flag() ? -1 : 1; double dt1 = sg * s.logmag(1e-3, ad.maxdt); X yi = ad.fromV(y0); s.note("reinit x", y0); s.note("t", t1); s.note("dt", dt1); if (s.flag()) st.initialize(yi, t1, dt1); else { stp.reset(new D(D(st))); st.initialize(yi, t1, dt1); }
            twp.reset(new D(ad.make())); twin.initialize(yi, t1, dt1); cp_.reset(new Ctl(ad.control(y0, t1, dt1, sys))); tcur = t1; xcur = y0; reinit = true; s.label("re-initialised"); 
        }
        double h = st.current_time_step(); (void)h; std::pair<double, double> r = byref ? st.do_step(boost::ref(sys)) : st.do_step(sys); ++steps; Vec xc = ad.toV(st.current_state()), xp = ad.toV(st.previous_state());
        if (!allfinite(xc) || maxabs(xc) > 1e4) break;
        REQUIRE_K("times", r.first == st.previous_time() && r.second == st.current_time() && r.first == tcur, "step pair (", r.first, ",", r.second, "), previous_time ", st.previous_time(), " current_time ", st.current_time(), ", the last step ended at ", tcur);
        REQUIRE_K("direction", (r.second - r.first) * sg > 0 && st.current_time_step() * sg > 0, "step from ", r.first, " to ", r.second, " next dt ", st.current_time_step());
        REQUIRE_K("previous_state", same_bits(xp, xcur), "previous_state ", vstr(xp), " is not the state the step started from ", vstr(xcur));
        ctl.step(sys); REQUIRE_K("underlying", ctl.matches(xc, r.second, st.current_time_step()), "the step ends at t=", r.second, " dt=", st.current_time_step(), " x=", vstr(xc), "; ", ctl.describe());
        std::pair<double, double> r2 = twin.do_step(sys); REQUIRE_K("queries_disturb", r2 == r && same_bits(ad.toV(twin.current_state()), xc) && twin.current_time_step() == st.current_time_step(), "a stepper that was only stepped went to t=", r2.second, " dt=", twin.current_time_step(), " x=", vstr(ad.toV(twin.current_state())), "; the queried or re-initialised one to t=", r.second, " dt=", st.current_time_step(), " x=", vstr(xc));
        int q = (int)s.i(0, 4); double last = NAN; Vec lastx;
        for (int j = 0; j < q; ++j) {
            double th = s.pick({0.0, 1.0, 0.5, -1.0}); if (th == -1.0) th = s.mag(0, 1); double t = th == 0 ? r.first : th == 1 ? r.second : r.first + th * (r.second - r.first);
            X out = ad.fromV(Vec(p.d, 7.0)); st.calc_state(t, out); Vec o = ad.toV(out);
            ad.interior(p, xp, r.first, xc, r.second, t, o, *(&st));
            X out2 = ad.fromV(Vec(p.d, -3.0)); auto cp = st; cp.calc_state(t, out2); REQUIRE_K("copy_interpolates", same_bits(o, ad.toV(out2)), "a copy interpolates ", vstr(ad.toV(out2)), " instead of ", vstr(o), " at t=", t);
            if (!std::isnan(last) && s.flag()) { X o3 = ad.fromV(Vec(p.d, 0.0)); st.calc_state(last, o3); REQUIRE_K("repeat_query", same_bits(ad.toV(o3), lastx), "second query at t=", last, " gives ", vstr(ad.toV(o3)), " instead of ", vstr(lastx)); }
            last = t; lastx = o; if (t != r.first && t != r.second) inner = true;
        }
        REQUIRE_K("queries_disturb", same_bits(xc, ad.toV(st.current_state())) && same_bits(xp, ad.toV(st.previous_state())) && st.current_time() == r.second && st.previous_time() == r.first, "queries changed the stored states or times");
        tcur = r.second; xcur = xc; if (std::fabs(tcur - t0) > 30) break;
    }
    if ((steps >= 2 && inner) || reinit) s.nontrivial(); if (sg < 0) s.label("backward"); if (ctl.rejected) s.label("rejected trial steps");
}
#undef st
#undef twin
#undef ctl
struct NoControl { bool rejected = false; template <class S> void step(S&) {} bool matches(const Vec&, double, double) { return true; } std::string describe() { return ""; } };
// interpolation is exact for solutions that are polynomials of the given degree in t
template <class A> void c11_poly(pbt::Src& s, A ad, int degree) {
    typedef typename A::X X; rhs_reset(); int d = (int)s.i(1, 3); double t0 = gen_t0(s, false); if (std::fabs(t0) > 12) t0 = std::fmod(t0, 12); int sg = s.flag() ? -1 : 1; double dt = sg * s.logmag(0.02, ad.maxdt), tr = t0; int g = (int)s.i(0, degree); std::vector<Vec> c; for (int i = 0; i < d; ++i) c.push_back(s.vec(g + 1, 1.5));
    auto val = [&](int i, LD t) { LD v = 0; for (int k = g; k >= 0; --k) v = v * (t - tr) + (LD)c[i][k]; return v; }; auto der = [&](int i, LD t) { LD v = 0; for (int k = g; k >= 1; --k) v = v * (t - tr) + k * (LD)c[i][k]; return v; }; auto der2 = [&](int i, LD t) { LD v = 0; for (int k = g; k >= 2; --k) v = v * (t - tr) + k * (k - 1) * (LD)c[i][k]; return v; };
    s.note(ad.describe()); s.note("degree", g); s.note("t0", t0); s.note("dt", dt); for (auto& v : c) s.note("c", v);
    auto st = ad.make(); Vec x0(d); for (int i = 0; i < d; ++i) x0[i] = (double)val(i, t0); X xi = ad.fromV(x0); st.initialize(xi, t0, dt); auto sys = ad.quad(der, der2);
    for (int k = 0, n = (int)s.i(1, 4); k < n; ++k) { auto r = st.do_step(sys); if (std::fabs(r.second - t0) > 10) break; 
        for (int j = 0; j < 3; ++j) { double th = s.mag(0, 1), t = r.first + th * (r.second - r.first); X o = ad.fromV(Vec(d, 0.0)); st.calc_state(t, o); LVec w(d); double m = 0; for (int i = 0; i < d; ++i) { w[i] = val(i, t); for (int e = 0; e <= g; ++e) m += std::fabs(c[i][e]) * std::pow(std::max(std::fabs(r.second - tr), 1.0), e); }
            check_close("polynomial", pbt::str("interpolation at theta=", th, " of step [", r.first, ",", r.second, "]"), ad.toV(o), w, ad.polytol * (1 + m)); } }
    if (g >= 2) s.nontrivial(); s.label(pbt::str("degree ", g));
}
