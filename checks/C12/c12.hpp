#ifndef C12_HPP
#define C12_HPP
#include "rep.hpp"
#define C12_RULE "the state moved and at least two steps were taken; the two runs hold the state in different types"
// a run that ends in one of odeint's exceptions (order/step search given up at a blow-up) is not comparable: the trial at which it happens depends on rounding
#define GIVEUP(EXPR) try { EXPR; } catch (const std::runtime_error&) { throw pbt::Discard(); }
#define GIVEUP2(EXPR) try { EXPR; } catch (const std::runtime_error&) { if (c.p.kind == K_QUAD) throw pbt::Discard(); throw; } // only near a blow-up
struct Run { std::vector<LVec> x; std::vector<double> t, dt; std::vector<int> res; };
struct Case12 { Prob p; Vec x0; double t0; std::vector<double> dts; std::vector<int> op; double at, rt; double maxdt; };
template <class R> LVec ld(const typename R::state& x) { auto v = R::get(x); LVec r; for (auto& e : v) r.push_back(Conv<typename R::num>::ld(e)); return r; }
inline Case12 gen12(pbt::Src& s, int d, double dtmax, int maxsteps) {
    rhs_reset(); Case12 c; c.p = gen_prob(s, d, ALLKINDS, 1.2); c.x0 = s.vec(d, 1.5); c.t0 = s.raw(3) ? s.num(3) : 0; int n = (int)s.i(1, maxsteps); double dt = s.logmag(dtmax / 50, dtmax); if (s.flag()) dt = -dt;
    bool vary = s.flag(30); for (int k = 0; k < n; ++k) { c.dts.push_back(vary ? dt * s.mag(0.3, 1.5) : dt); c.op.push_back((int)s.raw(4)); }
    c.at = s.logmag(1e-10, 1e-2); c.rt = s.logmag(1e-10, 1e-2); c.maxdt = s.flag(25) ? std::fabs(dt) * s.mag(0.5, 3) * (dt < 0 ? -1 : 1) : 0;
    s.note(c.p.describe()); s.note("x0", c.x0); s.note("t0", c.t0); s.note("dts", c.dts); return c;
}
// plain steppers. op: 0 in place, 1 out of place, 2 in place on a copy of the stepper, 3 in place
// (the out-of-place form is documented as unavailable when the state type equals the time type)
template <class R, class St, class Sy> void oop_step(St& st, const Sy& sys, typename R::state& x, double t, double dt, const Vec& x0, std::true_type) { typename R::state y(R::mk(x0)); st.do_step(sys, x, R::T(t), y, R::T(dt)); x = y; }
template <class R, class St, class Sy> void oop_step(St& st, const Sy& sys, typename R::state& x, double t, double dt, const Vec&, std::false_type) { st.do_step(sys, x, R::T(t), R::T(dt)); }
template <class R, class St> Run run_plain(const St& st0, const Case12& c, bool oop) { // copies are copy-constructed: assignment is left to the state type (multi_array requires equal shapes)
    std::shared_ptr<St> st(new St(st0)); Run r; typename R::state x = R::mk(c.x0); RSys<R> sys{&c.p}; double t = c.t0;
    for (size_t k = 0; k < c.dts.size(); ++k) {
        if (oop && c.op[k] == 1) oop_step<R>(*st, sys, x, t, c.dts[k], c.x0, std::integral_constant<bool, R::oop>());
        else if (c.op[k] == 2) { std::shared_ptr<St> cp(new St(*st)); cp->do_step(sys, x, R::T(t), R::T(c.dts[k])); st = cp; }
        else st->do_step(sys, x, R::T(t), R::T(c.dts[k]));
        t += c.dts[k]; r.x.push_back(ld<R>(x)); r.t.push_back(t);
    }
    return r;
}
template <class R, class St> Run run_error(St st, const Case12& c) { // with error estimate
    Run r; typename R::state x = R::mk(c.x0), e = R::mk(c.x0); RSys<R> sys{&c.p}; double t = c.t0;
    for (size_t k = 0; k < c.dts.size(); ++k) { st.do_step(sys, x, R::T(t), R::T(c.dts[k]), e); t += c.dts[k]; r.x.push_back(ld<R>(x)); r.x.push_back(ld<R>(e)); r.t.push_back(t); }
    return r;
}
// per-trial mode: before every trial the run in the other type is put back on the reference run, so that only
// the effect of one trial is compared (for representations that round differently from the reference)
template <class R, class St, class Sr> void run_sync(const St& st0, const Sr& sr0, const Case12& c, Run& ra, Run& rb, bool fresh = false) { // fresh: the order of the next trial depends discontinuously on work estimates (Bulirsch-Stoer), so every trial starts from a new stepper and its proposal is not compared
    std::shared_ptr<St> st(new St(st0)); std::shared_ptr<Sr> sr(new Sr(sr0)); typename R::state x = R::mk(c.x0); RSys<R> sys{&c.p}; RSys<RVec> syr{&c.p}; Vec xr = c.x0; double t = c.t0, dt = c.dts[0];
    for (size_t k = 0; k < c.dts.size() * 3; ++k) {
        if (fresh) { st.reset(new St(st0)); sr.reset(new Sr(sr0)); } else if (c.op[k % c.op.size()] == 2) { st = std::shared_ptr<St>(new St(*st)); sr = std::shared_ptr<Sr>(new Sr(*sr)); }
        x = R::mk(xr); typename R::time ta = R::T(t), dta = R::T(dt); ra.res.push_back(st->try_step(sys, x, ta, dta)); rb.res.push_back(sr->try_step(syr, xr, t, dt));
        ra.x.push_back(ld<R>(x)); rb.x.push_back(ld<RVec>(xr)); ra.t.push_back((double)R::D(ta)); rb.t.push_back(t); if (!fresh) { ra.dt.push_back((double)R::D(dta)); rb.dt.push_back(dt); } if (ra.res.back() != rb.res.back()) break; if (std::fabs(t) > 60 || std::fabs(dt) > 1 || !allfinite(rb.x.back())) break; // a step far beyond 1/L amplifies rounding by (L dt)^stages within the step
    }
}
template <class R, class St> Run run_ctrl(const St& st0, const Case12& c) {
    std::shared_ptr<St> st(new St(st0)); Run r; typename R::state x = R::mk(c.x0); RSys<R> sys{&c.p}; typename R::time t = R::T(c.t0), dt = R::T(c.dts[0]);
    for (size_t k = 0; k < c.dts.size() * 3; ++k) { if (c.op[k % c.op.size()] == 2) { std::shared_ptr<St> cp(new St(*st)); r.res.push_back(cp->try_step(sys, x, t, dt)); st = cp; } else r.res.push_back(st->try_step(sys, x, t, dt)); r.x.push_back(ld<R>(x)); r.t.push_back((double)R::D(t)); r.dt.push_back((double)R::D(dt)); if (std::fabs((double)R::D(dt)) > 20 || !allfinite(r.x.back())) break; }
    return r;
}
template <class R, class St> Run run_dense(const St& st0, const Case12& c) {
    std::shared_ptr<St> st(new St(st0)); Run r; typename R::state x = R::mk(c.x0); RSys<R> sys{&c.p}; st->initialize(x, R::T(c.t0), R::T(c.dts[0]));
    for (size_t k = 0; k < c.dts.size(); ++k) {
        if (c.op[k] == 2) st = std::shared_ptr<St>(new St(*st));
        auto iv = st->do_step(sys); double a = (double)R::D(iv.first), b = (double)R::D(iv.second); r.t.push_back(a); r.t.push_back(b); r.dt.push_back((double)R::D(st->current_time_step())); r.x.push_back(ld<R>(st->current_state())); r.x.push_back(ld<R>(st->previous_state()));
        double th = (k * 7 % 10) / 10.0 + 0.05; st->calc_state(R::T(a + th * (b - a)), x); r.x.push_back(ld<R>(x)); if (std::fabs(b) > 60 || !allfinite(r.x.back())) break;
    }
    return r;
}
inline double sz(const Run& r) { LD m = 0; for (auto& v : r.x) for (auto e : v) { if (!std::isfinite(e)) return 1e300; m = std::max(m, std::fabs(e)); } return (double)m; }
// relative tolerance tol; scaled by the largest number seen
inline void cmp12(pbt::Src& s, const char* rn, const Run& a, const Run& b, double tol, bool moved_only = true) {
    double sc = std::max(sz(b), 1e-3); if (!(sc < 1e6)) throw pbt::Discard();
    for (size_t k = 0; k < b.res.size() && k < a.res.size(); ++k) REQUIRE_K("acceptance", a.res[k] == b.res[k], "trial ", k, " was ", a.res[k] == 0 ? "accepted" : "rejected", " with ", rn, " but not with std::vector<double>");
    REQUIRE_K("length", a.x.size() == b.x.size(), rn, ": ", a.x.size(), " states, reference ", b.x.size());
    for (size_t k = 0; k < a.t.size(); ++k) REQUIRE_K("time", std::fabs(a.t[k] - b.t[k]) <= tol * (1 + std::fabs(b.t[k])), rn, ": time ", a.t[k], " reference ", b.t[k], " at ", k);
    for (size_t k = 0; k < a.dt.size(); ++k) REQUIRE_K("step", std::fabs(a.dt[k] - b.dt[k]) <= 30 * tol * (1e-3 + std::fabs(b.dt[k])), rn, ": proposed step ", a.dt[k], " reference ", b.dt[k], " at ", k);
    for (size_t k = 0; k < a.x.size(); ++k) { REQUIRE_K("size", a.x[k].size() == b.x[k].size(), rn, ": size ", a.x[k].size()); for (size_t i = 0; i < a.x[k].size(); ++i) if (!(std::fabs(a.x[k][i] - b.x[k][i]) <= tol * sc)) pbt::fail("state", pbt::str(rn, ": state ", k, " is ", vstr(a.x[k]), ", reference ", vstr(b.x[k]), " tolerance ", tol * sc)); }
    s.label(rn); LD mv = 0; if (b.x.size() > 1) for (size_t i = 0; i < b.x[0].size(); ++i) mv = std::max(mv, std::fabs(b.x.back()[i] - b.x[0][i])); if (b.x.size() >= 2 && mv > 1e-9) s.nontrivial();
}
// stepper families with all types taken from the representation
#define FAM(NAME, TPL) struct NAME { template <class R> using T = od::TPL<typename R::state, typename R::value, typename R::deriv, typename R::time>; };
FAM(f_euler, euler) FAM(f_rk4, runge_kutta4) FAM(f_rk4c, runge_kutta4_classic) FAM(f_ck, runge_kutta_cash_karp54) FAM(f_ckc, runge_kutta_cash_karp54_classic) FAM(f_dp, runge_kutta_dopri5) FAM(f_f78, runge_kutta_fehlberg78) FAM(f_mm, modified_midpoint)
FAM(f_bs, bulirsch_stoer) FAM(f_bsd, bulirsch_stoer_dense_out)
struct f_ex4 { template <class R> using T = od::extrapolation_stepper<4, typename R::state, typename R::value, typename R::deriv, typename R::time>; };
struct f_ex8 { template <class R> using T = od::extrapolation_stepper<8, typename R::state, typename R::value, typename R::deriv, typename R::time>; };
template <size_t N> struct f_ab { template <class R> using T = od::adams_bashforth<N, typename R::state, typename R::value, typename R::deriv, typename R::time>; };
template <size_t N> struct f_abm { template <class R> using T = od::adams_bashforth_moulton<N, typename R::state, typename R::value, typename R::deriv, typename R::time>; };
template <size_t N> struct f_aabm { template <class R> using T = od::adaptive_adams_bashforth_moulton<N, typename R::state, typename R::value, typename R::deriv, typename R::time>; };
template <class F, class R> void p12(pbt::Src& s, double tol = 1e-13, bool oop = true) { typedef typename F::template T<R> A; typedef typename F::template T<RVec> B; Case12 c = gen12(s, R::dim(s), 0.3, 12); Run b = run_plain<RVec>(B(), c, oop); Run a = run_plain<R>(A(), c, oop); cmp12(s, R::name(), a, b, tol); }
template <class F, class R> void e12(pbt::Src& s, double tol = 1e-13) { typedef typename F::template T<R> A; typedef typename F::template T<RVec> B; Case12 c = gen12(s, R::dim(s), 0.3, 8); Run b = run_error<RVec>(B(), c); Run a = run_error<R>(A(), c); cmp12(s, R::name(), a, b, tol); }
#endif
