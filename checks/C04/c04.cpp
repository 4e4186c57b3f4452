// Adams-Bashforth(-Moulton): replay of the stepper's own trajectory with weights obtained
// by exact integration of the Lagrange basis.
#include "prob.hpp"
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
namespace od = boost::numeric::odeint;
#include "gbs.hpp"

// integral over [0,1] of the Lagrange basis on the given nodes
static std::vector<LD> weights(const std::vector<LD>& nodes) {
    size_t n = nodes.size(); std::vector<LD> w(n);
    for (size_t i = 0; i < n; ++i) {
        std::vector<LD> c(1, 1.0L); LD den = 1;
        for (size_t j = 0; j < n; ++j) if (j != i) { std::vector<LD> q(c.size() + 1, 0); for (size_t m = 0; m < c.size(); ++m) { q[m + 1] += c[m]; q[m] -= c[m] * nodes[j]; } c = q; den *= nodes[i] - nodes[j]; }
        LD s = 0; for (size_t m = 0; m < c.size(); ++m) s += c[m] / (LD)(m + 1); w[i] = s / den;
    }
    return w;
}
static std::vector<LD> ab_weights(int k) { std::vector<LD> n; for (int j = 0; j < k; ++j) n.push_back(-j); return weights(n); }
static std::vector<LD> am_weights(int k) { std::vector<LD> n{1}; for (int j = 0; j + 1 < k; ++j) n.push_back(-j); return weights(n); }

struct Model { std::vector<LVec> f; };           // newest first
static LVec rhs(const Prob& p, const Vec& x, double t) { LVec d(x.size()); p.eval<LD>(toL(x), d, (LD)t); return d; }
static LVec rhsL(const Prob& p, const LVec& x, LD t) { LVec d(x.size()); p.eval<LD>(x, d, t); return d; }
enum Init { I_EXTRA, I_RK4, I_DOPRI, I_EULER, I_F78, I_CK };
static LVec init_step(Init how, int k, const Prob& p, const LVec& x, LD t, LD dt, LD& scale) {
    LD s = 0; LVec r;
    switch (how) {
    case I_EXTRA: r = gbs_extrapolated<LD>(RefF{p}, x, t, dt, std::max(4, k + k % 2) / 2, &s); break;
    case I_RK4: r = rk_step<LD>(tb_rk4(), RefF{p}, x, t, dt, 0, 0, &s); break;
    case I_DOPRI: r = rk_step<LD>(tb_dopri5(), RefF{p}, x, t, dt, 0, 0, &s); s *= 8; break;
    case I_CK: r = rk_step<LD>(tb_ck54(), RefF{p}, x, t, dt, 0, 0, &s); s *= 8; break;
    case I_F78: r = rk_step<LD>(tb_rkf78(), RefF{p}, x, t, dt, 0, 0, &s); s *= 8; break;
    default: r = rk_step<LD>(tb_euler(), RefF{p}, x, t, dt, 0, 0, &s);
    }
    scale = std::max(scale, s); return r;
}
// expected result of a full multi-step step; f already contains the derivative at the current point
static LVec full_step(const Prob& p, bool moulton, int k, const std::vector<LVec>& f, const Vec& x, double t, double dt, LD& scale) {
    static std::vector<LD> AB[9], AM[9]; if (AB[k].empty()) { AB[k] = ab_weights(k); AM[k] = am_weights(k); }
    LVec y = toL(x); for (auto v : y) scale = std::max(scale, std::fabs(v));
    for (int j = 0; j < k; ++j) for (size_t n = 0; n < y.size(); ++n) { LD q = (LD)dt * AB[k][j] * f[j][n]; y[n] += q; scale = std::max(scale, std::fabs(q)); }
    if (!moulton) return y;
    LVec fn = rhsL(p, y, (LD)t + dt), z = toL(x);
    for (size_t n = 0; n < y.size(); ++n) { LD q = (LD)dt * AM[k][0] * fn[n]; z[n] += q; scale = std::max(scale, std::fabs(q)); }
    for (int j = 0; j + 1 < k; ++j) for (size_t n = 0; n < y.size(); ++n) z[n] += (LD)dt * AM[k][j + 1] * f[j][n];
    // sensitivity to rounding in the predictor
    scale *= 1 + 6 * std::fabs((LD)dt);
    return z;
}
template <class St> bool ready(St& st, int, std::false_type) { return st.is_initialized(); }
template <class St> bool ready(St&, int want, std::true_type) { return want; }

template <int K, bool M, class St> void run(pbt::Src& s, Init own) {
    int d = gen_dim(s); Prob p = gen_prob(s, d, ALLKINDS, 1.0); Sys<Vec> sys(p); Vec x = s.vec(d, 1.2); double t = s.flag() ? s.num(3) : 0, dt = s.logmag(1e-3, 0.12); if (s.flag()) dt = -dt;
    s.note(p.describe()); s.note("k", K); s.note("moulton", M); s.note("x", x); s.note("t", t); s.note("dt", dt); if (dt < 0) s.label("backward");
    std::unique_ptr<pbt::Poisoned<St>> first(new pbt::Poisoned<St>()); St* st = &first->get(); std::unique_ptr<St> held;
    std::vector<LVec> f; int m = 0; bool full_seen = false; int restarts = 0; int nops = (int)s.i(1, 26); bool inplace_only = s.flag(20);
    for (int op = 0; op < nops; ++op) {
        int c = (int)s.raw(24);
        if (c == 0 && op) { st->reset(); f.clear(); m = 0; ++restarts; s.note("reset; "); if (s.flag()) { dt *= s.pick({0.5, -1.0, 1.25}); s.note("newdt", dt); } continue; }
        if (c == 1 || c == 2) { // explicit initialisation, own or foreign stepper
            int which = c == 1 ? -1 : (int)s.raw(4); Init how = which < 0 ? own : which == 0 ? I_RK4 : which == 1 ? I_DOPRI : which == 2 ? I_EULER : I_F78;
            if (f.size() && s.flag()) { dt *= s.pick({0.5, -1.0, 1.25}); }
            s.note("initialize", (int)how); s.note("dt", dt); ++restarts; double t0 = t; Vec x0 = x;
            switch (which) {
            case -1: st->initialize(sys, x, t, dt); break;
            case 0: st->initialize(od::runge_kutta4<Vec>(), sys, x, t, dt); break;
            case 1: st->initialize(od::runge_kutta_fehlberg78<Vec>(), sys, x, t, dt); how = I_F78; break;
            case 2: st->initialize(od::euler<Vec>(), sys, x, t, dt); break;
            default: { od::runge_kutta4<Vec> r; st->initialize(boost::ref(r), sys, x, t, dt); how = I_RK4; }
            }
            // the start-up steps are not observable one by one: replay them
            f.clear(); LVec y = toL(x0); double tt = t0; LD sc = 0;
            for (int i = 0; i + 1 < K; ++i) { f.insert(f.begin(), rhsL(p, y, (LD)tt)); y = init_step(how, K, p, y, (LD)tt, (LD)dt, sc); tt += dt; }
            if (!(sc < 1e4)) throw pbt::Discard(); // solution blows up
            REQUIRE_K("init_time", std::fabs(t - tt) <= 8 * 2.3e-16 * (std::fabs(t0) + K * std::fabs(dt)), "initialize advanced the time from ", t0, " to ", t, " instead of ", tt);
            check_close("init_state", "state after initialize", x, y, 4e-14 * (double)(sc + 1)); m = K;
            if (!allfinite(x) || maxabs(x) > 1e6) throw pbt::Discard();
            continue;
        }
        if (c == 3) { s.note("copy; "); std::unique_ptr<St> q(new St(*st)); held = std::move(q); first.reset(); st = held.get(); continue; }
        if (c == 4) { s.note("assign; "); std::unique_ptr<St> q(new St()); if (s.flag()) { Vec y = x; for (int z = 0; z < 3; ++z) q->do_step(sys, y, 0.3 + z * 0.1, 0.1); } *q = *st; held = std::move(q); first.reset(); st = held.get(); continue; }
        Vec keep = x, out(d, NAN); LD scale = 1e-3L; LVec want;
        LVec fx = rhs(p, x, t); bool starting = m + 1 < K; f.insert(f.begin(), fx); if ((int)f.size() > K) f.resize(K);
        if (starting) { want = init_step(own, K, p, toL(x), t, dt, scale); ++m; }
        else { want = full_step(p, M, K, f, x, t, dt, scale); full_seen = true; }
        if (!(scale < 1e5)) break; // solution blows up
        long calls = rhs_count().calls;
        if (inplace_only || s.flag()) { st->do_step(sys, x, t, dt); out = x; s.note("step; "); }
        else { st->do_step(sys, x, t, out, dt); s.note("step_out; "); REQUIRE_K("input_written", same_bits(x, keep), "the input state changed"); }
        calls = rhs_count().calls - calls;
        check_close(starting ? "startup" : M ? "moulton" : "bashforth", pbt::str(starting ? "start-up step " : "step ", m, " (k=", K, ") t=", t, " dt=", dt, " x=", vstr(keep)), out, want, 3e-14 * (double)scale + 1e-15);
        if (!starting) REQUIRE_K("evaluations", calls == (M ? 2 : 1), "a multi-step step evaluated the right-hand side ", calls, " times");
        x = out; t += dt; if (!allfinite(x) || maxabs(x) > 1e6) break;
    }
    if (full_seen && K > 1) s.nontrivial(); if (restarts && full_seen) s.label("restarted"); s.label(M ? pbt::str("ABM", K) : pbt::str("AB", K));
}
#define RULE "a full multi-step step with k>1 was compared with the formula over the replayed history"
template <template <int> class F> void dispatch(pbt::Src& s, int k) { switch (k) { case 1: F<1>::go(s); break; case 2: F<2>::go(s); break; case 3: F<3>::go(s); break; case 4: F<4>::go(s); break; case 5: F<5>::go(s); break; case 6: F<6>::go(s); break; case 7: F<7>::go(s); break; default: F<8>::go(s); } }
template <int K> struct AB { static void go(pbt::Src& s) { run<K, false, od::adams_bashforth<K, Vec>>(s, I_EXTRA); } };
template <int K> struct ABM { static void go(pbt::Src& s) { run<K, true, od::adams_bashforth_moulton<K, Vec>>(s, I_RK4); } };
// started by another one-step method, chosen by template argument
template <class I> struct CI { template <int K> using AB = od::adams_bashforth<K, Vec, double, Vec, double, od::range_algebra, od::default_operations, od::initially_resizer, I>; template <int K> using ABM = od::adams_bashforth_moulton<K, Vec, double, Vec, double, od::range_algebra, od::default_operations, od::initially_resizer, I>; };
typedef od::runge_kutta_cash_karp54<Vec> I1; typedef od::runge_kutta_fehlberg78<Vec> I2; typedef od::euler<Vec> I3; typedef od::runge_kutta4<Vec> I4;
template <int K> void custom(pbt::Src& s) { s.label("custom start-up"); switch (s.raw(8)) { case 0: return run<K, false, CI<I1>::AB<K>>(s, I_CK); case 1: return run<K, true, CI<I1>::ABM<K>>(s, I_CK); case 2: return run<K, false, CI<I2>::AB<K>>(s, I_F78); case 3: return run<K, true, CI<I2>::ABM<K>>(s, I_F78); case 4: return run<K, false, CI<I3>::AB<K>>(s, I_EULER); case 5: return run<K, true, CI<I3>::ABM<K>>(s, I_EULER); case 6: return run<K, false, CI<I4>::AB<K>>(s, I_RK4); default: return run<K, true, CI<od::runge_kutta_cash_karp54_classic<Vec>>::ABM<K>>(s, I_CK); } }
SUITE(custom_start, 20000, 1000000, RULE) { rhs_reset(); switch (src.raw(3)) { case 0: return custom<2>(src); case 1: return custom<4>(src); default: return custom<6>(src); } }
SUITE(bashforth, 60000, 3000000, RULE) { int k = (int)src.i(1, 8); rhs_reset(); dispatch<AB>(src, k); }
SUITE(moulton, 60000, 3000000, RULE) { int k = (int)src.i(1, 8); rhs_reset(); dispatch<ABM>(src, k); }

// exactness for polynomial solutions, through the default start-up, with accumulated (not replayed) history
template <int K, bool M, class St> void poly(pbt::Src& s, int maxdeg) {
    int deg = (int)s.i(0, maxdeg); int d = (int)s.i(1, 4); std::vector<std::vector<LD>> c(d); Vec x(d); for (auto& q : c) for (int i = 0; i <= deg; ++i) q.push_back(s.num(1));
    double t = s.num(1), dt = s.logmag(0.01, 0.3); if (s.flag()) dt = -dt; int n = (int)s.i(1, 30);
    auto P = [&](int i, LD u) { LD r = 0; for (int k = deg; k >= 0; --k) r = r * u + c[i][k]; return r; };
    auto D = [&](int i, LD u) { LD r = 0; for (int k = deg; k >= 1; --k) r = r * u + c[i][k] * k; return r; };
    for (int i = 0; i < d; ++i) x[i] = (double)P(i, t); double lam = 0; // x' = P'(t) + lam (x - P(t)) has the polynomial as solution, too
    auto f = [&](const Vec& y, Vec& dy, double u) { for (int i = 0; i < d; ++i) dy[i] = (double)(D(i, u) + lam * ((LD)y[i] - P(i, u))); };
    s.note("k", K); s.note("moulton", M); s.note("deg", deg); s.note("t", t); s.note("dt", dt); s.note("n", n); s.note("lam", lam); s.note("x", x);
    St st; double t0 = t; LD m = 1; if (s.flag(30)) { st.initialize(od::runge_kutta_fehlberg78<Vec>(), f, x, t, dt); s.note("initialized; "); if (lam != 0) throw pbt::Discard(); }
    else if (lam != 0) throw pbt::Discard();
    for (int i = 0; i < n; ++i) { st.do_step(f, x, t, dt); t += dt; }
    for (int i = 0; i < d; ++i) m = std::max(m, std::fabs(P(i, t))); for (int i = 0; i < d; ++i) for (int k = 0; k <= 12; ++k) m = std::max(m, std::fabs(D(i, t0 + (t - t0) * k / 12)));
    for (int i = 0; i < d; ++i) REQUIRE_K("polynomial", std::fabs((LD)x[i] - P(i, t)) <= 1e-12L * m, "polynomial of degree ", deg, " not reproduced by k=", K, ": component ", i, " got ", x[i], " want ", (double)P(i, t));
    if (deg >= 2 && K > 1) s.nontrivial(); s.label(pbt::str("degree ", deg));
}
template <int K> struct PAB { static void go(pbt::Src& s) { poly<K, false, od::adams_bashforth<K, Vec>>(s, K); } };
template <int K> struct PABM { static void go(pbt::Src& s) { poly<K, true, od::adams_bashforth_moulton<K, Vec>>(s, std::min(K, 4)); } };
SUITE(poly_bashforth, 20000, 1000000, "degree at least 2 and k at least 2") { dispatch<PAB>(src, (int)src.i(1, 8)); }
SUITE(poly_moulton, 20000, 1000000, "degree at least 2 and k at least 2") { dispatch<PABM>(src, (int)src.i(1, 8)); }

// the corrector on its own: adams_moulton with the caller's prediction and history of derivatives
#include <boost/numeric/odeint/stepper/adams_moulton.hpp>
struct Past { Vec m_v; };
template <int K> struct AM { static void go(pbt::Src& s) {
    typedef od::adams_moulton<K, Vec> St; std::unique_ptr<pbt::Poisoned<St>> first(new pbt::Poisoned<St>()); St* st = &first->get(); std::unique_ptr<St> held; std::vector<LD> w = am_weights(K);
    int d = gen_dim(s), n = (int)s.i(1, 4); Prob p = gen_prob(s, d, ALLKINDS, 1.0); Sys<Vec> sys(p); s.note(p.describe()); s.note("k", K); REQUIRE_K("order", st->order() == K + 1, "order ", st->order(), " for ", K, " steps"); if (s.flag(20)) st->adjust_size(Vec(d));
    for (int m = 0; m < n; ++m) {
        int c = (int)s.raw(6); if (c == 0 && m) { std::unique_ptr<St> q(new St(*st)); held = std::move(q); first.reset(); st = held.get(); s.note("copy; "); } if (c == 1 && m) { std::unique_ptr<St> q(new St()); *q = *st; held = std::move(q); first.reset(); st = held.get(); s.note("assign; "); }
        double t = s.num(3), dt = s.logmag(1e-3, 0.3); if (s.flag()) dt = -dt; Vec x = s.vec(d, 1.2), pred = s.vec(d, 1.2), keep(x), kpred(pred), out(d, NAN); std::vector<Past> h(K); for (auto& q : h) q.m_v = s.vec(d, 1.0); s.note("t", t); s.note("dt", dt); s.note("x", x); s.note("prediction", pred);
        LVec f = rhs(p, pred, t), want = toL(x); LD sc = 1; for (int i = 0; i < d; ++i) { want[i] += (LD)dt * w[0] * f[i]; sc += std::fabs(x[i]) + std::fabs(dt * f[i]); for (int j = 0; j + 1 < K; ++j) want[i] += (LD)dt * w[j + 1] * h[j].m_v[i]; }
        long calls = rhs_count().calls; bool ip = s.flag(), ref = s.flag(30);
        if (ip) { if (ref) st->do_step(boost::ref(sys), x, pred, t, dt, h); else st->do_step(sys, x, pred, t, dt, h); out = x; } else { if (ref) st->do_step(boost::ref(sys), x, pred, t, out, dt, h); else st->do_step(sys, x, pred, t, out, dt, h); REQUIRE_K("input_written", same_bits(x, keep), "the input state changed"); }
        REQUIRE_K("input_written", same_bits(pred, kpred), "the prediction changed"); calls = rhs_count().calls - calls; REQUIRE_K("evaluations", calls == 1, "the corrector evaluated the right-hand side ", calls, " times");
        check_close("corrector", pbt::str("corrected state (k=", K, ") t=", t, " dt=", dt), out, want, 3e-14 * (double)sc);
    }
    if (K > 1) s.nontrivial(); s.label(pbt::str("AM", K)); } };
SUITE(corrector, 20000, 1000000, "k>1: the corrected state was compared with the formula over the given history") { rhs_reset(); dispatch<AM>(src, (int)src.i(1, 8)); }
