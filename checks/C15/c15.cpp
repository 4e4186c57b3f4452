// Symplectic steppers and velocity Verlet: replay of kicks and drifts, symplectic form,
// reversibility, order, invariants, call forms, integrate functions.
#include "prob.hpp"
#include <array>
#include <boost/array.hpp>
#include <boost/ref.hpp>
#include <boost/numeric/odeint/stepper/symplectic_euler.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/stepper/velocity_verlet.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/algebra/array_algebra.hpp>
namespace od = boost::numeric::odeint;

// separable Hamiltonian H = T(p) + V(q); V: quartic chain / pendulum / quadratic form, T: diagonal quadratic (+ quartic)
struct Ham { int kind, d; std::vector<double> K, w, m; bool unit = false, quartic = false, chain = false;
    template <class C, class D> void force(const C& q, D& dp) const { typedef typename std::decay<decltype(q[0])>::type T; using std::sin;
        for (int i = 0; i < d; ++i) { T s = T(0); if (!chain) { for (int j = 0; j < d; ++j) s -= T((K[i * d + j] + K[j * d + i]) / 2) * q[j]; if (kind == 1) s -= T(w[i]) * sin(q[i]); if (kind == 2) s -= T(w[i]) * q[i] * q[i] * q[i]; } dp[i] = s; }
        if (chain) for (int i = 0; i < d; ++i) { int j = (i + 1) % d; if (j == i) break; T r = q[j] - q[i]; T f = T(w[i]) * r + (kind ? T(K[i]) * r * r * r : T(0)); dp[i] += f; dp[j] -= f; } }
    template <class P, class D> void vel(const P& p, D& dq) const { typedef typename std::decay<decltype(p[0])>::type T; for (int i = 0; i < d; ++i) dq[i] = unit ? T(p[i]) : T(m[i]) * p[i] + (quartic ? T(0.1) * p[i] * p[i] * p[i] : T(0)); }
};
static Ham gen_ham(pbt::Src& s, int d, bool linear = false) { Ham h; h.d = d; h.kind = linear ? 0 : (int)s.raw(3); h.K = s.vec(d * d, 1.2 / std::sqrt((double)d)); h.w = s.vec(d, 1.2); h.m = s.vec(d, 1.5); h.unit = s.flag(40); h.quartic = !linear && s.flag(30); h.chain = !linear && s.flag(25); s.note("kind", h.kind); s.note("d", d); s.note("unit", h.unit); s.note("chain", h.chain); s.note("w", h.w); s.note("m", h.m); return h; }
struct Fq { const Ham* h; template <class P, class D> void operator()(const P& p, D& dq) const { h->vel(p, dq); } };
struct Fp { const Ham* h; template <class C, class D> void operator()(const C& q, D& dp) const { h->force(q, dp); } };
struct Coef { std::vector<LD> a, b; int order; bool symmetric; };
static const Coef& coef(int which) {
    static Coef c[3]; if (c[0].a.empty()) {
        c[0] = Coef{{1}, {1}, 1, false};
        LD z = std::sqrt(7.0L / 8) / 3; c[1] = Coef{{0.5L - z, -1.0L / 3 + z, 2.0L / 3, -1.0L / 3 + z, 0.5L - z}, {1, -0.5L, -0.5L, 1, 0}, 4, true};
        LD a0 = 0.40518861839525227722L, a1 = -0.28714404081652408900L, a2 = 0.5L - (a0 + a1), b0 = -3.0L / 73, b1 = 17.0L / 59, b2 = 1 - 2 * (b0 + b1); c[2] = Coef{{a0, a1, a2, a2, a1, a0}, {b0, b1, b2, b1, b0, 0}, 4, true};
    } return c[which];
}
static void ref_symp(const Ham& h, const Coef& c, LVec& q, LVec& p, LD dt, LD& scale) {
    size_t d = q.size(); LVec k(d); auto sc = [&](const LVec& v, LD m) { for (auto x : v) scale = std::max(scale, std::fabs(x * m)); }; sc(q, 1); sc(p, 1);
    for (size_t l = 0; l < c.a.size(); ++l) { h.vel(p, k); sc(k, c.a[l] * dt); for (size_t i = 0; i < d; ++i) q[i] += c.a[l] * dt * k[i]; sc(q, 1); h.force(q, k); sc(k, c.b[l] * dt); for (size_t i = 0; i < d; ++i) p[i] += c.b[l] * dt * k[i]; sc(p, 1); }
}
template <class C> C mkc(const Vec& v) { C c; for (size_t i = 0; i < v.size(); ++i) c[i] = v[i]; return c; }
template <> Vec mkc<Vec>(const Vec& v) { return v; } template <> std::vector<LD> mkc<std::vector<LD>>(const Vec& v) { return toL(v); }
template <class C> Vec vc(const C& c) { return Vec(c.begin(), c.end()); }

template <class St, class C> void step_case(pbt::Src& s, int which, int fixed_d) {
    int d = fixed_d ? fixed_d : gen_dim(s); Ham h = gen_ham(s, d); const Coef& co = coef(which); Vec q0 = s.vec(d, 1.5), p0 = s.vec(d, 1.5); double dt = s.logmag(1e-3, 0.4), t = s.flag(70) ? 0 : s.num(50); if (s.flag()) dt = -dt;
    s.note("q", q0); s.note("p", p0); s.note("dt", dt); pbt::Poisoned<St> stp; St* st = &stp.get(); Fq fq{&h}; Fp fp{&h}; int n = (int)s.i(1, 8); typedef std::pair<C, C> S; Vec q = q0, p = p0;
    for (int k = 0; k < n; ++k) {
        if (k && s.flag(15)) { dt = s.logmag(1e-3, 0.4) * (s.flag() ? -1 : 1); s.note("dt'", dt); }
        int form = (int)s.raw(12); if (!h.unit && form >= 6) form -= 6; s.note("form", form); S x(mkc<C>(q), mkc<C>(p)), keep = x, out = x; if (form % 6 >= 4) { for (auto& v : out.first) v = 7; for (auto& v : out.second) v = -7; }
        auto both = std::make_pair(fq, fp); auto refs = std::make_pair(boost::ref(fq), boost::ref(fp));
        switch (form) {
        case 0: st->do_step(both, x, t, dt); out = x; break; case 1: st->do_step(boost::ref(both), x.first, x.second, t, dt); out = x; break; case 2: st->do_step(refs, std::make_pair(boost::ref(x.first), boost::ref(x.second)), t, dt); out = x; break;
        case 3: { auto r = boost::ref(x); st->do_step(both, r, t, dt); out = x; break; } case 4: st->do_step(both, x, t, out, dt); break; case 5: { auto r = std::make_pair(boost::ref(out.first), boost::ref(out.second)); st->do_step(refs, std::make_pair(boost::cref(x.first), boost::cref(x.second)), t, r, dt); break; }
        case 6: st->do_step(fp, x, t, dt); out = x; break; case 7: st->do_step(boost::ref(fp), x.first, x.second, t, dt); out = x; break; case 8: st->do_step(fp, std::make_pair(boost::ref(x.first), boost::ref(x.second)), t, dt); out = x; break;
        case 9: { auto r = boost::ref(x); st->do_step(fp, r, t, dt); out = x; break; } case 10: st->do_step(fp, x, t, out, dt); break; default: { auto r = std::make_pair(boost::ref(out.first), boost::ref(out.second)); st->do_step(boost::ref(fp), x, t, r, dt); }
        }
        if (form % 6 >= 4) REQUIRE_K("input_written", same_bits(vc(keep.first), vc(x.first)) && same_bits(vc(keep.second), vc(x.second)), "an out-of-place step changed its input");
        LVec ql = toL(q), pl = toL(p); LD sc = 0.01L; ref_symp(h, co, ql, pl, dt, sc); if (!(sc < 1e6)) break; double tol = 1e-14 * (double)sc * (1 + sc * sc * std::fabs(dt));
        check_close("map_q", pbt::str("coordinates after step of form ", form), vc(out.first), ql, tol); check_close("map_p", pbt::str("momenta after step of form ", form), vc(out.second), pl, tol);
        q = vc(out.first); p = vc(out.second); t += dt; if (h.kind || !h.unit) s.nontrivial(); s.label(form >= 6 ? "force only" : "general form");
        if (h.chain) { LD P0 = 0, P1 = 0; for (double v : p0) P0 += v; for (double v : p) P1 += v; REQUIRE_K("momentum", std::fabs(P0 - P1) <= 1e-14L * d * (k + 1) * (1 + sc), "total momentum went from ", (double)P0, " to ", (double)P1); s.label("momentum conserving"); }
    }
    if (dt < 0) s.label("backward");
}
#define RULE "a nonlinear or non-unit-mass Hamiltonian was stepped and compared"
typedef std::array<double, 3> A3; typedef boost::array<double, 2> B2;
template <class C> using SE = od::symplectic_euler<C>; template <class C> using M4 = od::symplectic_rkn_sb3a_m4_mclachlan<C>; template <class C> using M6 = od::symplectic_rkn_sb3a_mclachlan<C>;
template <template <class> class T> void per_container(pbt::Src& s, int which) { switch (s.raw(4)) { case 0: case 1: step_case<T<Vec>, Vec>(s, which, 0); break; case 2: s.label("std::array"); step_case<T<A3>, A3>(s, which, 3); break; default: s.label("boost::array"); step_case<T<B2>, B2>(s, which, 2); } }
SUITE(euler_step, 20000, 1000000, RULE) { per_container<SE>(src, 0); }
SUITE(m4_step, 20000, 1000000, RULE) { per_container<M4>(src, 1); }
SUITE(sb3a_step, 20000, 1000000, RULE) { per_container<M6>(src, 2); }

// ---- velocity Verlet
struct Acc { const Ham* h; double drag, drive; long* calls = 0; template <class C, class V, class A> void operator()(const C& q, const V& v, A& a, double t) const { if (calls) ++*calls; h->force(q, a); for (int i = 0; i < h->d; ++i) a[i] += -drag * v[i] + drive * std::cos(t + i); } };
static void acc_ref(const Acc& f, const LVec& q, const LVec& v, LVec& a, LD t) { a.resize(q.size()); f.h->force(q, a); for (int i = 0; i < f.h->d; ++i) a[i] += -(LD)f.drag * v[i] + (LD)f.drive * std::cos(t + i); }
template <class C> void verlet_case(pbt::Src& s, int fixed_d) {
    int d = fixed_d ? fixed_d : gen_dim(s); Ham h = gen_ham(s, d); Acc f{&h, s.flag(30) ? s.num(0.6) : 0, s.flag(30) ? s.num(1) : 0}; long calls = 0; f.calls = &calls; Vec q = s.vec(d, 1.5), p = s.vec(d, 1.5); double t = s.flag(70) ? s.num(2) : s.num(50), dt = s.logmag(1e-3, 0.4); if (s.flag()) dt = -dt; s.note("drag", f.drag); s.note("drive", f.drive); s.note("q", q); s.note("p", p); s.note("t", t); s.note("dt", dt);
    typedef od::velocity_verlet<C> St; pbt::Poisoned<St> first; St* st = &first.get(); std::unique_ptr<St> held; typedef std::pair<C, C> S; LVec a; bool have = false, unknown = false; int n = (int)s.i(1, 10);
    for (int k = 0; k < n; ++k) {
        int op = (int)s.raw(14);
        if (op == 0) { st->reset(); have = false; s.note("reset; "); REQUIRE_K("initialized", !st->is_initialized(), "initialised after reset"); }
        if (op == 1) { Vec av = s.vec(d, 1); st->initialize(mkc<C>(av)); a = toL(av); have = true; s.note("initialize a", av); }
        if (op == 2) { st->initialize(boost::ref(f), mkc<C>(q), mkc<C>(p), t); acc_ref(f, toL(q), toL(p), a, t); have = true; s.note("initialize; "); }
        if (op == 3) { std::unique_ptr<St> z(new St(*st)); held = std::move(z); st = held.get(); s.note("copy; "); }
        if (op == 4) { std::unique_ptr<St> z(new St()); *z = *st; held = std::move(z); st = held.get(); s.note("assign; "); }
        if (op == 5) { q = s.vec(d, 1.5); st->reset(); have = false; s.note("new q", q); }
        if (op == 6 && !have) { st->adjust_size(mkc<C>(q)); s.note("adjust_size; "); }
        if (op < 3) unknown = false;
        if (op < 3) REQUIRE_K("initialized", st->is_initialized() == have, "is_initialized is ", st->is_initialized());
        if (!have) acc_ref(f, toL(q), toL(p), a, t);
        S x(mkc<C>(q), mkc<C>(p)); long before = calls; int form = (int)s.raw(5); s.note("form", form); C qo = x.first, po = x.second, ao = x.first, ai = x.first;
        switch (form) { case 0: st->do_step(f, x, t, dt); break; case 1: st->do_step(boost::ref(f), x, t, dt); break; case 2: st->do_step(f, std::make_pair(boost::ref(x.first), boost::ref(x.second)), t, dt); break; case 3: { auto r = boost::ref(x); st->do_step(f, r, t, dt); break; }
            default: for (int i = 0; i < d; ++i) ai[i] = (double)a[i]; for (auto& v : qo) v = 5; for (auto& v : po) v = 6; for (auto& v : ao) v = 7; st->do_step(f, x.first, x.second, ai, qo, po, ao, t, dt); REQUIRE_K("input_written", same_bits(vc(x.first), q) && same_bits(vc(x.second), p), "input changed"); }
        long used = calls - before; if (unknown && form != 4 && used == 2) acc_ref(f, toL(q), toL(p), a, t); LVec ql = toL(q), pl = toL(p), a2; LD h_ = dt, sc = 0.1L; for (int i = 0; i < d; ++i) { ql[i] += h_ * pl[i] + h_ * h_ / 2 * a[i]; sc = std::max({sc, std::fabs(ql[i]), std::fabs(pl[i]), std::fabs(a[i])}); } acc_ref(f, ql, pl, a2, (LD)t + dt); for (int i = 0; i < d; ++i) { pl[i] += h_ / 2 * (a[i] + a2[i]); sc = std::max(sc, std::fabs(a2[i])); }
        if (!(sc < 1e5)) break; double tol = 1e-14 * (double)sc * (1 + sc * sc * std::fabs(dt)) + 1e-15 * std::fabs(t) * std::fabs(dt);
        if (form == 4) { check_close("verlet_q", "coordinates (full form)", vc(qo), ql, tol); check_close("verlet_p", "velocities (full form)", vc(po), pl, tol); check_close("verlet_a", "acceleration (full form)", vc(ao), a2, 4 * tol); REQUIRE_K("evaluations", used == 1, used, " evaluations in the full form"); unknown = true; continue; } // the stepper may forget its acceleration, but must not keep a wrong one
        check_close("verlet_q", "coordinates", vc(x.first), ql, tol); check_close("verlet_p", "velocities", vc(x.second), pl, tol); REQUIRE_K("evaluations", used == (have ? 1 : 2) || (unknown && (used == 1 || used == 2)), used, " evaluations in a step that ", have ? "could reuse" : "could not reuse", " the acceleration"); REQUIRE_K("initialized", st->is_initialized(), "not initialised after a step");
        q = vc(x.first); p = vc(x.second); a = a2; have = true; unknown = false; t += dt; s.nontrivial();
    }
    if (dt < 0) s.label("backward");
}
SUITE(verlet, 40000, 2000000, "a step was compared with the velocity Verlet formula") { switch (src.raw(4)) { case 0: case 1: verlet_case<Vec>(src, 0); break; case 2: src.label("std::array"); verlet_case<A3>(src, 3); break; default: src.label("boost::array"); verlet_case<B2>(src, 2); } }

// ---- structure: symplectic form, reversibility, order (long double steppers)
struct Stepper { virtual ~Stepper() {} virtual void go(const Ham& h, LVec& q, LVec& p, LD dt) = 0; };
template <class T> struct SympL : Stepper { T st; void go(const Ham& h, LVec& q, LVec& p, LD dt) override { auto sy = std::make_pair(Fq{&h}, Fp{&h}); st.do_step(sy, q, p, 0.0L, dt); } };
struct VerletL : Stepper { od::velocity_verlet<LVec, LVec, LD> st; void go(const Ham& h, LVec& q, LVec& p, LD dt) override { st.reset(); std::pair<LVec, LVec> x(q, p); const Ham* hp = &h; st.do_step([hp](const LVec& q, const LVec&, LVec& a, LD) { hp->force(q, a); }, x, 0.0L, dt); q = x.first; p = x.second; } };
static Stepper& structure(int k) { static SympL<od::symplectic_euler<LVec, LVec, LD>> a; static SympL<od::symplectic_rkn_sb3a_m4_mclachlan<LVec, LVec, LD>> b; static SympL<od::symplectic_rkn_sb3a_mclachlan<LVec, LVec, LD>> c; static VerletL v; Stepper* p[] = {&a, &b, &c, &v}; return *p[k]; }
static const char* names[] = {"symplectic_euler", "m4", "sb3a", "verlet"};
SUITE(symplectic_form, 12000, 600000, "dimension at least two or a nonlinear Hamiltonian") {
    int k = (int)src.raw(4); int d = (int)src.i(1, 4); { static int last = 0; (void)last; } Ham h = gen_ham(src, d, src.flag(40)); if (k == 3) h.unit = true; LVec q = toL(src.vec(d, 1.2)), p = toL(src.vec(d, 1.2)); LD dt = src.logmag(0.01, 0.6); if (src.flag()) dt = -dt; src.note("stepper", std::string(names[k])); src.note("dt", (double)dt);
    // size-changing sequence of cases on one object: use fresh ones
    std::unique_ptr<Stepper> st; switch (k) { case 0: st.reset(new SympL<od::symplectic_euler<LVec, LVec, LD>>()); break; case 1: st.reset(new SympL<od::symplectic_rkn_sb3a_m4_mclachlan<LVec, LVec, LD>>()); break; case 2: st.reset(new SympL<od::symplectic_rkn_sb3a_mclachlan<LVec, LVec, LD>>()); break; default: st.reset(new VerletL()); }
    const LD e = 1e-5L; int n = 2 * d; std::vector<LVec> M(n, LVec(n)); LD mx = 1;
    for (int j = 0; j < n; ++j) { LVec r[2]; for (int sg = 0; sg < 2; ++sg) { LVec a = q, b = p; (j < d ? a[j] : b[j - d]) += sg ? -e : e; st->go(h, a, b, dt); r[sg] = a; r[sg].insert(r[sg].end(), b.begin(), b.end()); } for (int i = 0; i < n; ++i) { M[j][i] = (r[0][i] - r[1][i]) / (2 * e); mx = std::max(mx, std::fabs(M[j][i])); } }
    if (!(mx < 1e3)) throw pbt::Discard();
    for (int a = 0; a < n; ++a) for (int b = 0; b < n; ++b) { LD w = 0; for (int i = 0; i < d; ++i) w += M[a][i] * M[b][i + d] - M[a][i + d] * M[b][i]; LD want = b == a + d ? 1 : a == b + d ? -1 : 0; REQUIRE_K("symplectic_form", std::fabs(w - want) <= 3e-8L * mx * mx * mx, names[k], ": form of columns ", a, ",", b, " is ", (double)w, " instead of ", (double)want); }
    if (d >= 2 || h.kind || h.quartic) src.nontrivial(); src.label(names[k]);
}
SUITE(reversal, 20000, 1000000, "a nonlinear Hamiltonian and a step above 0.01") {
    int k = (int)src.i(1, 3); int d = (int)src.i(1, 4); Ham h = gen_ham(src, d); if (k == 3) h.unit = true; Vec q0 = src.vec(d, 1.2), p0 = src.vec(d, 1.2); LVec q = toL(q0), p = toL(p0); LD dt = src.logmag(1e-3, 0.6); if (src.flag()) dt = -dt; int n = (int)src.i(1, 6); src.note("stepper", std::string(names[k])); src.note("dt", (double)dt); src.note("n", n); src.note("q", q0); src.note("p", p0);
    std::unique_ptr<Stepper> st; switch (k) { case 1: st.reset(new SympL<od::symplectic_rkn_sb3a_m4_mclachlan<LVec, LVec, LD>>()); break; case 2: st.reset(new SympL<od::symplectic_rkn_sb3a_mclachlan<LVec, LVec, LD>>()); break; default: st.reset(new VerletL()); }
    LD m = 1; for (int i = 0; i < n; ++i) { st->go(h, q, p, dt); for (auto v : q) m = std::max(m, std::fabs(v)); for (auto v : p) m = std::max(m, std::fabs(v)); } if (!(m < 5)) throw pbt::Discard(); for (int i = 0; i < n; ++i) st->go(h, q, p, -dt);
    LD e = std::max(maxdiff(q, q0), maxdiff(p, p0)); REQUIRE_K("reversal", e <= 1e-12L, names[k], ": ", n, " steps forth and back miss the start by ", (double)e);
    if ((h.kind || h.quartic) && std::fabs(dt) > 0.01L) src.nontrivial(); src.label(names[k]);
}
SUITE(order, 4000, 200000, "the error of the coarser run is clearly above rounding") {
    static const int ord[] = {1, 4, 4, 2}; int k = (int)src.raw(4); int d = (int)src.i(1, 3); Ham h; h.d = d; h.kind = (int)src.raw(3); h.unit = true; h.K = src.vec(d * d, 0.4); for (int i = 0; i < d; ++i) { h.K[i * d + i] = src.mag(0.5, 1); h.w.push_back(src.mag(0, 0.8)); } h.m.assign(d, 1.0); Vec q0 = src.vec(d, 1.0), p0 = src.vec(d, 1.0); LD L = src.flag() ? -2 : 2;
    src.note("stepper", std::string(names[k])); src.note("kind", h.kind); src.note("K", h.K); src.note("w", h.w); src.note("q", q0); src.note("p", p0);
    std::unique_ptr<Stepper> st; switch (k) { case 0: st.reset(new SympL<od::symplectic_euler<LVec, LVec, LD>>()); break; case 1: st.reset(new SympL<od::symplectic_rkn_sb3a_m4_mclachlan<LVec, LVec, LD>>()); break; case 2: st.reset(new SympL<od::symplectic_rkn_sb3a_mclachlan<LVec, LVec, LD>>()); break; default: st.reset(new VerletL()); }
    // reference: Runge-Kutta 7(8)
    LVec y = toL(q0); for (double v : p0) y.push_back(v); auto f = [&](const LVec& z, LVec& dz, LD) { dz.resize(2 * d); LVec q(z.begin(), z.begin() + d), g(d); h.force(q, g); for (int i = 0; i < d; ++i) { dz[i] = z[d + i]; dz[d + i] = g[i]; } }; Tableau tb = tb_rkf78(); for (int i = 0; i < 100; ++i) y = rk_step<LD>(tb, f, y, 0, L / 100);
    LD e[3]; int N[3] = {64, 128, 256}; for (int r = 0; r < 3; ++r) { LVec q = toL(q0), p = toL(p0); for (int i = 0; i < N[r]; ++i) st->go(h, q, p, L / N[r]); e[r] = 0; for (int i = 0; i < d; ++i) e[r] = std::max({e[r], std::fabs(q[i] - y[i]), std::fabs(p[i] - y[d + i])}); }
    // error bound for smooth problems with |f'|<~2, |t|=2: C h^p; and its decay
    LD hh = std::fabs(L) / N[0], C = k == 0 ? 30 : 20; REQUIRE_K("accuracy", e[0] <= C * std::pow(hh, (LD)ord[k]), names[k], ": error ", (double)e[0], " with step ", (double)hh);
    REQUIRE_K("order", e[2] <= 1.0L / std::pow(3.0L, (LD)ord[k]) * std::max(e[0], C * 0.05L * std::pow(hh, (LD)ord[k])) + 1e-14L, names[k], ": errors ", (double)e[0], ", ", (double)e[1], ", ", (double)e[2], " do not decay with order ", ord[k]);
    if (e[0] > 1e-12L) src.nontrivial(); src.label(names[k]);
}
SUITE(orders_reported, 1, 1, "always") { src.nontrivial(); REQUIRE_K("order_value", od::symplectic_euler<Vec>().order() == 1 && od::symplectic_rkn_sb3a_m4_mclachlan<Vec>().order() == 4 && od::symplectic_rkn_sb3a_mclachlan<Vec>().order() == 4, "reported orders ", od::symplectic_euler<Vec>().order(), " ", od::symplectic_rkn_sb3a_m4_mclachlan<Vec>().order(), " ", od::symplectic_rkn_sb3a_mclachlan<Vec>().order(), " ", od::velocity_verlet<Vec>().order()); }

// ---- integrate functions with phase-space states
template <class St> void integ(pbt::Src& s, St, bool verlet) {
    int d = (int)s.i(1, 4); Ham h = gen_ham(s, d); Acc acc{&h, 0, verlet && s.flag() ? 0.7 : 0}; Vec q = s.vec(d, 1.2), p = s.vec(d, 1.2); double t0 = s.i(-4, 4) / 2.0, dt = std::ldexp(1.0, -(int)s.i(2, 6)) * (s.flag() ? -1 : 1); int n = (int)s.i(0, 20), mode = (int)s.raw(4); s.note("t0", t0); s.note("dt", dt); s.note("n", n); s.note("mode", mode);
    typedef std::pair<Vec, Vec> S; std::vector<double> ts; std::vector<S> xs; auto obs = [&](const S& x, double t) { ts.push_back(t); xs.push_back(x); }; S x(q, p); auto sym = std::make_pair(Fq{&h}, Fp{&h}); Fp fp{&h}; double tend = t0 + n * dt; St st, st2; S y(q, p);
    auto go = [&](auto sys) { St b; switch (mode) { case 0: od::integrate_const(b, sys, x, t0, tend, dt, obs); break; case 1: { double te = od::integrate_n_steps(b, sys, x, t0, dt, n, obs); REQUIRE_K("end_time", te == tend, "integrate_n_steps returned ", te, " instead of ", tend); break; } case 2: od::integrate_adaptive(b, sys, x, t0, tend, dt, obs); break; default: od::integrate_const(boost::ref(b), sys, x, t0, tend + 0.25 * dt, dt, obs); }
        REQUIRE_K("count", (int)ts.size() == n + 1, "observed ", ts.size(), " points instead of ", n + 1);
        for (int i = 0; i <= n; ++i) { if (i) st2.do_step(sys, y, t0 + (i - 1) * dt, dt); REQUIRE_K("grid", ts[i] == t0 + i * dt, "observation ", i, " at ", ts[i]); REQUIRE_K("states", same_bits(xs[i].first, y.first) && same_bits(xs[i].second, y.second), "observed state ", i, " differs from direct stepping: ", vstr(xs[i].first), " vs ", vstr(y.first)); }
        REQUIRE_K("states", same_bits(x.first, y.first) && same_bits(x.second, y.second), "final state differs from direct stepping"); };
    (void)st; (void)acc; (void)sym; (void)fp; integ_go(s, h, acc, verlet, go, std::integral_constant<bool, std::is_same<St, od::velocity_verlet<Vec>>::value>());
    if (n >= 2) s.nontrivial();
}
template <class G> void integ_go(pbt::Src&, const Ham&, Acc& acc, bool, G go, std::true_type) { go(acc); }
template <class G> void integ_go(pbt::Src& s, const Ham& h, Acc&, bool, G go, std::false_type) { if (h.unit && s.flag()) go(Fp{&h}); else go(std::make_pair(Fq{&h}, Fp{&h})); }
SUITE(integrate, 12000, 600000, "at least two steps") { switch (src.raw(4)) { case 0: integ(src, od::symplectic_euler<Vec>(), false); break; case 1: integ(src, od::symplectic_rkn_sb3a_m4_mclachlan<Vec>(), false); break; case 2: integ(src, od::symplectic_rkn_sb3a_mclachlan<Vec>(), false); break; default: integ(src, od::velocity_verlet<Vec>(), true); } }
