#include "jsys.hpp"
#include <boost/numeric/odeint/config.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/implicit_euler.hpp>
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/ref.hpp>
using namespace boost::numeric;
typedef std::vector<LVec> LMat;
// Gaussian elimination with partial pivoting
static LVec lsolve(LMat A, LVec b) { size_t n = b.size(); for (size_t i = 0; i < n; ++i) { size_t p = i; for (size_t r = i + 1; r < n; ++r) if (std::fabs(A[r][i]) > std::fabs(A[p][i])) p = r; std::swap(A[i], A[p]); std::swap(b[i], b[p]); for (size_t r = i + 1; r < n; ++r) { LD f = A[r][i] / A[i][i]; for (size_t c = i; c < n; ++c) A[r][c] -= f * A[i][c]; b[r] -= f * b[i]; } }
    for (size_t i = n; i-- > 0;) { for (size_t c = i + 1; c < n; ++c) b[i] -= A[i][c] * b[c]; b[i] /= A[i][i]; } return b; }
static LD inorm(const LMat& A) { LD m = 0; for (auto& r : A) { LD s = 0; for (LD v : r) s += std::fabs(v); m = std::max(m, s); } return m; }
// RODAS (Hairer & Wanner, Solving ODEs II): coefficients of the transformed method; the coefficients of
// the time derivative follow from treating time as an additional component.
struct Rodas { LD g = 0.25L, a[6][6], c[6][6], al[6], d[6]; Rodas() { for (auto& r : a) for (LD& v : r) v = 0; for (auto& r : c) for (LD& v : r) v = 0;
    a[1][0] = 1.544L; a[2][0] = 0.9466785280815826L; a[2][1] = 0.2557011698983284L; a[3][0] = 3.314825187068521L; a[3][1] = 2.896124015972201L; a[3][2] = 0.9986419139977817L; a[4][0] = 1.221224509226641L; a[4][1] = 6.019134481288629L; a[4][2] = 12.53708332932087L; a[4][3] = -0.6878860361058950L;
    for (int j = 0; j < 4; ++j) a[5][j] = a[4][j]; a[5][4] = 1;
    c[1][0] = -5.66880L; c[2][0] = -2.430093356833875L; c[2][1] = -0.2063599157091915L; c[3][0] = -0.1073529058151375L; c[3][1] = -9.594562251023355L; c[3][2] = -20.47028614809616L; c[4][0] = 7.496443313967647L; c[4][1] = -10.24680431464352L; c[4][2] = -33.99990352819905L; c[4][3] = 11.70890893206160L; c[5][0] = 8.083246795921522L; c[5][1] = -7.981132988064893L; c[5][2] = -31.52159432874371L; c[5][3] = 16.31930543123136L; c[5][4] = -6.058818238834054L;
    for (int i = 0; i < 6; ++i) { LD s = 1; for (int j = 0; j < i; ++j) s += c[i][j] * d[j]; d[i] = g * s; LD t = 0; for (int j = 0; j < i; ++j) t += a[i][j] * d[j]; al[i] = t; } } };
static const Rodas RO;
// f(x,t)->LVec, J(x,t)->LMat, ft(x,t)->LVec; returns the new state, err
template <class F, class J, class T> LVec rodas_step(F f, J jac, T ft, const LVec& x, LD t, LD h, LVec& err) {
    size_t n = x.size(); LMat M = jac(x, t); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j < n; ++j) M[i][j] = -M[i][j]; M[i][i] += 1 / (RO.g * h); } LVec tt = ft(x, t); std::vector<LVec> gs;
    for (int s = 0; s < 6; ++s) { LVec y = x; for (int j = 0; j < s; ++j) for (size_t i = 0; i < n; ++i) y[i] += RO.a[s][j] * gs[j][i]; LVec b = f(y, t + RO.al[s] * h); for (size_t i = 0; i < n; ++i) { b[i] += h * RO.d[s] * tt[i]; for (int j = 0; j < s; ++j) b[i] += RO.c[s][j] * gs[j][i] / h; } gs.push_back(lsolve(M, b)); }
    LVec y = x; for (size_t i = 0; i < n; ++i) { for (int j = 0; j < 5; ++j) y[i] += RO.a[5][j] * gs[j][i]; y[i] += gs[5][i]; } err = gs[5]; return y;
}
static LVec pf(const Prob& p, const LVec& x, LD t) { LVec d(x.size()); p.eval<LD>(x, d, t); return d; }
static LMat pj(const Prob& p, const LVec& x0, LD t) { size_t n = x0.size(); LMat J(n, LVec(n)); LVec x = x0; const LD h = 1e-6L; for (size_t k = 0; k < n; ++k) { LD s = x[k]; x[k] = s + h; LVec a = pf(p, x, t); x[k] = s - h; LVec b = pf(p, x, t); x[k] = s; for (size_t i = 0; i < n; ++i) J[i][k] = (a[i] - b[i]) / (2 * h); } return J; }
static LVec pt(const Prob& p, const LVec& x, LD t) { const LD h = 1e-6L; LVec a = pf(p, x, t + h), b = pf(p, x, t - h); for (size_t i = 0; i < a.size(); ++i) a[i] = (a[i] - b[i]) / (2 * h); return a; }
#define C16_RULE "the system is coupled or explicitly time dependent and the state moved"
static Prob c16_prob(pbt::Src& s) { Prob p = gen_prob(s, (int)s.i(1, 5), ALLKINDS, 1.5); if (s.flag(20)) for (auto& a : p.A) a *= 10; return p; }
// the stage equations
SUITE(rosenbrock_step, 40000, 2000000, C16_RULE) {
    static std::string dbg; static bool sane = [] { // the reference itself is of order 4: a non-autonomous scalar equation at two step sizes
        auto f = [](const LVec& x, LD t) { return LVec{std::cos(t) * x[0] + t * t}; }; auto j = [](const LVec&, LD t) { return LMat{{std::cos(t)}}; }; auto ft = [](const LVec& x, LD t) { return LVec{-std::sin(t) * x[0] + 2 * t}; }; LD e[2]; for (int k = 0; k < 2; ++k) { LD h = k ? 0.025L : 0.05L; LVec er, x = rodas_step(f, j, ft, LVec{1}, 0.3L, h, er), y{1}; Tableau tb = tb_rkf78(); for (int q = 0; q < 8; ++q) y = rk_step<LD>(tb, [&](const LVec& a, LVec& b, LD t) { b = f(a, t); }, y, 0.3L + q * h / 8, h / 8); e[k] = std::fabs(x[0] - y[0]); } dbg = pbt::str(e[0], " ", e[1]); return e[0] / e[1] > 18 && e[0] < 1e-9L; }();
    REQUIRE_K("reference", sane, "the Rosenbrock reference is not of order 4: ", dbg);
    rhs_reset(); pbt::Src& s = src; Prob p = c16_prob(s); JPair sys = jpair(p); Vec x = s.vec(p.d, 2.0); double t = s.flag(70) ? s.num(3) : s.num(50); double dt = s.logmag(1e-3, 1.0); if (s.flag()) dt = -dt; int n = (int)s.i(1, 4); s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt);
    pbt::Poisoned<odeint::rosenbrock4<double>> st; bool moved = false;
    for (int q = 0; q < n; ++q) {
        int form = (int)s.raw(6); UV in = mk(x), out(p.d, NAN), err(p.d, NAN); bool he = form < 3; 
        switch (form) { case 0: out = in; st->do_step(sys, out, t, dt, err); break; case 1: st->do_step(sys, in, t, out, dt, err); break; case 2: st->do_step(boost::ref(sys), in, t, out, dt, err); break; case 3: out = in; st->do_step(sys, out, t, dt); break; case 4: st->do_step(sys, in, t, out, dt); break; default: out = in; st->do_step(std::make_pair(boost::ref(sys.first), boost::ref(sys.second)), out, t, dt); }
        REQUIRE_K("input_written", form == 0 || form == 3 || form == 5 || same_bits(uv(in), x), "the input state changed");
        LVec e, r = rodas_step([&](const LVec& y, LD u) { return pf(p, y, u); }, [&](const LVec& y, LD u) { return pj(p, y, u); }, [&](const LVec& y, LD u) { return pt(p, y, u); }, toL(x), t, dt, e);
        LMat M = pj(p, toL(x), t); for (int i = 0; i < p.d; ++i) { for (int j = 0; j < p.d; ++j) M[i][j] *= -RO.g * (LD)dt; M[i][i] += 1; } double inv = 0; for (int j = 0; j < p.d; ++j) { LVec u(p.d, 0); u[j] = 1; LVec v = lsolve(M, u); for (LD w : v) inv += std::fabs((double)w); }
        double k = inv * (double)inorm(M); double sc = 1; for (LD v : r) sc = std::max(sc, (double)std::fabs(v)); sc += maxabs(x); for (LD v : e) sc += (double)std::fabs(v); if (!(k < 300) || !(sc < 1e4)) throw pbt::Discard();
        double tol = 3e-11 * sc * k * k * (1 + std::fabs(dt)) * (1 + std::fabs(t) / 20) * (1 + maxabs(x) * 0.3) * (p.A.size() && maxabs(p.A) > 4 ? 30 : 1) * (1 + sc * sc * 0.03);
        check_close("state", pbt::str("step ", q, " form ", form), uv(out), r, tol); if (he) check_close("error", pbt::str("error estimate, step ", q, " form ", form), uv(err), e, tol);
        moved |= maxdiff(r, x) > 1e-3; x = uv(out); t += dt; if (maxabs(x) > 50) break;
    }
    if (moved && (p.d > 1 || !p.autonomous)) s.nontrivial(); if (dt < 0) s.label("backward"); if (!p.autonomous) s.label("time dependent");
}
// order 4 in practice: compare with the solution at step h and h/2
SUITE(rosenbrock_accuracy, 20000, 600000, C16_RULE) {
    rhs_reset(); pbt::Src& s = src; Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); JPair sys = jpair(p); Vec x = s.vec(p.d, 1.5); double t = s.num(3); double h = s.logmag(0.01, 0.2); if (s.flag()) h = -h; s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("h", h);
    odeint::rosenbrock4<double> st; UV o(p.d), e(p.d); st.do_step(sys, mk(x), t, o, h, e); LVec r = ref_solve(p, toL(x), t, t + h, 0.02L); double m = 1 + maxabs(x), lip = 1 + 0.3 * m * (std::fabs(t) + 1) * 0.3, H = std::fabs(h);
    check_close("order", "one step against the solution", uv(o), r, 3 * std::pow(H, 5) * m * std::pow(lip, 4) * 2 + 1e-12 * m); REQUIRE_K("error_order", maxabs(uv(e)) <= 10 * std::pow(H, 4) * m * std::pow(lip, 3) + 1e-11 * m, "error estimate ", vstr(uv(e)), " for step ", h);
    if (p.d > 1 || !p.autonomous) s.nontrivial();
}
// stiff linear systems: the stability function, damping
struct Lin { LMat A; LVec b; };
static Lin gen_stiff(pbt::Src& s, int d, bool& triangular) { Lin l; l.A.assign(d, LVec(d, 0)); l.b.assign(d, 0); triangular = true; for (int i = 0; i < d; ++i) { l.A[i][i] = -(double)s.logmag(0.1, 1e8); for (int j = i + 1; j < d; ++j) l.A[i][j] = s.num(3); if (s.flag(20)) l.b[i] = s.num(2); } return l; }
struct LF { std::shared_ptr<Lin> l; void operator()(const UV& x, UV& dx, double) const { for (size_t i = 0; i < x.size(); ++i) { LD v = l->b[i]; for (size_t j = 0; j < x.size(); ++j) v += l->A[i][j] * x[j]; dx[i] = (double)v; } } };
struct LJ { std::shared_ptr<Lin> l; void fill(UM& J) const { for (size_t i = 0; i < l->b.size(); ++i) for (size_t j = 0; j < l->b.size(); ++j) J(i, j) = (double)l->A[i][j]; } void operator()(const UV&, UM& J, double, UV& ft) const { fill(J); for (auto& v : ft) v = 0; } void operator()(const UV&, UM& J, double) const { fill(J); } };
static LD stab(LD z) { LVec e; return rodas_step([&](const LVec& y, LD) { return LVec{z * y[0]}; }, [&](const LVec&, LD) { return LMat{{z}}; }, [](const LVec&, LD) { return LVec{0}; }, LVec{1}, 0, 1, e)[0]; }
SUITE(rosenbrock_stiff, 20000, 800000, "at least one component is stiff: |eigenvalue * step| > 100") {
    pbt::Src& s = src; int d = (int)s.i(1, 3); bool tri; auto l = std::make_shared<Lin>(gen_stiff(s, d, tri)); Vec x = s.vec(d, 2.0); double dt = s.logmag(1e-3, 10); s.note("dt", dt); s.note("x", x); for (auto& r : l->A) s.note("row", toD(r)); s.note("b", toD(l->b));
    odeint::rosenbrock4<double> st; auto sys = std::make_pair(LF{l}, LJ{l}); UV y = mk(x); int n = (int)s.i(1, 6); bool homo = true; for (LD v : l->b) homo &= v == 0;
    double zmax = 0; for (int i = 0; i < d; ++i) zmax = std::max(zmax, (double)std::fabs(l->A[i][i] * dt)); if (zmax > 100) s.nontrivial();
    for (int q = 0; q < n; ++q) { Vec before = uv(y); st.do_step(sys, y, 0.0, dt); LD last = stab(l->A[d - 1][d - 1] * (LD)dt);
        if (homo || l->b[d - 1] == 0) REQUIRE_K("stability_function", std::fabs((double)(y[d - 1] - last * before[d - 1])) <= 1e-9 * (std::fabs(before[d - 1])), "component with z=", (double)(l->A[d - 1][d - 1] * dt), " went from ", before[d - 1], " to ", y[d - 1], " instead of ", (double)(last * before[d - 1]));
        Vec a = uv(y); REQUIRE_K("damping", allfinite(a) && maxabs(a) <= 1e4 * (1 + maxabs(x)), "state grew to ", vstr(a)); 
        LVec xe = l->b; for (auto& v : xe) v = -v; bool st2 = true; for (int i = 0; i < d; ++i) st2 &= std::fabs((double)l->A[i][i] * dt) > 1e4; if (st2) { LVec eq = lsolve(l->A, xe); check_close("damping", "after one step with all components stiff", a, eq, 0.05 * maxdiff(eq, before) + 1e-9 * (1 + maxabs(before))); s.label("all components stiff"); } }
}
SUITE(implicit_euler_equation, 40000, 2000000, C16_RULE) {
    rhs_reset(20000); pbt::Src& s = src; Prob p = c16_prob(s); JPair sys = jpair(p); Vec x = s.vec(p.d, 2.0); double t = s.flag(70) ? s.num(3) : s.num(50), dt = s.logmag(1e-3, 0.5); if (s.flag()) dt = -dt; double eps = s.logmag(1e-12, 1e-2); int n = (int)s.i(1, 4);
    s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt); s.note("epsilon", eps); pbt::Poisoned<odeint::implicit_euler<double>> st(eps); bool moved = false;
    for (int q = 0; q < n; ++q) {
        // where the simplified Newton iteration contracts (checked with the reference), the stepper has to satisfy its equation
        LVec x0 = toL(x); LMat J = pj(p, x0, (LD)t + (LD)dt); int d = p.d; for (int i = 0; i < d; ++i) { for (int j = 0; j < d; ++j) J[i][j] *= -(LD)dt; J[i][i] += 1; } LVec y = x0; LD prev = 0; bool ok = true; double inv = 0; for (int j = 0; j < d; ++j) { LVec u(d, 0); u[j] = 1; for (LD w : lsolve(J, u)) inv += std::fabs((double)w); }
        for (int it = 0; it < 60; ++it) { LVec f = pf(p, y, (LD)t + (LD)dt), F(d); for (int i = 0; i < d; ++i) F[i] = x0[i] - y[i] + (LD)dt * f[i]; LVec b = lsolve(J, F); LD m = 0; for (int i = 0; i < d; ++i) { y[i] += b[i]; m = std::max(m, std::fabs(b[i])); } if (it && m > 1e-14L && !(m < 0.5L * prev)) ok = false; prev = m; if (m < 1e-16L) break; }
        if (!ok || !(inv * (double)inorm(J) < 300) || !allfinite(y)) { s.label("iteration not contracting"); if (q == 0) throw pbt::Discard(); break; }
        { double big = maxabs(x) + maxabs(toD(y)) + std::fabs(dt) * maxabs(toD(pf(p, y, (LD)t + (LD)dt))); if (eps < 1e-14 * big * inv * (double)inorm(J)) { s.label("tolerance below rounding"); if (q == 0) throw pbt::Discard(); break; } }
        UV u = mk(x); int form = (int)s.raw(3); if (form == 0) st->do_step(sys, u, t, dt); else if (form == 1) st->do_step(boost::ref(sys), u, t, dt); else st->do_step(std::make_pair(boost::ref(sys.first), boost::ref(sys.second)), u, t, dt);
        double sc = 1 + maxabs(x) + std::fabs(t); LVec yd = toL(uv(u)), f = pf(p, yd, (LD)t + (LD)dt); Vec F(d); for (int i = 0; i < d; ++i) F[i] = (double)(yd[i] - x0[i] - (LD)dt * f[i]);
        REQUIRE_K("equation", maxabs(F) <= (double)inorm(J) * eps * 1.01 + 1e-12 * sc * inv * 10, "residual of the backward Euler equation ", vstr(F), " with tolerance ", eps, " state ", vstr(uv(u)));
        check_close("state", pbt::str("step ", q), uv(u), y, 2 * eps + 1e-11 * sc * inv); moved |= maxdiff(y, x) > 1e-3; x = uv(u); t += dt; if (maxabs(x) > 50) break;
    }
    if (moved && (p.d > 1 || !p.autonomous)) s.nontrivial(); if (dt < 0) s.label("backward"); if (eps < 1e-8) s.label("tight tolerance");
}
SUITE(implicit_euler_stiff, 15000, 600000, "at least one component is stiff: |eigenvalue * step| > 100") {
    pbt::Src& s = src; int d = (int)s.i(1, 3); bool tri; auto l = std::make_shared<Lin>(gen_stiff(s, d, tri)); if (s.flag(40)) { // a full matrix with the same spectrum scale: needs pivoting
        for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) l->A[i][j] = s.num(0.05); if (d > 1) std::swap(l->A[0][0], l->A[1][1]); s.label("full matrix"); }
    Vec x = s.vec(d, 2.0); double dt = s.logmag(1e-3, 10), eps = s.logmag(1e-10, 1e-4); s.note("dt", dt); s.note("x", x); s.note("epsilon", eps); for (auto& r : l->A) s.note("row", toD(r)); s.note("b", toD(l->b)); odeint::implicit_euler<double> st(eps); auto sys = std::make_pair(LF{l}, LJ{l}); UV y = mk(x); int n = (int)s.i(1, 6);
    double zmax = 0; for (int i = 0; i < d; ++i) zmax = std::max(zmax, (double)std::fabs(l->A[i][i] * dt)); if (zmax > 100) s.nontrivial();
    for (int q = 0; q < n; ++q) { Vec b4 = uv(y); LMat M = l->A; LVec r = toL(b4); for (int i = 0; i < d; ++i) { for (int j = 0; j < d; ++j) M[i][j] *= -(LD)dt; M[i][i] += 1; r[i] += dt * l->b[i]; } LVec w = lsolve(M, r); st.do_step(sys, y, 0.0, dt); check_close("linear", pbt::str("step ", q), uv(y), w, 1e-9 * (1 + maxabs(b4)) + 1e-14 * zmax * 0 + 2 * eps); }
}
// a singular matrix has to be reported, not to end the program
SUITE(implicit_euler_singular, 500, 20000, "the Newton matrix is exactly singular") {
    pbt::Src& s = src; int d = (int)s.i(1, 3), z = (int)s.raw(d); auto l = std::make_shared<Lin>(); l->A.assign(d, LVec(d, 0)); l->b.assign(d, 1); double dt = std::ldexp(1.0, -(int)s.i(0, 4)); for (int i = 0; i < d; ++i) l->A[i][i] = i == z ? 1 / dt : -1; s.note("dt", dt); s.note("dimension", d); s.note("singular row", z); s.nontrivial();
    odeint::implicit_euler<double> st; UV y(d, 1.0); bool thrown = false; try { st.do_step(std::make_pair(LF{l}, LJ{l}), y, 0.0, dt); } catch (const std::runtime_error&) { thrown = true; } REQUIRE_K("singular", thrown, "no error reported for a singular matrix, state ", vstr(uv(y)));
}
