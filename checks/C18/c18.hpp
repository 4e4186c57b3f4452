#ifndef C18_HPP
#define C18_HPP
#include "prob.hpp"
template <class A, class B> Vec to_vec(const std::pair<A, B>& x) { Vec r(x.first.begin(), x.first.end()); r.insert(r.end(), x.second.begin(), x.second.end()); return r; }
#include "zoo.hpp"
#include "jsys.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/stepper/symplectic_rkn_sb3a_m4_mclachlan.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#define C18_RULE "at least two steps were taken and the state moved; the transformation is not the identity"
// y = T x: every slot holds a copy of one component of the original problem (times 2^k) or an inert constant
struct Tr { double sgn = 1, scale = 1, shift = 0; std::vector<int> src; Vec inert; int kind = 0; bool exact = true; // src[slot] = component or -1
    Vec fwd(const Vec& x) const { Vec y(src.size()); for (size_t s = 0; s < src.size(); ++s) y[s] = src[s] < 0 ? inert[s] : x[src[s]] * scale; return y; } };
struct TSys { std::shared_ptr<const Prob> p; std::shared_ptr<const Tr> tr;
    template <class X, class D> void operator()(const X& y, D& dy, double t) const { rhs_tick(); size_t d = p->d; Vec x(d), f(d); std::vector<char> have(d, 0); for (size_t s = 0; s < tr->src.size(); ++s) { int k = tr->src[s]; if (k >= 0 && !have[k]) { have[k] = 1; x[k] = y[s] / tr->scale; } }
        p->eval<double>(x, f, tr->sgn * (t - tr->shift)); for (size_t s = 0; s < tr->src.size(); ++s) dy[s] = tr->src[s] < 0 ? 0.0 : tr->sgn * (f[tr->src[s]] * tr->scale); } };
struct TJac { std::shared_ptr<const Prob> p; std::shared_ptr<const Tr> tr; // Jacobian and df/dt of the transformed problem, exactly equivariant
    void orig(const UV& y, double t, UM& J, UV& ft) const { size_t d = p->d; UV x(d); for (size_t s = 0; s < tr->src.size(); ++s) if (tr->src[s] >= 0) x[tr->src[s]] = y[s] / tr->scale; J = UM(d, d); ft = UV(d); JJ{p}(x, J, tr->sgn * (t - tr->shift), ft); }
    template <class M> void put(const UM& J0, M& J) const { size_t n = tr->src.size(); std::vector<int> first(p->d, -1); for (size_t s = 0; s < n; ++s) if (tr->src[s] >= 0 && first[tr->src[s]] < 0) first[tr->src[s]] = (int)s;
        for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) J(a, b) = tr->src[a] < 0 || tr->src[b] < 0 || (size_t)first[tr->src[b]] != b ? 0.0 : tr->sgn * J0(tr->src[a], tr->src[b]); }
    template <class M> void operator()(const UV& y, M& J, double t, UV& ft) const { UM J0; UV f0; orig(y, t, J0, f0); put(J0, J); for (size_t s = 0; s < tr->src.size(); ++s) ft[s] = tr->src[s] < 0 ? 0.0 : f0[tr->src[s]] * tr->scale; }
    template <class M> void operator()(const UV& y, M& J, double t) const { UM J0; UV f0; orig(y, t, J0, f0); put(J0, J); } };
struct Call18 { int fn; double t0, t1, dt; long n; Vec times; bool exact, boundary; double at, rt, ax, ad, maxdt; };
inline Call18 gen18(pbt::Src& s, long maxn, double dtmax) {
    Call18 c; Grid g = gen_grid(s, maxn, dtmax); c.t0 = g.t0; c.t1 = g.t1; c.dt = g.dt; c.n = g.n; c.exact = g.exact; c.boundary = g.boundary; c.fn = (int)s.raw(8); note_grid(s, g);
    double sg = g.dt < 0 ? -1 : 1, t = g.t0; int m = (int)s.i(1, 8); for (int k = 0; k < m; ++k) { c.times.push_back(t); t += sg * (c.exact ? s.i(0, 8) / 16.0 : s.flag(10) ? 0 : s.logmag(0.005, 0.6)); }
    c.at = s.logmag(1e-10, 1e-2); c.rt = s.logmag(1e-10, 1e-2); c.ax = s.pick({1.0, 0.5}); c.ad = s.pick({1.0, 0.0}); c.maxdt = s.flag(25) ? sg * s.logmag(0.02, 0.5) : 0; s.note("fn", c.fn); s.note("tol", c.at); s.note("rel", c.rt); s.note("maxdt", c.maxdt); return c;
}
inline Call18 tcall(const Call18& c, const Tr& t) { Call18 r = c; double g = t.sgn, h = t.shift; r.t0 = g * c.t0 + h; r.t1 = g * c.t1 + h; r.dt = g * c.dt; for (auto& x : r.times) x = g * x + h; r.at = c.at * std::fabs(t.scale); r.maxdt = g * c.maxdt; return r; }
struct Res18 { std::vector<double> t; std::vector<Vec> x; std::vector<double> fin; double ret = 0; std::vector<std::pair<double, double>> steps; long failed = 0; int how = 0; };
template <class X> Vec flat(const X& x) { return to_vec(x); }
template <class A, class B> Vec flat(const std::pair<A, B>& x) { Vec r(x.first.begin(), x.first.end()); r.insert(r.end(), x.second.begin(), x.second.end()); return r; }
struct O18 { Res18* r; template <class X> void operator()(const X& x, double t) const { if (r->t.size() > 20000) throw pbt::Discard(); r->t.push_back(t); r->x.push_back(flat(x)); } };
template <class It> void take(std::pair<It, It> r, Res18& o) { O18 ob{&o}; for (It i = r.first; i != r.second; ++i) ob(i->first, i->second); }
// functions 4..7: iterators (where they exist for the category), otherwise the integrate function again
template <class St, class Y, class X> bool iter18(const Call18& c, St& st, Y sys, X& x, Res18& r, od::stepper_tag) { switch (c.fn) { case 4: case 5: take(od::make_const_step_time_range(boost::ref(st), sys, x, c.t0, c.t1, c.dt), r); return true; case 6: take(od::make_times_time_range(boost::ref(st), sys, x, c.times.begin(), c.times.end(), c.dt), r); return true; default: take(od::make_n_step_time_range(boost::ref(st), sys, x, c.t0, c.dt, (size_t)c.n), r); return true; } }
template <class St, class Y, class X> bool iter18(const Call18& c, St& st, Y sys, X& x, Res18& r, od::controlled_stepper_tag) { switch (c.fn) { case 4: case 5: take(od::make_adaptive_time_range(boost::ref(st), sys, x, c.t0, c.t1, c.dt), r); return true; default: take(od::make_times_time_range(boost::ref(st), sys, x, c.times.begin(), c.times.end(), c.dt), r); return true; } }
template <class St, class Y, class X> bool iter18(const Call18& c, St& st, Y sys, X& x, Res18& r, od::dense_output_stepper_tag) { switch (c.fn) { case 4: take(od::make_const_step_time_range(boost::ref(st), sys, x, c.t0, c.t1, c.dt), r); return true; case 5: take(od::make_adaptive_time_range(boost::ref(st), sys, x, c.t0, c.t1, c.dt), r); return true; case 6: take(od::make_times_time_range(boost::ref(st), sys, x, c.times.begin(), c.times.end(), c.dt), r); return true; default: take(od::make_n_step_time_range(boost::ref(st), sys, x, c.t0, c.dt, (size_t)c.n), r); return true; } }
template <class St, class Y, class X> void integ18(const Call18& c, St& st, Y sys, X& x, Res18& r) { O18 ob{&r}; switch (c.fn) { case 0: r.ret = (double)od::integrate_const(boost::ref(st), sys, x, c.t0, c.t1, c.dt, ob); break; case 1: r.ret = od::integrate_n_steps(boost::ref(st), sys, x, c.t0, c.dt, (size_t)c.n, ob); break; case 2: r.ret = (double)od::integrate_times(boost::ref(st), sys, x, c.times, c.dt, ob); break; default: r.ret = (double)od::integrate_adaptive(boost::ref(st), sys, x, c.t0, c.t1, c.dt, ob); } }
template <class St, class Y, class X, class Tag> void go18(const Call18& c, St& st, Y sys, X& x, Res18& r, Tag tag, std::true_type) { if (c.fn < 4) integ18(c, st, sys, x, r); else iter18(c, st, sys, x, r, tag); }
template <class St, class Y, class X, class Tag> void go18(const Call18& c0, St& st, Y sys, X& x, Res18& r, Tag, std::false_type) { Call18 c = c0; c.fn %= 4; integ18(c, st, sys, x, r); }
template <class Iter, class Make, class Y, class X> Res18 run18(Make make, const Call18& c, Y sys, X x, bool base) {
    Res18 r; auto log = std::make_shared<StepLog>(); auto st = recorded(make(c), log); rhs_reset(300000);
    try { go18(c, st, sys, x, r, BaseTag<decltype(make(c))>(), Iter()); } catch (const pbt::Fail& f) { if (base) throw pbt::Discard(); throw; } catch (const od::step_adjustment_error&) { r.how = 1; } catch (const std::overflow_error&) { r.how = 2; }
    r.fin = flat(x); r.steps = log->steps; r.failed = log->failed; return r;
}
// inert components are combined with weights that sum to one up to rounding
inline bool eqslots(const Tr& tr, const Vec& want, const Vec& got) { if (want.size() != got.size()) return false; for (size_t k = 0; k < want.size(); ++k) if (tr.src[k] < 0 ? !(std::fabs(want[k] - got[k]) <= 1e-11 * std::fabs(want[k])) : want[k] != got[k]) return false; return true; }
// iterators write into the caller's state in a way that is compared elsewhere; here the observations count
inline void same18(pbt::Src& s, const Call18& c, const Res18& a, const Res18& b, const Tr& tr, bool bits, double tol) { // a: original, b: transformed
    const char* nm = tr.kind == 0 ? "reflection of time" : tr.kind == 1 ? "scaling" : tr.kind == 2 ? "permutation" : tr.kind == 3 ? "padding with inert components" : tr.kind == 4 ? "duplication of components" : "shift of the time origin"; s.label(nm);
    static const char* keys[] = {"reflection", "scaling", "permutation", "padding", "duplication", "shift"}; std::string key = keys[tr.kind];
    double big = std::max({std::fabs(c.t0), std::fabs(c.t1), c.times.empty() ? 0.0 : std::fabs(c.times.back()), std::fabs(c.t0 + c.n * c.dt)}), sh = std::fabs(tr.shift);
    bool tb = bits; double ttol = 8 * ulp(big + sh); (void)sh; double m = 0; for (auto& v : a.x) m = std::max(m, maxabs(v)); if (!(m < (tb ? 1e7 : 100))) throw pbt::Discard(); // near a blow-up rounding is amplified without bound
    if (a.how != b.how) pbt::fail(key + "_outcome", pbt::str(nm, ": one run ended with a step-adjustment error, the other one did not"));
    bool loose = !tb && tol > 1e-8 && (c.fn == 3 || c.fn == 4 || c.fn == 5); // step sizes chosen from error estimates close to rounding
    if (a.t.size() != b.t.size() || loose) { // without bitwise agreement a step may just fail to reach the end and be followed by a rounding-size one
        long df = std::labs((long)a.t.size() - (long)b.t.size()); bool perstep = c.fn == 3 || c.fn == 4 || c.fn == 5; if (!tb && c.boundary) throw pbt::Discard(); if (!(!tb && perstep && df <= 2 + (long)a.t.size() / 10)) pbt::fail(key + "_observations", pbt::str(nm, ": ", b.t.size(), " observations instead of ", a.t.size()));
        if (!a.how && !(maxdiff(tr.fwd(Vec(a.fin)), b.fin) <= std::max(1e-4, tol) * (1 + m) * std::fabs(tr.scale))) pbt::fail(key + "_final", pbt::str(nm, ": final state ", vstr(b.fin), " instead of ", vstr(tr.fwd(Vec(a.fin))))); if (df) s.label("differs by a step"); if (a.steps.size() > 1) s.nontrivial(); return; }
    for (size_t k = 0; k < a.t.size(); ++k) {
        double want = tr.sgn * a.t[k] + tr.shift; bool ok = tb ? want == b.t[k] : std::fabs(want - b.t[k]) <= std::max(ttol, 1e-9 * (1 + std::fabs(c.dt))); if (!ok) pbt::fail(key + "_time", pbt::str(nm, ": observation ", k, " at ", b.t[k], " instead of ", want));
        Vec y = tr.fwd(Vec(a.x[k])); if (tb ? !eqslots(tr, y, b.x[k]) : !(maxdiff(y, b.x[k]) <= tol * (1 + m) * std::fabs(tr.scale))) pbt::fail(key + "_state", pbt::str(nm, ": state ", k, " is ", vstr(b.x[k]), " instead of ", vstr(y)));
    }
    Vec y = tr.fwd(Vec(a.fin)); if (!a.how && (tb ? !eqslots(tr, y, b.fin) : !(maxdiff(y, b.fin) <= tol * (1 + m) * std::fabs(tr.scale)))) pbt::fail(key + "_final", pbt::str(nm, ": final state ", vstr(b.fin), " instead of ", vstr(y)));
    if (tb) { if (c.fn != 1) REQUIRE_K(key + "_count", a.ret == b.ret, nm, ": return value ", b.ret, " instead of ", a.ret); REQUIRE_K(key + "_trials", a.steps.size() == b.steps.size() && a.failed == b.failed, nm, ": ", b.steps.size(), "+", b.failed, " trials instead of ", a.steps.size(), "+", a.failed);
        for (size_t k = 0; k < a.steps.size(); ++k) REQUIRE_K(key + "_steps", tr.sgn * a.steps[k].first + tr.shift == b.steps[k].first && tr.sgn * a.steps[k].second + tr.shift == b.steps[k].second, nm, ": step ", k, " is [", b.steps[k].first, ",", b.steps[k].second, "] instead of [", tr.sgn * a.steps[k].first + tr.shift, ",", tr.sgn * a.steps[k].second + tr.shift, "]"); }
    if (a.steps.size() > 1 && a.x.size() && maxdiff(a.x[0], a.fin) > 1e-9) s.nontrivial();
}
// kinds: 0 reflection 1 scaling 2 permutation 3 padding 4 duplication 5 shift
inline Tr gen_tr(pbt::Src& s, int d, const Call18& c, std::initializer_list<int> kinds, bool zero_inert) {
    Tr t; t.kind = *(kinds.begin() + s.raw(kinds.size())); for (int k = 0; k < d; ++k) t.src.push_back(k); t.inert.assign(64, 0.0);
    switch (t.kind) { case 0: t.sgn = -1; break; case 1: { int k = (int)s.i(1, 24); t.scale = std::ldexp(1.0, s.flag() ? -k : k); if (s.flag(30)) t.scale = -t.scale; break; }
    case 2: for (int k = d - 1; k > 0; --k) std::swap(t.src[k], t.src[s.raw(k + 1)]); break;
    case 3: { int n = (int)s.i(1, 4); for (int k = 0; k < n; ++k) t.src.insert(t.src.begin() + s.raw(t.src.size() + 1), -1); bool z = zero_inert || s.flag(); for (size_t k = 0; k < t.src.size(); ++k) t.inert[k] = z ? 0.0 : 1.5 + k; break; }
    case 4: { int n = (int)s.i(1, 3); for (int k = 0; k < n; ++k) { int v = (int)s.raw(d); t.src.insert(t.src.begin() + s.raw(t.src.size() + 1), v); } break; }
    default: t.exact = c.exact || s.flag(); t.shift = t.exact ? s.i(1, 512) / 8.0 : s.mag(0.01, 60); if (s.flag()) t.shift = -t.shift; }
    s.note("transformation", t.kind); if (t.kind == 1) s.note("scale", t.scale); if (t.kind == 5) s.note("shift", t.shift); { Vec v(t.src.begin(), t.src.end()); s.note("slots", v); } return t;
}
#define ALLTR {0, 1, 2, 3, 4, 5}
// step sizes chosen from error estimates react to rounded times: the runs agree to the accuracy asked for
inline void shift_adaptive(const Call18& c, Prob& p, double& tol) { if (p.kind != K_SIN && p.kind != K_LIN && p.kind != K_LINT) p.kind = K_LINT; double T = std::max({std::fabs(c.t1 - c.t0), std::fabs(c.n * c.dt), c.times.empty() ? 0.0 : std::fabs(c.times.back() - c.t0)}); if (T > 6) throw pbt::Discard(); tol = std::max(1e-7, 30 * (c.at + c.rt) * std::exp(1.2 * T)); }
template <class Make> void vec18(pbt::Src& s, Make make, long maxn = 200, double dtmax = 0.3, double tol = 1e-9, bool fixed = true, bool zero_inert = false, bool noisy = false) { // noisy: the method divides by time differences, so rounded times cost accuracy
    rhs_reset(); Call18 c = gen18(s, maxn, dtmax); Prob p = gen_prob(s, (int)s.i(1, 4), ALLKINDS, 1.0); Tr t = gen_tr(s, p.d, c, ALLTR, zero_inert); bool bits = true; if (t.kind == 5) { if (!fixed || noisy) { shift_adaptive(c, p, tol); } if (s.flag()) p.autonomous = true; bits = fixed && p.autonomous && c.exact && t.exact; if (noisy && !bits) throw pbt::Discard(); } Vec x0 = s.vec(p.d, 1.2); s.note(p.describe()); s.note("x0", x0);
    auto pp = std::make_shared<Prob>(p); Tr id; id.src.resize(p.d); for (int k = 0; k < p.d; ++k) id.src[k] = k; auto it = std::make_shared<Tr>(id), tt = std::make_shared<Tr>(t);
    Res18 a = run18<std::true_type>(make, c, TSys{pp, it}, x0, true), b = run18<std::true_type>(make, tcall(c, t), TSys{pp, tt}, t.fwd(x0), false); for (auto& v : a.x) if (!allfinite(v)) throw pbt::Discard(); same18(s, c, a, b, t, bits, tol);
}
#endif
