#ifndef C22_HPP
#define C22_HPP
#include "zoo.hpp"
#include "jsys.hpp"
#include <boost/numeric/odeint.hpp>
#include <boost/numeric/odeint/iterator/const_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/const_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_iterator.hpp>
#include <boost/numeric/odeint/iterator/adaptive_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_iterator.hpp>
#include <boost/numeric/odeint/iterator/n_step_time_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_iterator.hpp>
#include <boost/numeric/odeint/iterator/times_time_iterator.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <functional>
#define C22_RULE "two or more calls on the same objects, at least one argument by reference and one by value, and steps were taken in each"
// what really happened, shared by all copies of the arguments
struct Sink { long sys = 0, steps = 0, trials = 0, obs = 0; bool in = false; double lo = 0, hi = 0; size_t d = 0; std::string bad; std::vector<std::shared_ptr<void>> own; std::vector<double> trace; void note(const std::string& s) { if (bad.empty()) bad = s; } };
template <class A, class B> bool overlaps(const A& a, const B& b) { return a.size() && b.size() && (const void*)&a[0] == (const void*)&b[0]; }
inline Vec vv(const Vec& v) { return v; } inline Vec vv(const UV& v) { return uv(v); } typedef std::pair<Vec, Vec> PV; inline Vec vv(const PV& v) { Vec r(v.first); r.insert(r.end(), v.second.begin(), v.second.end()); return r; }
// counters that belong to the one object
inline bool ontime(Sink* k, double t) { double u = 64 * 2.3e-16 * std::max({std::fabs(k->lo), std::fabs(k->hi), std::fabs(k->hi - k->lo)}) + 1e-300; return t >= std::min(k->lo, k->hi) - u && t <= std::max(k->lo, k->hi) + u; }
struct CSys { std::shared_ptr<const Prob> p; Sink* k; long n = 0; CSys(const Prob& q, Sink* s) : p(std::make_shared<Prob>(q)), k(s) {}
    template <class X, class D> void operator()(const X& x, D& dx, double t) { rhs_tick(); ++n; ++k->sys; if (x.size() != k->d || dx.size() != k->d) { k->note(pbt::str("the system was called with states of size ", x.size(), " and ", dx.size(), ", the caller's state has ", k->d)); if (x.size() < k->d || dx.size() < k->d) return; } if (overlaps(x, dx)) k->note("the system's input and output are the same object"); if (!k->in) k->note("the system was called outside of any step"); else if (!ontime(k, t)) k->note(pbt::str("the system was called at time ", t, " in a step from ", k->lo, " to ", k->hi)); p->eval<double>(x, dx, t); } };
// systems made of two functions
struct CJac { JJ j; Sink* k; long n = 0; template <class... A> void go(const UV& x, double t, UM& J, A&... a) { rhs_tick(); ++n; ++k->sys; if (x.size() != k->d || J.size1() != k->d || J.size2() != k->d) return k->note("the Jacobian was called with other sizes than the caller's state has"); if (!k->in) k->note("the Jacobian was called outside of any step"); else if (!ontime(k, t)) k->note(pbt::str("the Jacobian was called at time ", t, " in a step from ", k->lo, " to ", k->hi)); }
    void operator()(const UV& x, UM& J, double t, UV& f) { go(x, t, J); if (x.size() == k->d) j(x, J, t, f); } void operator()(const UV& x, UM& J, double t) { go(x, t, J); if (x.size() == k->d) j(x, J, t); } };
// one half of a separable Hamiltonian system: out = c0 * in + c1 * sin(in)
struct CHalf { double c0, c1; Sink* k; long n = 0; void operator()(const Vec& x, Vec& o) { rhs_tick(); ++n; ++k->sys; if (x.size() * 2 != k->d || o.size() * 2 != k->d) return k->note("the system was called with other sizes than the caller's state has"); if (!k->in) k->note("the system was called outside of any step"); if (overlaps(x, o)) k->note("the system's input and output are the same object"); for (size_t i = 0; i < x.size(); ++i) o[i] = c0 * x[i] + c1 * std::sin(x[i] + i); } };
struct CAcc { double c0, c1; Sink* k; long n = 0; void operator()(const Vec& x, const Vec& v, Vec& a, double t) { rhs_tick(); ++n; ++k->sys; if (x.size() * 2 != k->d || a.size() * 2 != k->d || v.size() * 2 != k->d) return k->note("the system was called with other sizes than the caller's state has"); if (!k->in) k->note("the system was called outside of any step"); else if (!ontime(k, t)) k->note(pbt::str("the system was called at time ", t, " in a step from ", k->lo, " to ", k->hi)); if (overlaps(x, a) || overlaps(v, a)) k->note("the system's input and output are the same object"); for (size_t i = 0; i < x.size(); ++i) a[i] = c0 * x[i] + c1 * std::sin(x[i] + t) - 0.1 * v[i]; } };
// pairs of references to two functions that live elsewhere (kept alive by the sink)
template <class F, class G> struct Store { F f; G g; };
template <bool STD, class F, class G> auto refs(Sink* k, const F& f, const G& g) { auto q = std::make_shared<Store<F, G>>(Store<F, G>{f, g}); k->own.push_back(q); if constexpr (STD) return std::pair<std::reference_wrapper<F>, std::reference_wrapper<G>>(std::ref(q->f), std::ref(q->g)); else return std::pair<boost::reference_wrapper<F>, boost::reference_wrapper<G>>(boost::ref(q->f), boost::ref(q->g)); }
template <class S> long calls(const S& s) { return s.n; } template <class F> long calls(const boost::reference_wrapper<F>& s) { return s.get().n; } template <class F> long calls(const std::reference_wrapper<F>& s) { return s.get().n; } template <class F, class G> long calls(const std::pair<F, G>& s) { return calls(s.first) + calls(s.second); }
template <class S> bool refpair(const S&) { return false; } template <class F, class G> bool refpair(const std::pair<std::reference_wrapper<F>, G>&) { return true; } template <class F, class G> bool refpair(const std::pair<boost::reference_wrapper<F>, G>&) { return true; }
struct CObs { Sink* k; long n = 0; long first = -1; explicit CObs(Sink* s) : k(s) {} template <class X> void operator()(const X& z, double t) { Vec x = vv(z); if (first < 0) first = k->obs; ++n; ++k->obs; k->trace.push_back(t); for (size_t i = 0; i < (size_t)x.size(); ++i) k->trace.push_back(x[i]); if (k->in) k->note("the observer was called during a step"); if (x.size() != k->d) k->note("the observer got a state of another size"); k->trace.push_back((double)n); } };
// counting steppers; the counter is part of the object, the sink is told about every (trial) step
template <class B> struct CStep : B { Sink* k = nullptr; long n = 0; CStep(const B& b, Sink* s) : B(b), k(s) {}
    void open(double a, double b) { k->in = true; k->lo = a; k->hi = b; ++n; ++k->trials; } void shut() { k->in = false; } struct G { CStep* c; ~G() { c->shut(); } };
    template <class Y, class X> auto do_step(Y y, X&& x, double t, double dt) { open(t, t + dt); G g{this}; ++k->steps; return B::do_step(y, x, t, dt); }
    template <class Y, class X> od::controlled_step_result try_step(Y y, X&& x, double& t, double& dt) { open(t, t + dt); G g{this}; od::controlled_step_result r = B::try_step(y, x, t, dt); k->steps += r == od::success; return r; }
    template <class Y> std::pair<double, double> do_step(Y y) { open(this->current_time(), this->current_time() + this->current_time_step()); G g{this}; ++k->steps; return B::do_step(y); }
};
template <class B> CStep<B> counted(const B& b, Sink* s) { return CStep<B>(b, s); }
struct Cl { int fn; double t0, dt, t1; long n; Vec times; int a; bool dense; };
inline Cl gen_cl(pbt::Src& s, int nfn) { Cl c; c.fn = (int)s.raw(nfn); c.n = s.i(1, 5); c.t0 = s.num(3); double sg = s.flag(30) ? -1 : 1; c.dt = sg * s.logmag(0.01, 0.4); double t = c.t0; for (int k = 0; k <= c.n; ++k) { c.times.push_back(t); t += sg * (s.raw(5) ? s.logmag(0.01, 0.5) : 0); } c.t1 = c.t0 + c.dt * (c.n + s.pick({0.4, 0.0})); c.a = (int)s.raw(6); s.note("fn", c.fn); s.note("t0", c.t0); s.note("dt", c.dt); s.note("n", c.n); s.note("passing", c.a); if (c.fn == 3 || c.fn == 5) s.note("times", c.times); return c; }
inline const char* passing(int a, int arg) { static const char* f[6] = {"vvv", "bbb", "sss", "bvs", "vsb", "svv"}; switch (f[a][arg]) { case 'v': return "by value"; case 'b': return "by boost::ref"; default: return "by std::ref"; } }
template <int A> struct Ps; // stepper, system, observer
#define PS(A, F, G, H) template <> struct Ps<A> { template <class T> static auto st(T& t) { return F(t); } template <class T> static auto sy(T& t) { return G(t); } template <class T> static auto ob(T& t) { return H(t); } };
template <class T> T val(T& t) { return t; }
PS(0, val, val, val) PS(1, boost::ref, boost::ref, boost::ref) PS(2, std::ref, std::ref, std::ref) PS(3, boost::ref, val, std::ref) PS(4, val, std::ref, boost::ref) PS(5, std::ref, val, val)
template <class P, class S, class Y, class X, class O> double fcall(const Cl& c, S& st, Y& sy, X& x, O& ob) {
    switch (c.fn) {
    case 0: return (double)od::integrate_const(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt, P::ob(ob)); case 1: return od::integrate_n_steps(P::st(st), P::sy(sy), x, c.t0, c.dt, (size_t)c.n, P::ob(ob)); case 2: return (double)od::integrate_adaptive(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt, P::ob(ob)); case 3: return (double)od::integrate_times(P::st(st), P::sy(sy), x, c.times, c.dt, P::ob(ob));
    case 4: return (double)od::integrate_const(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt, P::ob(ob), od::max_step_checker(5000)); case 5: return (double)od::integrate_times(P::st(st), P::sy(sy), x, c.times.begin(), c.times.end(), c.dt, P::ob(ob), od::max_step_checker(5000)); default: return od::integrate_n_steps(P::st(st), P::sy(sy), x, c.t0, c.dt, (size_t)c.n, P::ob(ob), od::max_step_checker(5000)); }
}
template <class S, class Y, class X, class O> double acall(const Cl& c, S& st, Y& sy, X& x, O& ob) { switch (c.a) { case 0: return fcall<Ps<0>>(c, st, sy, x, ob); case 1: return fcall<Ps<1>>(c, st, sy, x, ob); case 2: return fcall<Ps<2>>(c, st, sy, x, ob); case 3: return fcall<Ps<3>>(c, st, sy, x, ob); case 4: return fcall<Ps<4>>(c, st, sy, x, ob); default: return fcall<Ps<5>>(c, st, sy, x, ob); } }
// continue both steppers by hand and compare
template <class S, class Y, class X> std::vector<double> probe(S st, Y sy, X x, od::stepper_tag) { std::vector<double> r; for (int k = 0; k < 3; ++k) { st.do_step(boost::ref(sy), x, 0.1 * k, 0.1); for (double z : vv(x)) r.push_back(z); } return r; }
template <class S, class Y, class X> std::vector<double> probe(S st, Y sy, X x, od::error_stepper_tag) { return probe(st, sy, x, od::stepper_tag()); }
template <class S, class Y, class X> std::vector<double> probe(S st, Y sy, X x, od::explicit_error_stepper_fsal_tag) { return probe(st, sy, x, od::stepper_tag()); }
template <class S, class Y, class X> std::vector<double> probe(S st, Y sy, X x, od::controlled_stepper_tag) { std::vector<double> r; double t = 0.3, dt = 0.05; for (int k = 0; k < 4; ++k) { try { r.push_back(st.try_step(boost::ref(sy), x, t, dt)); } catch (const od::odeint_error&) { r.push_back(-7); break; } r.push_back(t); r.push_back(dt); for (double z : vv(x)) r.push_back(z); } return r; }
template <class S, class Y, class X> std::vector<double> probe(S st, Y sy, X x, od::dense_output_stepper_tag) { std::vector<double> r; st.initialize(x, 0.3, 0.05); for (int k = 0; k < 3; ++k) { try { auto p = st.do_step(boost::ref(sy)); r.push_back(p.second); } catch (const od::odeint_error&) { r.push_back(-7); break; } for (double z : vv(st.current_state())) r.push_back(z); } return r; }
// a sequence of calls on the same stepper, system and observer objects
template <class S, class Mk, class X> void seq(pbt::Src& s, S base, Mk mksys, const X& x0, size_t d, int nfn) {
    Sink k; k.d = d; rhs_reset(400000); auto st = counted(base, &k); auto sy = mksys(&k); CObs ob(&k); X x(x0); int m = (int)s.i(1, 4); bool anyref = false, anyval = false, all = true; long stn = 0, syn = 0, obn = 0; typedef typename S::stepper_category Cat;
    for (int j = 0; j < m; ++j) {
        Cl c = gen_cl(s, nfn); Sink b = k; auto st0 = st; X xb(x); const Vec times0 = c.times; double ret;
        try { ret = acall(c, st, sy, x, ob); } catch (const od::odeint_error&) { throw pbt::Discard(); } catch (const std::overflow_error&) { throw pbt::Discard(); }
        if (!allfinite(vv(x)) || maxabs(vv(x)) > 1e6) throw pbt::Discard();
        REQUIRE_K("system_calls", k.bad.empty(), "call ", j, ": ", k.bad); REQUIRE_K("caller_state", vv(x).size() == d, "the caller's state has size ", vv(x).size()); REQUIRE_K("times_untouched", same_bits(c.times, times0), "the list of times changed");
        const char* f; f = passing(c.a, 0); if (f[3] == 'v') { REQUIRE_K("stepper_by_value", st.n == stn, "call ", j, ": the stepper was passed by value, but it did ", st.n - stn, " steps"); anyval = true; } else { REQUIRE_K("stepper_by_reference", st.n - stn == k.trials - b.trials, "call ", j, ": stepper ", f, " did ", st.n - stn, " of ", k.trials - b.trials, " steps"); anyref = true; }
        f = passing(c.a, 1); if (f[3] == 'v' && !refpair(sy)) { REQUIRE_K("system_by_value", calls(sy) == syn, "call ", j, ": the system was passed by value, but it was called ", calls(sy) - syn, " times"); anyval = true; } else { REQUIRE_K("system_by_reference", calls(sy) - syn == k.sys - b.sys, "call ", j, ": system ", f, " got ", calls(sy) - syn, " of ", k.sys - b.sys, " calls"); anyref = true; }
        f = passing(c.a, 2); std::vector<double> seen; for (size_t q = b.trace.size() + d + 1; q < k.trace.size(); q += d + 2) seen.push_back(k.trace[q]);
        if (f[3] == 'v') { REQUIRE_K("observer_by_value", ob.n == obn, "call ", j, ": the observer was passed by value, but it was called ", ob.n - obn, " times"); anyval = true; } else { REQUIRE_K("observer_by_reference", ob.n - obn == k.obs - b.obs, "call ", j, ": observer ", f, " got ", ob.n - obn, " of ", k.obs - b.obs, " calls"); anyref = true; }
        for (size_t q = 0; q < seen.size(); ++q) REQUIRE_K("observer_memory", seen[q] == obn + (double)q + 1, "call ", j, ": observer ", f, " counts ", seen[q] - obn, " at its call number ", q + 1);
        // the same call with the other passing forms on copies has the same effect
        { Sink k2; k2.d = d; auto s2 = st0; s2.k = &k2; auto y2 = mksys(&k2); CObs o2(&k2); o2.n = obn; X x2(xb); Cl c2 = c; c2.a = (int)s.raw(6); s.note("twin passing", c2.a); double r2 = acall(c2, s2, y2, x2, o2); std::vector<double> tr(k.trace.begin() + b.trace.size(), k.trace.end());
            REQUIRE_K("same_effect", r2 == ret && same_bits(vv(x2), vv(x)) && same_bits(k2.trace, tr) && k2.sys == k.sys - b.sys && k2.trials == k.trials - b.trials, "call ", j, ": passing form ", c.a, " and ", c2.a, " give different results: ", ret, "/", r2, " ", vstr(vv(x)), " / ", vstr(vv(x2)), ", ", k.sys - b.sys, "/", k2.sys, " evaluations, ", k.trials - b.trials, "/", k2.trials, " steps, observations ", vstr(tr), " / ", vstr(k2.trace));
            if (passing(c.a, 0)[3] == passing(c2.a, 0)[3] || (passing(c.a, 0)[3] != 'v' && passing(c2.a, 0)[3] != 'v')) { Sink kp; kp.d = d; auto p1 = st, p2 = s2; p1.k = p2.k = &kp; REQUIRE_K("same_memory", same_bits(probe(p1, mksys(&kp), x, Cat()), probe(p2, mksys(&kp), x, Cat())), "call ", j, ": the steppers differ afterwards"); }
            if (passing(c.a, 0)[3] == 'v') { Sink kp; kp.d = d; auto p1 = st, p2 = st0; p1.k = p2.k = &kp; REQUIRE_K("untouched_memory", same_bits(probe(p1, mksys(&kp), x, Cat()), probe(p2, mksys(&kp), x, Cat())), "call ", j, ": the stepper passed by value behaves differently afterwards"); } }
        all = all && k.trials > b.trials; stn = st.n; syn = calls(sy); obn = ob.n;
    }
    if (m > 1 && anyref && anyval && all) s.nontrivial();
}
template <class S> void seq_vec(pbt::Src& s, const char* name, const S& st, int nfn = 7) { s.label(name); Prob p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x0); seq(s, st, [p](Sink* k) { return CSys(p, k); }, x0, p.d, nfn); }
// iterators and ranges
template <class P, class S, class Y, class X, class F> void wcall(const Cl& c, int fam, bool timef, S& st, Y& sy, X& x, F f) {
    auto fs = [&](const X& z) { f(z, 0.0); }; auto ft = [&](const std::pair<const X&, const double&>& z) { f(z.first, z.second); };
    switch (fam) { case 0: if (timef) { auto r = od::make_const_step_time_range(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt); for (auto i = r.first; i != r.second; ++i) ft(*i); } else { auto r = od::make_const_step_range(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt); for (auto i = r.first; i != r.second; ++i) fs(*i); } break;
    case 1: if (timef) { auto r = od::make_n_step_time_range(P::st(st), P::sy(sy), x, c.t0, c.dt, (size_t)c.n); for (auto i = r.first; i != r.second; ++i) ft(*i); } else { auto r = od::make_n_step_range(P::st(st), P::sy(sy), x, c.t0, c.dt, (size_t)c.n); for (auto i = r.first; i != r.second; ++i) fs(*i); } break;
    default: break; }
}
template <class P, class S, class Y, class X, class F> void wadapt(const Cl& c, bool timef, S& st, Y& sy, X& x, F f) { if (timef) { auto r = od::make_adaptive_time_range(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt); for (auto i = r.first; i != r.second; ++i) { std::pair<const X&, const double&> z = *i; f(z.first, z.second); } } else { auto r = od::make_adaptive_range(P::st(st), P::sy(sy), x, c.t0, c.t1, c.dt); for (auto i = r.first; i != r.second; ++i) f(*i, 0.0); } }
template <class P, class S, class Y, class X, class F> void wtimes(const Cl& c, bool timef, S& st, Y& sy, X& x, F f) { if (timef) { auto r = od::make_times_time_range(P::st(st), P::sy(sy), x, c.times.begin(), c.times.end(), c.dt); for (auto i = r.first; i != r.second; ++i) { std::pair<const X&, const double&> z = *i; f(z.first, z.second); } } else { auto r = od::make_times_range(P::st(st), P::sy(sy), x, c.times.begin(), c.times.end(), c.dt); for (auto i = r.first; i != r.second; ++i) f(*i, 0.0); } }
struct WConst { static const int nf = 2; template <class P, class S, class Y, class X, class F> static void go(const Cl& c, bool tf, S& st, Y& sy, X& x, F f) { wcall<P>(c, c.fn, tf, st, sy, x, f); } };
struct WAll { static const int nf = 3; template <class P, class S, class Y, class X, class F> static void go(const Cl& c, bool tf, S& st, Y& sy, X& x, F f) { if (c.fn < 2) wcall<P>(c, c.fn, tf, st, sy, x, f); else wtimes<P>(c, tf, st, sy, x, f); } };
struct WAdapt { static const int nf = 2; template <class P, class S, class Y, class X, class F> static void go(const Cl& c, bool tf, S& st, Y& sy, X& x, F f) { if (c.fn == 0) wadapt<P>(c, tf, st, sy, x, f); else wtimes<P>(c, tf, st, sy, x, f); } };
struct WDense { static const int nf = 4; template <class P, class S, class Y, class X, class F> static void go(const Cl& c, bool tf, S& st, Y& sy, X& x, F f) { if (c.fn < 2) wcall<P>(c, c.fn, tf, st, sy, x, f); else if (c.fn == 2) wadapt<P>(c, tf, st, sy, x, f); else wtimes<P>(c, tf, st, sy, x, f); } };
template <class W, class S, class Y, class X, class F> void wany(const Cl& c, bool tf, S& st, Y& sy, X& x, F f) { switch (c.a) { case 0: return W::template go<Ps<0>>(c, tf, st, sy, x, f); case 1: return W::template go<Ps<1>>(c, tf, st, sy, x, f); case 2: return W::template go<Ps<2>>(c, tf, st, sy, x, f); case 3: return W::template go<Ps<3>>(c, tf, st, sy, x, f); case 4: return W::template go<Ps<4>>(c, tf, st, sy, x, f); default: return W::template go<Ps<5>>(c, tf, st, sy, x, f); } }
template <class W, class S> void iter(pbt::Src& s, const char* name, const S& base) {
    s.label(name); Prob p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); Vec x = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x); Sink k; k.d = p.d; rhs_reset(400000); auto st = counted(base, &k); CSys sy(p, &k); int m = (int)s.i(1, 3); bool anyref = false, anyval = false, all = true; long stn = 0, syn = 0; typedef typename S::stepper_category Cat;
    for (int j = 0; j < m; ++j) {
        Cl c = gen_cl(s, W::nf); bool tf = s.flag(); Sink b = k; auto st0 = st; Vec xb(x); std::vector<double> tr, tr2; long n = 0; auto rec = [&](std::vector<double>* o) { return [&n, o](const Vec& z, double t) { if (++n > 20000) throw pbt::Fail("endless", "more than 20000 elements"); o->push_back(t); o->insert(o->end(), z.begin(), z.end()); }; };
        try { wany<W>(c, tf, st, sy, x, rec(&tr)); } catch (const od::odeint_error&) { throw pbt::Discard(); } catch (const std::overflow_error&) { throw pbt::Discard(); } if (!allfinite(x) || maxabs(x) > 1e6) throw pbt::Discard();
        REQUIRE_K("system_calls", k.bad.empty(), "range ", j, ": ", k.bad); const char* f = passing(c.a, 0); if (f[3] == 'v') { REQUIRE_K("stepper_by_value", st.n == stn, "range ", j, ": the stepper was passed by value, but it did ", st.n - stn, " steps"); anyval = true; } else { REQUIRE_K("stepper_by_reference", st.n - stn == k.trials - b.trials, "range ", j, ": stepper ", f, " did ", st.n - stn, " of ", k.trials - b.trials, " steps"); anyref = true; }
        f = passing(c.a, 1); if (f[3] == 'v') { REQUIRE_K("system_by_value", sy.n == syn, "range ", j, ": the system was passed by value, but it was called ", sy.n - syn, " times"); anyval = true; } else { REQUIRE_K("system_by_reference", sy.n - syn == k.sys - b.sys, "range ", j, ": system ", f, " got ", sy.n - syn, " of ", k.sys - b.sys, " calls"); anyref = true; }
        { Sink k2; k2.d = p.d; auto s2 = st0; s2.k = &k2; CSys y2(p, &k2); Vec x2(xb); Cl c2 = c; c2.a = (int)s.raw(6); s.note("twin passing", c2.a); wany<W>(c2, tf, s2, y2, x2, rec(&tr2)); REQUIRE_K("same_effect", same_bits(tr, tr2) && k2.sys == k.sys - b.sys && same_bits(x, x2), "range ", j, ": passing form ", c.a, " and ", c2.a, " give different elements"); if (passing(c.a, 0)[3] == 'v') { Sink kp; kp.d = p.d; auto p1 = st, p2 = st0; p1.k = p2.k = &kp; REQUIRE_K("untouched_memory", same_bits(probe(p1, CSys(p, &kp), x, Cat()), probe(p2, CSys(p, &kp), x, Cat())), "range ", j, ": the stepper passed by value behaves differently afterwards"); } }
        all = all && k.trials > b.trials; stn = st.n; syn = sy.n;
    }
    if (m > 1 && anyref && anyval && all) s.nontrivial();
}
template <class S> void seq_u(pbt::Src& s, const char* name, const S& st) { s.label(name); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); UV x0 = mk(s.vec(p.d, 1.5)); s.note(p.describe()); s.note("x0", uv(x0)); JPair jp = jpair(p);
    switch (s.raw(3)) { case 0: s.label("pair of functions"); return seq(s, st, [&](Sink* k) { return std::make_pair(CSys(p, k), CJac{jp.second, k}); }, x0, p.d, 7); case 1: s.label("pair of boost::ref"); return seq(s, st, [&](Sink* k) { return refs<false>(k, CSys(p, k), CJac{jp.second, k}); }, x0, p.d, 7); default: s.label("pair of std::ref"); return seq(s, st, [&](Sink* k) { return refs<true>(k, CSys(p, k), CJac{jp.second, k}); }, x0, p.d, 7); } }
template <class S> void seq_h(pbt::Src& s, const char* name, const S& st) { s.label(name); size_t d = (size_t)s.i(1, 3); PV x0(s.vec(d, 1.5), s.vec(d, 1.5)); double a = s.num(1), b = s.num(1), c = s.num(1), e = s.num(1); s.note("x0", vv(x0));
    switch (s.raw(3)) { case 0: s.label("pair of functions"); return seq(s, st, [&](Sink* k) { return std::make_pair(CHalf{a, b, k}, CHalf{c, e, k}); }, x0, 2 * d, 7); case 1: s.label("pair of boost::ref"); return seq(s, st, [&](Sink* k) { return refs<false>(k, CHalf{a, b, k}, CHalf{c, e, k}); }, x0, 2 * d, 7); default: s.label("pair of std::ref"); return seq(s, st, [&](Sink* k) { return refs<true>(k, CHalf{a, b, k}, CHalf{c, e, k}); }, x0, 2 * d, 7); } }
inline void seq_v(pbt::Src& s) { s.label("velocity_verlet"); size_t d = (size_t)s.i(1, 3); PV x0(s.vec(d, 1.5), s.vec(d, 1.5)); double a = s.num(1), b = s.num(1); s.note("x0", vv(x0)); seq(s, od::velocity_verlet<Vec>(), [=](Sink* k) { return CAcc{a, b, k}; }, x0, 2 * d, 7); }
inline double gtol(pbt::Src& s) { double t = s.logmag(1e-8, 1e-3); s.note("tol", t); return t; }
#endif
