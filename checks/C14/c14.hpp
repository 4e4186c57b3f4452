#ifndef C14_HPP
#define C14_HPP
#include "zoo.hpp"
#include "jsys.hpp"
#include <boost/numeric/odeint/integrate/integrate_const.hpp>
#include <boost/numeric/odeint/integrate/integrate_n_steps.hpp>
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/numeric/odeint/integrate/integrate_adaptive.hpp>
#include <boost/numeric/odeint/integrate/max_step_checker.hpp>
#include <list>
#define C14_RULE "more than one step lies between two observer calls somewhere, and the limit is within 2 of the largest number of steps between two observer calls (or a user-defined checker was used)"
// an observation together with the number of steps completed so far
struct Ob { double t; Vec x; long ok; };
struct Track { std::vector<Ob> o; std::shared_ptr<StepLog> log; std::vector<char> ev; long throw_at = -1; };
struct ObsThrow {};
struct TObs { Track* k; template <class X> void operator()(const X& x, double t) const { if ((long)k->o.size() == k->throw_at) throw ObsThrow(); k->ev.push_back('o'); k->o.push_back(Ob{t, to_vec(x), k->log->ok}); } };
// user-defined checker: logs every call, gives up after `stop` calls since the last reset
struct UserStop : std::exception { long n; };
struct UChecker { Track* k; long stop; long n; UChecker(Track* t, long s) : k(t), stop(s), n(0) {} void operator()() { k->ev.push_back('c'); if (++n > stop) { UserStop e; e.n = n; throw e; } } void reset() { k->ev.push_back('r'); n = 0; } };
struct Call14 { int fn; double t0, dt, t1; long n; Vec times; bool byref, obsref, sysref, list; int entry; };
inline Call14 gen_call(pbt::Src& s, bool multi) {
    Call14 c; c.fn = (int)s.raw(3); c.n = s.i(1, 6); double dtm = 0.5; c.dt = s.logmag(0.02, dtm); if (s.flag(25)) c.dt = std::ldexp(1.0, -(int)s.i(1, 5)); c.t0 = s.raw(3) ? s.num(5) : 0; double sg = s.flag() ? -1 : 1;
    if (c.fn == 2) { double t = c.t0; int m = (int)s.i(1, 6); for (int k = 0; k < m; ++k) { c.times.push_back(t); int r = (int)s.raw(8); t += sg * (r == 0 ? 0 : s.logmag(0.01, 1.0)); } c.list = s.flag(25); if (s.flag(60)) c.dt = s.logmag(0.004, 0.3); }
    c.dt *= sg; c.t1 = c.t0 + c.dt * (c.n + s.pick({0.5, 0.0, 0.9})); c.byref = s.flag(30); c.obsref = s.flag(30); c.sysref = s.flag(30); c.entry = (int)s.raw(2);
    s.label(c.fn == 0 ? "integrate_const" : c.fn == 1 ? "integrate_n_steps" : "integrate_times"); s.note("fn", c.fn); s.note("t0", c.t0); s.note("dt", c.dt); s.note("n", c.n); if (c.fn == 0) s.note("t1", c.t1); s.note("times", c.times); (void)multi; return c;
}
struct NoChk {};
template <class S, class Y, class X, class O> double call_(const Call14& c, S st, Y sys, X& x, O obs, NoChk) {
    if (c.fn == 0) return (double)od::integrate_const(st, sys, x, c.t0, c.t1, c.dt, obs); if (c.fn == 1) return od::integrate_n_steps(st, sys, x, c.t0, c.dt, (size_t)c.n, obs);
    if (c.list) { std::list<double> l(c.times.begin(), c.times.end()); return (double)od::integrate_times(st, sys, x, l.begin(), l.end(), c.dt, obs); }
    return c.entry ? (double)od::integrate_times(st, sys, x, c.times, c.dt, obs) : (double)od::integrate_times(st, sys, x, c.times.begin(), c.times.end(), c.dt, obs);
}
template <class S, class Y, class X, class O, class C> double call_(const Call14& c, S st, Y sys, X& x, O obs, C chk) {
    if (c.fn == 0) return (double)od::integrate_const(st, sys, x, c.t0, c.t1, c.dt, obs, chk); if (c.fn == 1) return od::integrate_n_steps(st, sys, x, c.t0, c.dt, (size_t)c.n, obs, chk);
    if (c.list) { std::list<double> l(c.times.begin(), c.times.end()); return (double)od::integrate_times(st, sys, x, l.begin(), l.end(), c.dt, obs, chk); }
    return c.entry ? (double)od::integrate_times(st, sys, x, c.times, c.dt, obs, chk) : (double)od::integrate_times(st, sys, x, c.times.begin(), c.times.end(), c.dt, obs, chk);
}
template <class S, class Y, class X, class C> double call(const Call14& c, S& st, Y sys, X& x, TObs& o, C chk) {
    if (c.byref) { if (c.obsref) return call_(c, boost::ref(st), sys, x, boost::ref(o), chk); return c.sysref ? call_(c, boost::ref(st), boost::ref(sys), x, o, chk) : call_(c, boost::ref(st), sys, x, o, chk); }
    if (c.obsref) return call_(c, st, sys, x, boost::ref(o), chk); return call_(c, st, sys, x, o, chk);
}
enum How { FINISHED, NO_PROGRESS, STEP_ADJ, USER, OBS, OTHER };
inline const char* hown(int h) { static const char* n[] = {"finished", "no_progress_error", "step_adjustment_error", "the checker's own exception", "the observer's exception", "another exception"}; return n[h]; }
template <class F> int outcome(F f, std::string& what) {
    try { f(); return FINISHED; } catch (const od::no_progress_error& e) { what = e.what(); return NO_PROGRESS; } catch (const od::step_adjustment_error& e) { what = e.what(); return STEP_ADJ; }
    catch (const UserStop&) { return USER; } catch (const ObsThrow&) { return OBS; } catch (const pbt::Fail&) { throw; } catch (const pbt::Discard&) { throw; } catch (const std::exception& e) { what = e.what(); return OTHER; }
}
// observations of a limited / interrupted run must be the first ones of the full run
inline void check_prefix(const Track& lim, const Track& full, const char* what) {
    REQUIRE_K("observations", lim.o.size() <= full.o.size(), what, ": ", lim.o.size(), " observations, the unlimited call has ", full.o.size());
    for (size_t k = 0; k < lim.o.size(); ++k) REQUIRE_K("observations", lim.o[k].t == full.o[k].t && same_bits(lim.o[k].x, full.o[k].x) && lim.o[k].ok == full.o[k].ok, what, ": observation ", k, " is t=", lim.o[k].t, " x=", vstr(lim.o[k].x), " after ", lim.o[k].ok, " steps; without a limit t=", full.o[k].t, " x=", vstr(full.o[k].x), " after ", full.o[k].ok);
}
template <class Make, class Y, class X> void c14_run(pbt::Src& s, Make make, Y sys, const X& x0, const Call14& c) {
    rhs_reset(400000); typedef decltype(make()) St;
    Track full; full.log = std::make_shared<StepLog>(); auto rf = recorded(make(), full.log); X xf = x0; TObs of{&full}; std::string what; double ret = 0; int h = outcome([&] { ret = call(c, rf, sys, xf, of, NoChk()); }, what);
    if (h != FINISHED) throw pbt::Discard(); if (full.log->ok >= 4900) throw pbt::Discard();
    for (auto& o : full.o) if (!allfinite(o.x)) throw pbt::Discard();
    long maxgap = 0; std::vector<long> gaps; for (size_t k = 1; k < full.o.size(); ++k) { long g = full.o[k].ok - full.o[k - 1].ok; gaps.push_back(g); maxgap = std::max(maxgap, g); }
    long before = full.o.empty() ? 0 : full.o[0].ok; // dense-output integrate_n_steps interpolates the first observation from the first step
    int mode = (int)s.raw(8); Track lim; lim.log = std::make_shared<StepLog>(); auto rl = recorded(make(), lim.log); X xl = x0; TObs ol{&lim}; double retl = 0; long N = 0;
    rhs_reset(400000);
    if (mode == 6) { // an observer that throws: nothing but the observations up to that point was seen
        if (full.o.empty()) return; lim.throw_at = s.i(0, (long)full.o.size() - 1); int hl = outcome([&] { retl = call(c, rl, sys, xl, ol, od::max_step_checker((int)std::max(maxgap, before))); }, what);
        REQUIRE_K("observer_exception", hl == OBS, "the observer threw at call ", lim.throw_at, " but the integration ended with: ", hown(hl)); check_prefix(lim, full, "with a throwing observer"); s.label("throwing observer"); if (maxgap > 1) s.nontrivial(); return; }
    N = s.flag(80) ? maxgap + s.i(-2, 2) : gaps.empty() ? 0 : s.from(gaps) + s.i(-1, 1); if (s.flag(4)) N = s.pick({0, 500, 2147483647}); if (N < before) N = before; s.note("limit", N); s.note("largest gap", maxgap);
    // at which observation the limit is exceeded
    size_t stop = gaps.size(); for (size_t k = 0; k < gaps.size(); ++k) if (gaps[k] > N) { stop = k; break; }
    bool user = mode == 7; int want = stop < gaps.size() ? (user ? USER : NO_PROGRESS) : FINISHED;
    int hl = user ? outcome([&] { retl = call(c, rl, sys, xl, ol, UChecker(&lim, N)); }, what) : outcome([&] { retl = call(c, rl, sys, xl, ol, od::max_step_checker((int)N)); }, what);
    REQUIRE_K(want == FINISHED ? "spurious_error" : "missed_error", hl == want, "limit ", N, ", at most ", maxgap, " steps between two observer calls: expected ", hown(want), ", got ", hown(hl), " ", what);
    check_prefix(lim, full, user ? "with a user-defined checker" : "with a step limit");
    if (want == FINISHED) {
        REQUIRE_K("same_run", lim.o.size() == full.o.size() && retl == ret && same_bits(to_vec(xl), to_vec(xf)) && lim.log->ok == full.log->ok && lim.log->failed == full.log->failed, "with limit ", N, ": ", lim.o.size(), " observations, return value ", retl, ", ", lim.log->ok, "+", lim.log->failed, " trials, final state ", vstr(to_vec(xl)), "; without: ", full.o.size(), ", ", ret, ", ", full.log->ok, "+", full.log->failed, ", ", vstr(to_vec(xf)));
        for (size_t k = 0; k < lim.log->steps.size(); ++k) REQUIRE_K("same_run", lim.log->steps[k] == full.log->steps[k], "step ", k, " is [", lim.log->steps[k].first, ",", lim.log->steps[k].second, "] with a limit, [", full.log->steps[k].first, ",", full.log->steps[k].second, "] without");
    } else {
        long since = lim.log->ok - (lim.o.empty() ? 0 : lim.o.back().ok); REQUIRE_K("stop_point", lim.o.size() == stop + 1 && since >= N && since <= N + 1, "limit ", N, ": stopped ", since, " steps after observation ", lim.o.size() - 1, "; more than ", N, " steps are needed after observation ", stop);
        if (!user && !what.empty()) REQUIRE_K("message", what.find(std::to_string(N)) != std::string::npos, "message '", what, "' does not name the limit ", N);
    }
    if (user) { // each step is reported once to the checker, and the checker starts anew at every observer call
        long cs = 0; for (char e : lim.ev) cs += e == 'c'; REQUIRE_K("checker_calls", cs - lim.log->ok >= 0 && cs - lim.log->ok <= (want == FINISHED ? 0 : 1), cs, " checker calls for ", lim.log->ok, " steps");
        for (size_t k = 0; k + 1 < lim.ev.size(); ++k) if (lim.ev[k] == 'o') REQUIRE_K("checker_reset", lim.ev[k + 1] != 'c', "the checker is not reset after observer call"); s.label("user-defined checker"); }
    s.label(want == FINISHED ? "within the limit" : "limit exceeded"); if (maxgap > 1 && (user || std::labs(N - maxgap) <= 2)) s.nontrivial();
}
template <class Make> void c14_vec(pbt::Src& s, Make make, bool multi) { rhs_reset(); Call14 c = gen_call(s, multi); Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x0); c14_run(s, make, Sys<Vec>(p), x0, c); }
#endif
