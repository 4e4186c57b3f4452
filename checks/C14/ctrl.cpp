#include "c14.hpp"
#include <boost/numeric/odeint.hpp>
using namespace boost::numeric::odeint;
SUITE(limit_controlled, 40000, 2000000, C14_RULE) { double e = src.logmag(1e-11, 1e-2), m = src.flag(40) ? src.logmag(0.005, 0.3) : 0; src.note("tol", e); src.note("maxdt", m); switch (src.raw(5)) {
    case 0: c14_vec(src, [e] { return make_controlled(e, e, runge_kutta_cash_karp54<Vec>()); }, true); break; case 1: c14_vec(src, [e] { return make_controlled(e, e, runge_kutta_dopri5<Vec>()); }, true); break;
    case 2: c14_vec(src, [e] { return make_controlled(e, e, runge_kutta_fehlberg78<Vec>()); }, true); break; case 3: c14_vec(src, [e] { return bulirsch_stoer<Vec>(e, e); }, true); break;
    default: c14_vec(src, [e] { return make_controlled(e, e, adaptive_adams_bashforth_moulton<4, Vec>()); }, true); } }

// a controlled stepper that rejects on a schedule
struct Sched { std::vector<int> rej; double shrink, grow; long forever_from; long trials = 0, run = 0, worst = 0, step = 0; };
struct SchedStepper {
    typedef Vec state_type; typedef Vec deriv_type; typedef double value_type; typedef double time_type; typedef controlled_stepper_tag stepper_category; std::shared_ptr<Sched> c; std::shared_ptr<StepLog> log;
    template <class Sy> controlled_step_result try_step(Sy, Vec& x, double& t, double& dt) {
        Sched& q = *c; if (++q.trials > 2000000) pbt::fail("nontermination", "2000000 trials without an end"); int want = q.rej[q.step % q.rej.size()]; if (q.forever_from >= 0 && q.step >= q.forever_from) want = 1 << 30;
        if (q.run < want) { ++q.run; q.worst = std::max(q.worst, q.run); if (std::fabs(dt) > 0.05) dt *= q.shrink; ++log->failed; return fail; }
        q.run = 0; ++q.step; double a = t; t += dt; for (size_t i = 0; i < x.size(); ++i) x[i] += dt * (i + 1); log->add(a, t, x); if (std::fabs(dt) < 0.3) dt *= q.grow; return success;
    }
};
struct NoSys { void operator()(const Vec&, Vec&, double) const {} };
struct ArgsStuck { Call14 c; int lim; };
template <class Chk> int run_sched(const Call14& c, std::shared_ptr<Sched> q, Track& tr, Vec x, Chk chk, std::string& what) {
    tr.log = std::make_shared<StepLog>(); SchedStepper st{q, tr.log}; TObs o{&tr};
    return outcome([&] { if (c.fn < 3) call(c, st, NoSys(), x, o, chk); else if (c.byref) integrate_adaptive(boost::ref(st), NoSys(), x, c.t0, c.t1, c.dt, o); else integrate_adaptive(st, NoSys(), x, c.t0, c.t1, c.dt, boost::ref(o)); }, what);
}
#define STUCK_RULE "at least 100 trials in a row were rejected, or a limit was combined with rejections"
SUITE(rejections, 20000, 1000000, STUCK_RULE) {
    Call14 c = gen_call(src, true); if (src.flag(25)) { c.fn = 3; src.label("integrate_adaptive"); } auto gen = [&] { auto q = std::make_shared<Sched>(); return q; }; auto q = gen(); q->shrink = src.pick({1.0, 0.5, 0.9, 0.2}); q->grow = src.pick({1.5, 2.0, 5.0}); q->forever_from = -1;
    int n = (int)src.i(1, 4); bool big = src.flag(40); for (int k = 0; k < n; ++k) q->rej.push_back(big ? (int)src.i(50, 460) : src.flag(40) ? (int)src.i(1, 5) : 0); bool stuck = src.flag(30); if (stuck) q->forever_from = src.i(0, 8);
    src.note("shrink", q->shrink); src.note("grow", q->grow); src.note("stuck from step", q->forever_from); { Vec r(q->rej.begin(), q->rej.end()); src.note("rejections", r); }
    Vec x0 = src.vec(2, 1); auto ref = std::make_shared<Sched>(*q); auto clean = std::make_shared<Sched>(*q); clean->forever_from = -1; Track tc; std::string what; int hc = run_sched(c, clean, tc, x0, NoChk(), what);
    REQUIRE_K("gave_up_early", hc == FINISHED, "never more than ", clean->worst, " rejections in a row, yet the integration ended with: ", hown(hc), " ", what);
    Track tr; int h = run_sched(c, q, tr, x0, NoChk(), what); bool reached = q->forever_from >= 0 && clean->step > q->forever_from;
    REQUIRE_K(reached ? "no_error_when_stuck" : "spurious_error", h == (reached ? STEP_ADJ : FINISHED), "a step that is never accepted is ", reached ? "" : "not ", "reached; outcome: ", hown(h), " ", what);
    REQUIRE_K("bounded", q->worst <= 1100, q->worst, " rejected trials in a row before giving up"); check_prefix(tr, tc, "before the step-adjustment error"); if (reached) { long want = 0; for (auto& o : tc.o) if (o.ok <= q->forever_from) { ++want; } REQUIRE_K("observations", (long)tr.o.size() <= want && tr.log->ok == q->forever_from, tr.o.size(), " observations, ", want, " were due"); src.label("never accepted"); }
    if (clean->worst >= 100 || q->worst >= 100) src.nontrivial();
    if (c.fn < 3) { // rejected trials do not count towards the limit
        long mg = 0; for (size_t k = 1; k < tc.o.size(); ++k) mg = std::max(mg, tc.o[k].ok - tc.o[k - 1].ok); auto l = std::make_shared<Sched>(*ref); l->forever_from = -1; Track tl; long N = std::max(0l, mg + (src.flag() ? 0 : -1)); int hl = run_sched(c, l, tl, x0, max_step_checker((int)N), what);
        REQUIRE_K(mg <= N ? "rejections_counted" : "missed_error", hl == (mg <= N ? FINISHED : NO_PROGRESS), "limit ", N, ", at most ", mg, " accepted steps between observer calls, ", tc.log->failed, " rejections: ", hown(hl), " ", what); check_prefix(tl, tc, "with a limit and rejections"); if (tc.log->failed) src.nontrivial(); }
}
// real steppers whose error can never be met
struct NoiseSys { double amp; uint64_t* r; void operator()(const Vec& x, Vec& d, double) const { rhs_tick(); for (size_t i = 0; i < x.size(); ++i) { *r ^= *r << 13; *r ^= *r >> 7; *r ^= *r << 17; d[i] = amp * ((double)(*r >> 11) / 9007199254740992.0 * 2 - 1); } } };
SUITE(real_stuck, 1200, 60000, "the integration ended with one of the two documented errors") {
    double rel = src.logmag(1e-12, 1e-6), abs = src.flag() ? 0 : src.logmag(1e-14, 1e-8); Call14 c = gen_call(src, true); double amp = src.logmag(0.1, 100); uint64_t seed = 88172645463325252ull + src.raw(1000) * 7919; Vec x0(src.i(1, 2), 0.0); int lim = (int)src.i(1, 8); src.note("abs", abs); src.note("rel", rel); src.note("amp", amp); src.note("limit", lim);
    Track tr; std::string what; tr.log = std::make_shared<StepLog>(); TObs o{&tr}; NoiseSys sys{amp, &seed}; Vec x = x0; rhs_reset(3000000); int h = OTHER; int k = (int)src.raw(6); src.note("stepper", k);
    auto go = [&](auto st) { auto r = recorded(st, tr.log); h = outcome([&] { call(c, r, sys, x, o, max_step_checker(lim)); }, what); };
    switch (k) { case 0: go(make_controlled(abs, rel, runge_kutta_cash_karp54<Vec>())); break; case 1: go(make_controlled(abs, rel, runge_kutta_dopri5<Vec>())); break; case 2: go(make_controlled(abs, rel, runge_kutta_fehlberg78<Vec>())); break; case 3: go(bulirsch_stoer<Vec>(abs, rel)); break;
    case 4: go(make_dense_output(abs, rel, runge_kutta_dopri5<Vec>())); break; default: go(bulirsch_stoer_dense_out<Vec>(abs, rel)); }
    long intervals = c.fn == 2 ? (long)c.times.size() : c.n; REQUIRE_K("documented_error", h == FINISHED || h == NO_PROGRESS || h == STEP_ADJ, "outcome: ", hown(h), " ", what); REQUIRE_K("bounded", tr.log->ok <= (lim + 1) * (intervals + 2), tr.log->ok, " steps with limit ", lim);
    for (auto& b : tr.o) REQUIRE_K("observations", b.t == c.t0 || std::fabs(b.t - c.t0) <= std::fabs((c.fn == 2 ? c.times.back() : c.t0 + c.n * c.dt) - c.t0) + 1e-9, "observation at ", b.t); src.label(hown(h)); if (h != FINISHED) src.nontrivial();
}
// iterators and the controlled start-up of the multistep method must not search for ever either
struct AlwaysFail { typedef Vec state_type; typedef Vec deriv_type; typedef double value_type; typedef double time_type; typedef controlled_stepper_tag stepper_category; long* n; long after; double shrink; long* run;
    template <class Sy> controlled_step_result try_step(Sy, Vec& x, double& t, double& dt) { if (++*n > 100000) pbt::fail("nontermination", "100000 rejected trials without giving up"); if (*n > after) { ++*run; dt *= shrink; return fail; } t += dt; for (auto& e : x) e += dt; return success; } };
SUITE(stuck_elsewhere, 2000, 100000, "the search was given up with an exception") {
    long n = 0, run = 0; AlwaysFail st{&n, src.i(0, 6), src.pick({1.0, 0.5, 0.2}), &run}; Vec x = src.vec(2, 1); double t = 0, dt = src.logmag(0.01, 0.2); if (src.flag()) dt = -dt; bool threw = false; int k = (int)src.raw(4); src.note("kind", k); src.note("accepted", st.after); rhs_reset(); Prob p = gen_prob(src, 2, SMOOTHKINDS, 1.0);
    try { if (k == 0) { controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<7, Vec>> a; a.initialize_controlled(st, Sys<Vec>(p), x, t, dt); }
        else if (k == 1) { auto r = make_adaptive_range(st, Sys<Vec>(p), x, 0.0, 100 * dt, dt); for (auto it = r.first; it != r.second; ++it) {} }
        else if (k == 2) { auto r = make_adaptive_time_range(st, Sys<Vec>(p), x, 0.0, 100 * dt, dt); for (auto it = r.first; it != r.second; ++it) {} }
        else { adaptive_adams_bashforth_moulton<3, Vec> a; (void)a; controlled_adams_bashforth_moulton<adaptive_adams_bashforth_moulton<3, Vec>> b; long after = st.after; if (after >= 3) st.after = 2; b.initialize_controlled(st, Sys<Vec>(p), x, t, dt); } }
    catch (const std::runtime_error&) { threw = true; } REQUIRE_K("gave_up", threw, "no exception although no step was ever accepted again"); REQUIRE_K("bounded", run <= 1100, run, " rejected trials"); src.label(k == 0 || k == 3 ? "initialize_controlled" : "adaptive iterator"); src.nontrivial();
}
// the checkers themselves: N calls pass, the next one raises the documented error; a reset starts anew; copies count on their own
template <class C, class E> void checker(pbt::Src& s, const char* name) {
    s.label(name); int N = (int)s.i(0, 40), n = N; bool dflt = s.flag(20); if (dflt) n = 500; C c = dflt ? C() : C(N); s.note("limit", n); int used = 0, done = 0; bool hit = false, reset = false; int rounds = (int)s.i(1, 5);
    for (int k = 0; k < rounds; ++k) {
        int m = s.flag(40) ? n - used + (int)s.raw(3) - 1 : (int)s.raw(n + 3); s.note("calls", m);
        for (int j = 0; j < m; ++j) { bool threw = false; try { c(); } catch (const E&) { threw = true; } catch (const std::exception& e) { pbt::fail("type", pbt::str(name, " raised another type: ", e.what())); } REQUIRE_K(used < n ? "early" : "late", threw == (used >= n), name, " with limit ", n, threw ? " raised at" : " did not raise at", " call ", used + 1); hit |= threw; if (!threw) ++used; else { c.reset(); used = 0; reset = true; } ++done; }
        if (s.flag(30)) { C d(c); if (s.flag()) d.reset(); else if (used < n) d(); } // copies leave the original alone
        if (s.flag(30)) { c.reset(); used = 0; reset = true; s.note("reset"); }
    }
    if (hit && reset) s.nontrivial();
}
SUITE(checkers, 5000, 200000, "the limit was hit and the counter was reset") { if (src.flag()) checker<max_step_checker, no_progress_error>(src, "max_step_checker"); else checker<failed_step_checker, step_adjustment_error>(src, "failed_step_checker"); }
