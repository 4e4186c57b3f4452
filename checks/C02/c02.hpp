#ifndef C02_HPP
#define C02_HPP
#include "forms.hpp"
#include <list>
#include <deque>
#include <boost/array.hpp>
#define C02_RULE "two different call forms were compared on a step that moved the state"
inline double scale_of(const Out& o, const In& in) { return std::max({maxabs(o.x), maxabs(in.x), 1e-3}); }
// Tag: which family of forms; canon: the form everything is compared with (taken by a second stepper);
// free: forms that hand in the derivative and hence carry no history
struct Traits { int canon; std::vector<int> free; bool fsal, controlled, memoryless, can_reset; double amp; };
template <class St> auto do_reset(St& s, int) -> decltype(s.reset(), void()) { s.reset(); }
template <class St> void do_reset(St&, long) {}
template <class Tag, class St, class Mk> void forms_case(pbt::Src& s, const Traits& tr, Mk mk, bool ranges, double dtmax) {
    rhs_reset(); typedef typename St::state_type S; int d = (int)mk_state<S>::blank(1 + (size_t)s.raw(5)).size(); Prob p = gen_prob(s, d, ALLKINDS, 1.2); Sys<S> sys(p); In in; in.x = s.vec(d, 1.5); in.t = s.num(3); in.dt = s.logmag(1e-4, dtmax); if (s.flag()) in.dt = -in.dt;
    s.note(p.describe()); s.note(" x", in.x); s.note("t", in.t); s.note("dt", in.dt); St a = mk(), b = mk(); int n = (int)s.i(1, 8); std::string hist; std::vector<int> seen; bool moved = false; int reject = 0;
    for (int k = 0; k < n; ++k) {
        bool range = ranges && s.flag(25); int form = range ? (int)s.raw(Tag::NR) : (int)s.raw(Tag::N); int sty = (int)s.raw(SY_N); bool fr = !range && std::find(tr.free.begin(), tr.free.end(), form) != tr.free.end();
        if (k && tr.can_reset && s.flag(10)) { do_reset(b, 0); do_reset(a, 0); hist += "reset; "; if (s.flag()) { in.x = s.vec(d, 1.5); in.t = s.num(3); } }
        if (k && (tr.memoryless || fr) && s.flag(25)) { in.x = s.vec(d, 1.5); in.t = s.num(3); hist += "jump; "; }   // no history to respect
        if (k && s.flag(20)) { in.dt = s.logmag(1e-4, dtmax); if (s.flag(30)) in.dt = -in.dt; }
        Sys<S> sc = sys; Out ra, rb; ra = run_form(Tag(), a, tr.canon, sc, SY_VALUE, in);
        if (!allfinite(ra.x) || maxabs(ra.x) > 1e3 || (ra.has_err && !allfinite(ra.err))) break;
        run_b(Tag(), b, range, form, sc, sty, in, rb, std::is_same<S, Vec>());
        hist += rb.name + " system by " + sy_name(sty) + "; "; std::string where = pbt::str("step ", k, " from t=", in.t, " dt=", in.dt, " x=", vstr(in.x), " [", hist, "]"); double tol = tr.amp * 1e-13 * scale_of(ra, in);
        if (rb.name != ra.name) seen.push_back(1); if (!same_bits(ra.x, in.x)) moved = true;
        REQUIRE_K("input_written", same_bits(rb.in_after, in.x), "input state became ", vstr(rb.in_after), "; ", where);
        if (tr.controlled) { REQUIRE_K("decision", ra.res == rb.res, "results ", rb.res, " and ", ra.res, " of form ", ra.name, "; ", where); REQUIRE_K("time", ra.t == rb.t, "time ", rb.t, " and ", ra.t, "; ", where); REQUIRE_K("step", std::fabs(ra.dt - rb.dt) <= 1e-9 * std::fabs(ra.dt), "next step ", rb.dt, " and ", ra.dt, " of form ", ra.name, "; ", where); if (ra.res != od::success) ++reject; }
        check_close("state", where + " compared with form " + ra.name, rb.x, ra.x, tol);
        if (ra.has_err && rb.has_err) check_close("error", where + ": error estimate compared with form " + ra.name, rb.err, ra.err, tol);
        if (ra.has_dxdt && rb.has_dxdt) { double fm = std::max(1.0, maxabs(ra.dxdt)); check_close("derivative", where + ": derivative compared with form " + ra.name, rb.dxdt, ra.dxdt, tr.amp * 1e-13 * fm * std::max(1.0, scale_of(ra, in)));
            Vec f(d); p.eval<double>(ra.x, f, in.t + in.dt); check_close("derivative_value", where + ": derivative handed out compared with the system at the new state", rb.dxdt, f, tr.amp * 1e-12 * fm * std::max(1.0, scale_of(ra, in)) + 4e-16 * std::fabs(in.t) * 50); }
        if (tr.controlled) { in.t = ra.t; if (std::fabs(ra.dt) < 1e-9) break; in.dt = std::fabs(ra.dt) > 2 * dtmax ? std::copysign(dtmax, ra.dt) : ra.dt; } else in.t += in.dt; in.x = ra.x;
    }
    if (seen.size() && moved) s.nontrivial(); if (reject) s.label("rejections"); s.label(pbt::str("length ", n));
}
template <class Tag, class St, class Sy> void run_b(Tag, St& st, bool range, int form, Sy& sys, int sty, const In& in, Out& o, std::true_type) { o = range ? run_range(Tag(), st, form, sys, sty, in) : run_form(Tag(), st, form, sys, sty, in); }
template <class Tag, class St, class Sy> void run_b(Tag, St& st, bool, int form, Sy& sys, int sty, const In& in, Out& o, std::false_type) { o = run_form(Tag(), st, form, sys, sty, in); }
inline Traits plain_es() { return {3, {1, 3}, false, false, true, false, 1}; }
inline Traits plain_ee() { return {7, {1, 3, 5, 7}, false, false, true, false, 1}; }
inline Traits fsal_ee() { return {7, {1, 3, 5, 7}, true, false, false, true, 10}; }
inline Traits ctrl_rk() { return {3, {1, 3}, false, true, true, false, 10}; }
inline Traits ctrl_fs() { return {3, {1, 3}, true, true, false, true, 10}; }
inline Traits ctrl_bs() { return {0, {}, false, true, false, true, 1000}; }
inline Traits multi() { return {0, {}, false, false, false, true, 100}; }
#endif
