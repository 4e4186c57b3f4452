#include "accuracy.hpp"
#include <boost/numeric/odeint/integrate/integrate_times.hpp>
#include <boost/range/iterator_range.hpp>
#include <list>
#include <deque>
#define C09_RULE "at least three entries, or repeated / single entries, or two adjacent ones closer than rounding"
struct Times { std::vector<double> t; double dt; bool exact; };
// entries: monotone, in the direction of dt; T: longest span
inline Times gen_times(pbt::Src& s, size_t maxn, double T, bool plain) {
    Times g; g.exact = s.flag(30); size_t n = s.raw(10) < 8 ? s.i(1, 12) : s.i(1, (int64_t)maxn); double t0 = gen_t0(s, g.exact); int sg = s.flag() ? -1 : 1;
    double dt = g.exact ? std::ldexp((double)s.i(1, 3), -(int)s.i(1, 6)) : s.logmag(T / 100, plain ? T / 2 : 2 * T);
    int style = (int)s.raw(5); double t = t0, left = T; g.t.push_back(t);
    for (size_t k = 1; k < n; ++k) {
        double gap; int c = style == 4 ? (int)s.raw(8) : style;
        switch (c) {
        case 0: gap = dt * (g.exact ? (double)s.i(1, 3) / 2 : s.mag(0.1, 2)); break;
        case 1: gap = dt; break;                                       // exactly the step
        case 2: gap = dt * (g.exact ? 1.0 / 8 : s.mag(0.001, 0.2)); break;   // denser than the step
        case 3: gap = dt * (g.exact ? (double)s.i(3, 9) : s.mag(2, 10)); break;     // sparser
        case 4: gap = 0; break;
        case 5: gap = -1; break;                                           // next representable number
        case 6: gap = dt * s.i(1, 4); break;
        default: gap = dt * 1e-3; break;
        }
        if (gap > left) gap = 0;
        left -= std::max(0.0, gap);
        double tn = gap < 0 ? std::nextafter(t, sg * INFINITY) : t + sg * gap;
        t = tn; g.t.push_back(t);
    }
    g.dt = sg * dt; return g;
}
template <class Rec, class S, class C, class O> size_t call_times(int form, Rec& rec, S sys, Vec& x, const C& c, double dt, O obs) {
    switch (form) {
    case 0: return od::integrate_times(rec, sys, x, c.begin(), c.end(), dt, obs);
    case 1: return od::integrate_times(rec, sys, x, c, dt, obs);
    case 2: return od::integrate_times(boost::ref(rec), sys, x, c.begin(), c.end(), dt, obs);
    case 3: return od::integrate_times(rec, boost::ref(sys), x, boost::make_iterator_range(c.begin(), c.end()), dt, boost::ref(obs));
    default: { od::max_step_checker chk(1000000); return form == 4 ? od::integrate_times(rec, sys, x, c.begin(), c.end(), dt, obs, chk) : od::integrate_times(boost::ref(rec), sys, x, c, dt, obs, chk); }
    }
}
template <class Make> void c09_run(pbt::Src& s, Make make, size_t maxn, double T, double eps, double itol = 0) {
    auto st = make(); typedef decltype(st) St; typedef BaseTag<St> Tag; const bool plain = std::is_same<Tag, od::stepper_tag>::value, dense = std::is_same<Tag, od::dense_output_stepper_tag>::value;
    rhs_reset(400000); Times g = gen_times(s, maxn, T, plain); Prob p = gen_prob(s, (int)s.i(1, 4), SMOOTHKINDS, 1.0); p.w = 0.5 + (p.w - 0.5) * 0.3; Vec x0 = s.vec(p.d, 1.5);
    s.note("times", g.t); s.note("dt", g.dt); s.note(p.describe()); s.note(" x0", x0); int form = (int)s.raw(6), cont = (int)s.raw(4); s.note("form", form); s.note("container", cont);
    auto log = std::make_shared<StepLog>(); auto rec = recorded(st, log); Trace tr; Sys<Vec> sys(p); Obs obs{&tr}; Vec x = x0; size_t ret, n = g.t.size();
    if (cont == 0) ret = call_times(form, rec, sys, x, g.t, g.dt, obs);
    else if (cont == 1) { std::list<double> l(g.t.begin(), g.t.end()); ret = call_times(form, rec, sys, x, l, g.dt, obs); s.label("times in a list"); }
    else if (cont == 2) { std::deque<double> l(g.t.begin(), g.t.end()); ret = call_times(form, rec, sys, x, l, g.dt, obs); }
    else { auto r = boost::make_iterator_range(g.t.data(), g.t.data() + n); ret = call_times(form, rec, sys, x, r, g.dt, obs); s.label("times as pointers"); }
    REQUIRE_K("observations", tr.t.size() == n, tr.t.size(), " observer calls for ", n, " entries");
    for (size_t k = 0; k < n; ++k) REQUIRE_K("times", tr.t[k] == g.t[k], "observation ", k, " at t=", tr.t[k], " instead of ", g.t[k]);
    REQUIRE_K("return_steps", (long)ret == log->ok, "returned ", ret, " steps, stepper took ", log->ok);
    double sc = std::max(std::fabs(g.t[0]), std::fabs(g.t.back())), slack = 4 * ulp(sc) + 4.5e-16; int sg = g.dt > 0 ? 1 : -1;
    for (size_t k = 1; k < n; ++k) if (std::fabs(g.t[k] - g.t[k - 1]) <= 2 * ulp(sc)) slack += 2 * ulp(sc); // neighbours may be taken for equal, one after the other
    REQUIRE_K("start_state", same_bits(tr.x[0], x0), "first observation saw ", vstr(tr.x[0]));
    REQUIRE_K("final_state", same_bits(x, tr.x[n - 1]), "caller's state ", vstr(x), " is not the last observed ", vstr(tr.x[n - 1]));
    if (dense) check_log(*log, sc);
    for (size_t k = 0; k < log->steps.size(); ++k) {
        double a = log->steps[k].first, b = log->steps[k].second;
        REQUIRE_K("beyond_end", (b - g.t.back()) * sg <= slack, "step [", a, ",", b, "] passes the last entry ", g.t.back());
        REQUIRE_K("contiguous", std::fabs(a - (k ? log->steps[k - 1].second : g.t[0])) <= slack, "step ", k, " starts at ", a, " after ", k ? log->steps[k - 1].second : g.t[0]);
        if (plain) REQUIRE_K("step_length", (b - a - g.dt) * sg <= slack, "step ", k, " has length ", b - a, " with dt=", g.dt);
    }
    if (!dense) { // every entry is hit by a step end, and the state seen there is the stepper's
        size_t j = 0; // number of steps completed
        for (size_t k = 0; k < n; ++k) {
            auto at = [&](size_t m) { return m ? log->steps[m - 1].second : g.t[0]; };
            while (j < log->steps.size() && (g.t[k] - at(j)) * sg > slack) ++j;
            REQUIRE_K("entry_hit", std::fabs(at(j) - g.t[k]) <= slack, "entry ", g.t[k], " is not the end of a step (nearest after it: ", at(j), ")");
            bool seen = false; for (size_t m = j; m <= log->steps.size() && std::fabs(at(m) - g.t[k]) <= slack; ++m) if (same_bits(tr.x[k], m ? log->states[m - 1] : x0)) { seen = true; break; }
            REQUIRE_K("observed_state", seen, "entry ", k, " at t=", g.t[k], " saw ", vstr(tr.x[k]), ", stepper had ", vstr(j ? log->states[j - 1] : x0));
        }
    }
    if (plain) { // independent stepping: steps of at most dt from entry to entry
        auto fresh = make(); Vec y = x0; double t = g.t[0]; rhs_reset();
        for (size_t k = 1; k < n; ++k) { while ((g.t[k] - t) * sg > 2.3e-16) { double h = std::fabs(g.t[k] - t) < std::fabs(g.dt) ? g.t[k] - t : g.dt; plain_step(fresh, sys, y, t, h, Tag()); t += h; } t = g.t[k]; double m = maxabs(y); if (!(m < 1e8)) break; check_close("state", pbt::str("entry ", k, " at t=", t), tr.x[k], y, 1e-10 * (1 + m)); }
    } else {
        RefTrace r = ref_trace(p, x0, g.t); if (!r.ok) throw pbt::Discard(); double tol = itol ? itol : acc_tol(eps);
        for (size_t k = 0; k < n; ++k) check_close("state", pbt::str("entry ", k, " at t=", g.t[k], " against the exact solution"), tr.x[k], r.x[k], tol * r.G * (1 + r.xmax));
    }
    bool rep = false, adj = false; for (size_t k = 1; k < n; ++k) { if (g.t[k] == g.t[k - 1]) rep = true; else if (std::fabs(g.t[k] - g.t[k - 1]) <= 2 * ulp(sc)) adj = true; }
    if (n >= 3 || rep || adj || n == 1) s.nontrivial();
    if (rep) s.label("repeated entries"); if (n > 1 && g.t[1] == g.t[0]) s.label("first entry repeated"); if (adj) s.label("adjacent floating-point entries"); if (n == 1) s.label("single entry"); if (g.dt < 0) s.label("descending"); if (log->failed) s.label("rejected steps");
    if (std::fabs(g.dt) > std::fabs(g.t.back() - g.t[0])) s.label("step longer than the whole span"); if (n > 40) s.label("more than 40 entries");
}
