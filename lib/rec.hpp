// Recording steppers (they forward to a real stepper and log what happened),
// recording observers, generated time grids.
#ifndef REC_HPP
#define REC_HPP
#include "prob.hpp"
#include <boost/numeric/odeint/stepper/stepper_categories.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/ref.hpp>
#include <boost/numeric/odeint/util/unwrap_reference.hpp>
namespace od = boost::numeric::odeint;

template <class X> Vec to_vec(const X& x) { return Vec(x.begin(), x.end()); }
struct StepLog {
    long ok = 0, failed = 0; double dir = 1; long in_interval = 0;
    std::vector<std::pair<double, double>> steps;   // accepted [t, t+dt]
    std::vector<Vec> states; // state after each accepted step
    long calc = 0; double worst_extrapolation = 0; double ex_t = 0, ex_a = 0, ex_b = 0; bool calc_before_step = false; long inits = 0;
    template <class X> void add(double a, double b, const X& x) { ++ok; if (steps.size() < 5000) { steps.push_back({a, b}); states.push_back(to_vec(x)); } }
};
template <class St, class Cat> struct RecStepper;
template <class St> struct RecBase {
    typedef typename St::state_type state_type; typedef typename St::time_type time_type; typedef typename St::value_type value_type; typedef typename St::deriv_type deriv_type;
    St st; std::shared_ptr<StepLog> log; RecBase(const St& s, std::shared_ptr<StepLog> l) : st(s), log(l) {}
};
template <class St> struct RecStepper<St, od::stepper_tag> : RecBase<St> {
    typedef od::stepper_tag stepper_category; using RecBase<St>::RecBase;
    template <class Sy, class X> void do_step(Sy sys, X& x, double t, double dt) { this->st.do_step(sys, x, t, dt); this->log->add(t, t + dt, x); }
};
template <class St> struct RecStepper<St, od::controlled_stepper_tag> : RecBase<St> {
    typedef od::controlled_stepper_tag stepper_category; using RecBase<St>::RecBase;
    template <class Sy, class X> od::controlled_step_result try_step(Sy sys, X& x, double& t, double& dt) {
        double told = t; od::controlled_step_result r = this->st.try_step(sys, x, t, dt);
        if (r == od::success) this->log->add(told, t, x); else ++this->log->failed;
        return r;
    }
};
template <class St> struct RecStepper<St, od::dense_output_stepper_tag> : RecBase<St> {
    typedef od::dense_output_stepper_tag stepper_category; bool stepped = false; double a = 0, b = 0;
    RecStepper(const St& s, std::shared_ptr<StepLog> l) : RecBase<St>(s, l) {}
    template <class X> void initialize(const X& x, double t, double dt) { if (++this->log->inits > 200000) pbt::fail("nontermination", pbt::str("dense-output stepper initialised more than 200000 times, last with t=", t, " dt=", dt)); this->st.initialize(x, t, dt); }
    template <class Sy> std::pair<double, double> do_step(Sy sys) { std::pair<double, double> r = this->st.do_step(sys); stepped = true; a = r.first; b = r.second; this->log->add(r.first, r.second, this->st.current_state()); return r; }
    template <class X> void calc_state(double t, X& x) { note(t); this->st.calc_state(t, x); }
    template <class X> void calc_state(double t, X& x) const { const_cast<RecStepper*>(this)->note(t); this->st.calc_state(t, x); }
    void note(double t) { StepLog& l = *this->log; ++l.calc; if (!stepped) { l.calc_before_step = true; l.ex_t = t; return; } double lo = std::min(a, b), hi = std::max(a, b), e = t < lo ? lo - t : t > hi ? t - hi : 0; if (e > l.worst_extrapolation) { l.worst_extrapolation = e; l.ex_t = t; l.ex_a = a; l.ex_b = b; } }
    auto current_state() const -> decltype(this->st.current_state()) { return this->st.current_state(); }
    auto previous_state() const -> decltype(this->st.previous_state()) { return this->st.previous_state(); }
    double current_time() const { return this->st.current_time(); }
    double previous_time() const { return this->st.previous_time(); }
    double current_time_step() const { return this->st.current_time_step(); }
};
struct base_tag { static od::stepper_tag of(od::stepper_tag) { return {}; } static od::controlled_stepper_tag of(od::controlled_stepper_tag) { return {}; } static od::dense_output_stepper_tag of(od::dense_output_stepper_tag) { return {}; } };
template <class St> using BaseTag = decltype(base_tag::of(typename St::stepper_category()));
template <class St> RecStepper<St, BaseTag<St>> recorded(const St& s, std::shared_ptr<StepLog> l) { return RecStepper<St, BaseTag<St>>(s, l); }

// one step of a plain stepper; nothing for the other categories
template <class St, class Sy, class X> void plain_step(St& st, Sy& sys, X& x, double t, double dt, od::stepper_tag) { st.do_step(sys, x, t, dt); }
template <class St, class Sy, class X, class Tag> void plain_step(St&, Sy&, X&, double, double, Tag) {}
struct Trace { std::vector<double> t; std::vector<Vec> x; };
struct Obs { Trace* tr; template <class X> void operator()(const X& x, double t) const { if (tr->t.size() > 200000) pbt::fail("nontermination", "observer called more than 200000 times"); tr->t.push_back(t); tr->x.push_back(to_vec(x)); } };

inline double ulp(double x) { x = std::fabs(x); return x < 1e-300 ? 5e-324 : std::nextafter(x, INFINITY) - x; }
// observation grid t0, t0+dt, ... inside [t0,t1]
struct Grid { double t0, dt, t1; long n; bool exact, boundary; std::string cls; };
inline double gen_t0(pbt::Src& s, bool exact) { int k = (int)s.raw(10); double b = k < 6 ? 0 : k < 9 ? 8 : 800; if (k < 3) return 0; double v = exact ? s.i(0, 64) / 8.0 : s.mag(0, 4); if (b) v += exact ? b : b * s.mag(0, 1); return s.flag() ? -v : v; }
// maxn: longest grid; L: bound on |dt|
inline Grid gen_grid(pbt::Src& s, long maxn, double dtmax) {
    Grid g; g.exact = s.flag(50); g.boundary = false; g.t0 = gen_t0(s, g.exact);
    int c = (int)s.raw(10); long n = c < 2 ? s.i(0, 2) : c < 9 ? s.i(0, std::min(maxn, 24l)) : s.i(0, maxn);
    if (g.exact) { int sh = (int)s.i(0, 6); double unit = std::ldexp(1.0, -sh); while (unit > dtmax) unit /= 2; double m = s.i(1, 3); if (m * unit > dtmax) m = 1; g.dt = m * unit; }
    else g.dt = s.logmag(dtmax / 64, dtmax);
    if (s.flag()) g.dt = -g.dt;
    double frac = s.pick({0.0, 0.5, 0.25, 0.875, 0.03}); if (!g.exact && frac == 0 && s.flag(70)) frac = s.mag(0.02, 0.98);
    g.n = n;
    if (g.exact) g.t1 = g.t0 + (n + (frac == 0.03 ? 0.0625 : frac)) * g.dt; else g.t1 = g.t0 + (n + frac) * g.dt;
    g.boundary = !g.exact && frac == 0;
    g.cls = n == 0 ? (frac == 0 ? "empty interval" : "shorter than one step") : n == 1 ? "one step" : n > 30 ? "many steps" : "few steps";
    return g;
}
inline void note_grid(pbt::Src& s, const Grid& g) { s.note("t0", g.t0); s.note("t1", g.t1); s.note("dt", g.dt); s.note("n", g.n); s.label(g.cls); if (g.dt < 0) s.label("backward"); if (g.exact) s.label("exact grid"); if (std::fabs(g.t0) > 50) s.label("large start time"); }
inline double time_tol(const Grid& g, double t) { return g.exact ? 0 : 4 * ulp(std::max({std::fabs(g.t0), std::fabs(t), std::fabs(t - g.t0)})); }

// contract on the stepping of a dense-output stepper by an integrate function
inline void check_log(const StepLog& l, double scale) {
    REQUIRE_K("interpolation_before_step", !l.calc_before_step, "state interpolated at t=", l.ex_t, " before any step was taken");
    REQUIRE_K("extrapolation", l.worst_extrapolation <= 8 * ulp(scale) + 4.5e-16, "state evaluated at t=", l.ex_t, " outside the last step [", l.ex_a, ",", l.ex_b, "]");
}
#endif
