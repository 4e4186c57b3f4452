#include "c21.hpp"
// Model of the controlled stepper: the order in use is not observable, so all orders that
// explain the history are carried along (a step may change the order by at most one).
struct Band { LVec lo, hi; };
struct Part { int eo; Band e1, e2; };
static LD pid(const std::vector<const Band*>& e, bool hi, const std::vector<LD>& beta, int eo, LD dtmax, LD dt) {
    LD m = 0; size_t d = e[0]->lo.size(); for (size_t k = 0; k < d; ++k) { LD f = 1; for (size_t j = 0; j < beta.size(); ++j) if (beta[j] != 0) f *= std::pow(hi ? e[j]->hi[k] : e[j]->lo[k], beta[j] / (eo + 1)); m = std::max(m, f); }
    LD ratio = 1 + std::atan(1 / m - 1); if (ratio * std::fabs(dt) >= dtmax) ratio = dtmax / std::fabs(dt); return ratio;
}
// one candidate per order: error bands of different histories are joined
static void join(Band& a, const Band& b) { if (a.lo.empty() || b.lo.empty()) { if (a.lo.empty()) a = b; return; } for (size_t k = 0; k < a.lo.size(); ++k) { a.lo[k] = std::min(a.lo[k], b.lo[k]); a.hi[k] = std::max(a.hi[k], b.hi[k]); } }
static void add(std::vector<Part>& P, const Part& q) { for (auto& r : P) if (r.eo == q.eo) { join(r.e1, q.e1); join(r.e2, q.e2); return; } P.push_back(q); }
template <size_t N, size_t TYPE> using Adj = od::detail::pid_step_adjuster<Vec, double, Vec, double, typename od::algebra_dispatcher<Vec>::algebra_type, typename od::operations_dispatcher<Vec>::operations_type, TYPE>;
template <size_t N, size_t TYPE> void ctrl_case(pbt::Src& s) {
    typedef od::adaptive_adams_bashforth_moulton<N, Vec> Es; typedef Adj<N, TYPE> A; typedef od::controlled_adams_bashforth_moulton<Es, A> St;
    rhs_reset(); int d = (int)s.i(1, 4); Prob p = gen_prob(s, d, ALLKINDS, 1.0); Sys<Vec> sys(p); Vec x = s.vec(d, 1.2); double t = s.flag() ? s.num(3) : 0; double at = s.logmag(1e-9, 1e-2), rt = s.flag(20) ? 0 : s.logmag(1e-9, 1e-2), dtmax = s.flag(30) ? s.logmag(0.02, 0.5) : 1.0; int sg = s.flag() ? -1 : 1; double dt = sg * s.logmag(1e-3, 0.5);
    s.note("N", N); s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt); s.note("atol", at); s.note("rtol", rt); s.note("dtmax", dtmax);
    pbt::Poisoned<St> first(A(at, rt, dtmax)); St* st = &first.get(); std::unique_ptr<St> held; Hist h; int init = 0; std::vector<Part> P(1, Part{1, {}, {}}); int fails = 0, oks = 0, unique = 0, maxeo = 1, clamped = 0, inits = 0, restarts = 0;
    std::vector<LD> beta; if (TYPE == od::detail::H211PI) beta = {1.0L / 6, 2.0L / 6, 0}; else beta = {1, 0, 0};
    int n = (int)s.i(1, 40), consec = 0;
    for (int k = 0; k < n; ++k) {
        int op = (int)s.raw(40);
        if (op == 0 && k) { st->reset(); ++restarts; h.clear(); init = 0; P.assign(1, Part{1, {}, {}}); s.note("reset; "); if (s.flag()) { sg = -sg; dt = sg * s.logmag(1e-3, 0.3); } if (s.flag(30)) t = s.num(4); }
        else if (op == 1) { std::unique_ptr<St> z(new St(*st)); held = std::move(z); st = held.get(); s.note("copy; "); }
        else if (op == 2) { std::unique_ptr<St> z(new St()); if (s.flag()) { Vec y(x); double tt = 0, h = 0.1; for (int q = 0; q < 4; ++q) z->try_step(sys, y, tt, h); } *z = *st; held = std::move(z); st = held.get(); s.note("assign; "); }
        else if (op >= 3 && op <= 5) { // initialisation
            ++inits; h.clear(); init = 0; P.assign(1, Part{(int)N, {}, {}}); double H = sg * s.logmag(2e-3, 0.1) * N, hs = H / N, tt = t; Vec x0 = x; s.note(op == 3 ? "initialize(rk4) " : op == 4 ? "initialize " : "initialize_controlled "); s.note("H", H);
            if (op == 3) { st->initialize(od::runge_kutta4<Vec>(), sys, x, t, H); LVec y = toL(x0); LD sc = 1; for (size_t i = 0; i < N; ++i) { y = rk_step<LD>(tb_rk4(), RefF{p}, y, (LD)tt, (LD)hs, 0, 0, &sc); tt += hs; h.push(tt, frhs(p, y, (LD)tt)); } if (!(sc < 30)) throw pbt::Discard(); check_close("initialize", "state after initialize(rk4)", x, y, 1e-12 * (double)sc * N); }
            else if (op == 4) { st->initialize(sys, x, t, H); LVec y = toL(x0); LD sc = 1; int eo = 1; for (size_t i = 0; i < N; ++i) { if (i == 0) h.push(tt, frhs(p, y, (LD)tt)); Trial21 r = adams_trial(p, h, std::min<int>(eo, h.t.size()), toD(y), tt, hs); y = r.out; for (auto v : y) sc = std::max(sc, std::fabs(v)); for (auto v : r.pred) sc = std::max(sc, std::fabs(v)); if (!(sc < 30)) throw pbt::Discard(); tt += hs; h.push(tt, frhs(p, y, (LD)tt)); if (eo < (int)N) ++eo; } if (!(sc < 30)) throw pbt::Discard(); check_close("initialize", "state after initialize", x, y, 1e-11 * (double)sc); }
            else { typedef od::runge_kutta_fehlberg78<Vec> RK; double tol = s.logmag(1e-9, 1e-3); double dts = H; auto c1 = od::make_controlled(tol, tol, RK()), c2 = od::make_controlled(tol, tol, RK()); Vec y = x0; double ds = H; for (size_t i = 0; i < N; ++i) { int g = 0; while (c2.try_step(sys, y, tt, ds) != od::success) if (++g > 500) throw pbt::Discard(); h.push(tt, frhs(p, toL(y), (LD)tt)); if (!allfinite(y) || maxabs(y) > 1e3 || std::fabs(ds) > 3) throw pbt::Discard(); }
                if (s.flag(30)) st->initialize_controlled(c1, boost::ref(sys), x, t, dts); else st->initialize_controlled(c1, sys, x, t, dts); REQUIRE_K("initialize_controlled", same_bits(x, y) && t == tt && dts == ds, "initialize_controlled ended at x=", vstr(x), " t=", t, " dt=", dts, " instead of the N accepted steps of the given stepper: x=", vstr(y), " t=", tt, " dt=", ds); }
            REQUIRE_K("init_time", std::fabs(t - tt) <= 1e-14 * (1 + std::fabs(t)), "initialisation advanced the time to ", t, " instead of ", tt); if (!allfinite(x) || maxabs(x) > 1e3) throw pbt::Discard(); dt = sg * s.logmag(1e-3, 0.3); continue;
        }
        if (s.flag(10)) dt = sg * s.logmag(1e-3, 0.6);
        if (h.t.empty()) h.push(t, frhs(p, toL(x), t));
        std::vector<Trial21> tr(N + 1); int lim = std::min<int>(N, (int)h.t.size()); bool usable = true; LD fmx = 0;
        for (int e = 1; e <= lim; ++e) { bool need = false; for (auto& q : P) need |= q.eo == e; if (!need) continue; tr[e] = adams_trial(p, h, e, x, t, dt); for (auto v : tr[e].fpred) fmx = std::max(fmx, std::fabs(v)); if (!(tr[e].scale < 1e3) || !(tr[e].noise < 1e-7) || !(fmx < 1e5)) usable = false; for (auto v : tr[e].out) if (!(std::fabs(v) < 1e4)) usable = false; }
        Vec keep = x; double t0 = t, dt0 = dt; Vec out(d, 0.25), fill = out; bool inplace = s.flag(); int rf = (int)s.raw(3); od::controlled_step_result res;
        if (inplace) { res = rf == 1 ? st->try_step(boost::ref(sys), x, t, dt) : rf == 2 ? st->try_step(std::ref(sys), x, t, dt) : st->try_step(sys, x, t, dt); if (res == od::success) out = x; }
        else { res = rf == 1 ? st->try_step(boost::ref(sys), x, t, out, dt) : st->try_step(sys, x, t, out, dt); REQUIRE_K("input_written", same_bits(keep, x), "try_step wrote its input state"); }
        if (!usable) break;
        if (res == od::fail) { ++fails; ++consec; REQUIRE_K("failed_moved", same_bits(keep, x) && t == t0, "a rejected step moved the state or time: x=", vstr(x), " t=", t, " before ", vstr(keep), " ", t0); REQUIRE_K("failed_dt", dt * sg > 0 && std::fabs(dt) < 0.9 * std::fabs(dt0), "rejected step of dt=", dt0, " proposes dt=", dt); }
        else { ++oks; consec = 0; REQUIRE_K("accepted_t", std::fabs(t - (t0 + dt0)) <= 4e-16 * (1 + std::fabs(t0)), "accepted step from t=", t0, " of dt=", dt0, " ended at t=", t); REQUIRE_K("accepted_dt", std::fabs(dt) >= 0.9 * std::fabs(dt0) * (1 - 1e-14) && dt * sg > 0, "accepted step of dt=", dt0, " proposes dt=", dt); REQUIRE_K("dtmax", std::fabs(dt) <= dtmax * (1 + 1e-14), "proposed step ", dt, " exceeds the limit ", dtmax); }
        if (std::fabs(dt) >= dtmax * (1 - 1e-14)) ++clamped;
        // which orders explain this trial?
        std::vector<Part> next; std::string why; bool first_only = true;
        for (auto& q : P) {
            if (q.eo > lim || q.eo < 1) continue; const Trial21& r = tr[q.eo]; Part z; z.eo = q.eo; z.e2 = q.e1; z.e1.lo.resize(d); z.e1.hi.resize(d);
            for (int c = 0; c < d; ++c) { LD den = at + rt * (std::fabs(r.out[c]) + std::fabs((LD)dt0) * std::fabs(r.fpred[c])), del = (r.noise) / at + 1e-12L * std::fabs(r.err[c]) / den; LD v = std::fabs(r.err[c]) / den; z.e1.lo[c] = std::max((LD)0, v - del); z.e1.hi[c] = v + del; }
            bool mem = init >= 2; std::vector<const Band*> es{&z.e1, &q.e1, &q.e2}; std::vector<LD> b = mem ? beta : std::vector<LD>{0.7L, 0, 0}; if (mem && q.e1.lo.empty()) continue;
            LD rl = pid(es, true, b, q.eo, dtmax, dt0), rh = pid(es, false, b, q.eo, dtmax, dt0); LD got = (LD)dt / (LD)dt0; bool okdt = got >= rl - 1e-10L && got <= rh + 1e-10L; bool okout = true, okres = !((rh < 0.9L - 1e-9L && res == od::success) || (rl > 0.9L + 1e-9L && res == od::fail)); if (res == od::success) okout = maxdiff(out, r.out) <= (double)r.noise;
            if (okdt && okout && okres) next.push_back(z); else if (first_only) { first_only = false; why = pbt::str("order ", q.eo, ": out ", vstr(r.out), " (tolerance ", (double)r.noise, ", match ", okout, "), step ratio in [", (double)rl, ",", (double)rh, "] (match ", okdt, "), decision match ", okres); }
        }
        if (next.empty()) { for (int e = 1; e <= lim; ++e) { Trial21 r = adams_trial(p, h, e, keep, t0, dt0); why += pbt::str(" | order ", e, " would give ", vstr(r.out), " +- ", (double)r.noise); } for (size_t i = 0; i < h.t.size(); ++i) why += pbt::str(i ? " " : "; history ", (double)h.t[i]); }
        if (next.empty()) pbt::fail("model", pbt::str(res == od::success ? "accepted" : "rejected", " trial ", k, " from t=", t0, " x=", vstr(keep), " dt=", dt0, " with ", h.t.size(), " points (", init, " steps since the last rejection): out ", vstr(out), " next dt ", dt, " not explained by any order that the history allows; e.g. ", why));
        if (res == od::success) { ++init; if (next.size() == 1) { ++unique; maxeo = std::max(maxeo, next[0].eo); }
            x = out; h.push(t, frhs(p, toL(x), t)); int l2 = std::min<int>(N, (int)h.t.size()); P.clear(); for (auto& z : next) for (int e = z.eo - 1; e <= z.eo + 1; ++e) if (e >= 1 && e <= l2) { Part q = z; q.eo = e; add(P, q); } }
        else { init = 0; for (auto& q : P) { q.e1 = Band(); q.e2 = Band(); } // the error history restarts
            std::vector<Part> keepP; for (auto& q : P) { bool in = false; for (auto& z : next) in |= z.eo == q.eo; if (in) keepP.push_back(q); } P = keepP; }
        if (!allfinite(x) || maxabs(x) > 1e3 || std::fabs(dt) < 1e-6 || consec > 60) break;
    }
    if (oks >= 5 && unique >= 3) s.nontrivial(); if (fails) s.label("rejections"); if (clamped) s.label("step limit reached"); if (inits) s.label("initialised"); if (restarts) s.label("reset"); if (sg < 0) s.label("backward"); s.label(pbt::str("highest order identified ", maxeo));
}
SUITE(controlled, 120000, 1200000, "at least five accepted steps, three of them with a uniquely identified order") { using od::detail::H211PI; using od::detail::BASIC; switch (src.raw(7)) { case 0: ctrl_case<2, H211PI>(src); break; case 1: ctrl_case<3, H211PI>(src); break; case 2: ctrl_case<4, H211PI>(src); break; case 3: ctrl_case<5, H211PI>(src); break; case 4: ctrl_case<6, BASIC>(src); break; case 5: ctrl_case<3, BASIC>(src); break; default: ctrl_case<8, H211PI>(src); } }
// a stepper that was used and reset behaves bit for bit like a fresh one
template <size_t N> void twin_case(pbt::Src& s) {
    typedef od::controlled_adams_bashforth_moulton<od::adaptive_adams_bashforth_moulton<N, Vec>> St; typedef typename St::step_adjuster_type A; rhs_reset(); int d = (int)s.i(1, 4); Prob p = gen_prob(s, d, ALLKINDS, 1.0), p2 = gen_prob(s, d, ALLKINDS, 1.0); Sys<Vec> sys(p), sys2(p2); double at = s.logmag(1e-8, 1e-2); s.note("N", N); s.note(p.describe()); s.note("tol", at);
    pbt::Poisoned<St> used(A(at, at)), fresh(A(at, at)); Vec x = s.vec(d, 1); double t = 0, dt = s.logmag(1e-2, 0.5); int n1 = (int)s.i(1, 30); s.note("steps before reset", n1); bool in = false; for (int i = 0; i < n1; ++i) { used->try_step(sys2, x, t, dt); if (!allfinite(x) || maxabs(x) > 1e3) throw pbt::Discard(); }
    Vec a = s.vec(d, 1), b = a; double ta = s.num(2), tb = ta, da = s.num(0.4), db; if (da == 0) da = 0.1; db = da; s.note("x", a); s.note("t", ta); s.note("dt", da); int how = (int)s.raw(3); s.note("restart", how);
    switch (how) { case 0: used->reset(); break; case 1: used->initialize(sys, a, ta, da); fresh->initialize(sys, b, tb, db); in = true; break; default: used->initialize(od::runge_kutta4<Vec>(), sys, a, ta, da); fresh->initialize(od::runge_kutta4<Vec>(), sys, b, tb, db); in = true; }
    int n2 = (int)s.i(1, 25); for (int i = 0; i < n2; ++i) { auto ra = used->try_step(sys, a, ta, da); auto rb = fresh->try_step(sys, b, tb, db); if (!allfinite(b) || !allfinite(a)) throw pbt::Discard(); REQUIRE_K("reset", ra == rb && same_bits(a, b) && ta == tb && da == db, "trial ", i, in ? " after initialize" : " after reset", ": used stepper gives x=", vstr(a), " t=", ta, " dt=", da, " result ", (int)ra, ", fresh stepper x=", vstr(b), " t=", tb, " dt=", db, " result ", (int)rb); if (std::fabs(db) < 1e-9) break; }
    if (n1 >= 5 && n2 >= 5) s.nontrivial();
}
SUITE(reset_twin, 60000, 1000000, "at least five trials before and after the restart") { switch (src.raw(4)) { case 0: twin_case<2>(src); break; case 1: twin_case<3>(src); break; case 2: twin_case<5>(src); break; default: twin_case<7>(src); } }
