// C13, adaptive Adams (plain and controlled): no adjust_size, so the size may only change under always_resizer
#include "c13.hpp"
template <class S> using g_aab = od::adaptive_adams_bashforth_moulton<4, S, double, S, double, od::range_algebra, od::default_operations, od::always_resizer>;
template <class S> using g_aabi = od::adaptive_adams_bashforth_moulton<4, S, double, S, double, od::range_algebra, od::default_operations, od::initially_resizer>;
template <class S, class St> void aab_step(St& st, const NSys<S>& sys, S& x, S& e, double t, double dt, int op) { switch (op) { case 0: case 1: st.do_step(sys, x, t, dt); break; case 2: st.do_step(sys, x, t, dt, e); break; case 3: { S y(x.size(), 0.0); st.do_step(sys, x, t, y, dt); x = y; break; } case 4: { S y(x.size(), 0.0); st.do_step(sys, x, t, y, dt, e); x = y; break; } default: st.do_step(sys, x, t, dt); } }
SUITE(sizes_adaptive_adams, 5000, 250000, R13) {
    typedef g_aab<NV> A; typedef g_aabi<Vec> B; auto g = gen13(src, ALWAYS, 10); std::shared_ptr<A> st(new A), old;
    for (size_t k = 0; k < g.size(); ++k) {
        NV x = tonv(g[k].x0), e(x.size(), 0.0); Vec y = g[k].x0, f(y.size(), 0.0); B ref; NSys<NV> sa{&g[k].p}; NSys<Vec> sb{&g[k].p}; double t = g[k].t0; int start = g[k].op[0];
        if (start == 7) { double ta = t, tb = t; st->initialize(g_ck<NV, od::initially_resizer>(), sa, x, ta, g[k].dt); ref.initialize(g_ck<Vec, od::initially_resizer>(), sb, y, tb, g[k].dt); t = tb; eq13(pv(x), y, "state after initialize", k, 0, "always"); REQUIRE_K("time", ta == tb, "time after initialize ", ta, " expected ", tb); src.label("initialize(stepper)"); }
        else if (start == 6) { double ta = t, tb = t; st->initialize(sa, x, ta, g[k].dt); ref.initialize(sb, y, tb, g[k].dt); t = tb; eq13(pv(x), y, "state after initialize", k, 0, "always"); src.label("initialize"); }
        else if (!(k && g[k].p.d != g[k - 1].p.d)) st->reset();
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (j && op == 6) { old = st; st = std::shared_ptr<A>(new A(*st)); } if (j && op == 7) { if (!old) old = std::shared_ptr<A>(new A); *old = *st; std::swap(old, st); }
            aab_step<NV>(*st, sa, x, e, t, g[k].dt, op); aab_step<Vec>(ref, sb, y, f, t, g[k].dt, op); t += g[k].dt; eq13(pv(x), y, "state", k, j, "always"); if (op == 2 || op == 4) eq13(pv(e), f, "error estimate", k, j, "always"); }
    }
    nt13(src, g);
}
template <class S, class R> struct CA { typedef od::adaptive_adams_bashforth_moulton<4, S, double, S, double, od::range_algebra, od::default_operations, R> St; typedef od::detail::pid_step_adjuster<S, double, S, double, od::range_algebra, od::default_operations, od::detail::H211PI> Adj; typedef od::default_order_adjuster<4, S, double, od::range_algebra> Ord; typedef od::controlled_adams_bashforth_moulton<St, Adj, Ord, R> type; static type mk(double tol) { return type(Adj(tol, tol)); } };
SUITE(sizes_controlled_adams, 5000, 250000, R13) {
    typedef CA<NV, od::always_resizer> CAA; typedef CA<Vec, od::initially_resizer> CAB; typedef CAA::type A; typedef CAB::type B; auto g = gen13(src, ALWAYS, 10); double tol = src.logmag(1e-7, 1e-2); src.note("tol", tol); std::shared_ptr<A> st(new A(CAA::mk(tol)));
    for (size_t k = 0; k < g.size(); ++k) {
        NV x = tonv(g[k].x0); Vec y = g[k].x0; B ref = CAB::mk(tol); NSys<NV> sa{&g[k].p}; NSys<Vec> sb{&g[k].p}; double t = g[k].t0, tb = t, dt = g[k].dt, dtb = dt; int start = g[k].op[0];
        if (start == 7) { st->initialize(g_ck<NV, od::initially_resizer>(), sa, x, t, dt); ref.initialize(g_ck<Vec, od::initially_resizer>(), sb, y, tb, dtb); src.label("initialize(stepper)"); } else if (start == 6) { st->initialize(sa, x, t, dt); ref.initialize(sb, y, tb, dtb); src.label("initialize"); } else st->reset();
        eq13(pv(x), y, "state after the start", k, 0, "always"); REQUIRE_K("time", t == tb && dt == dtb, "after the start: t ", t, " dt ", dt, " expected ", tb, " ", dtb);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op >= 6 && j) st = std::shared_ptr<A>(new A(*st)); int ra, rb;
            if (op == 3 || op == 4) { NV o(x.size(), 0.0); Vec q(y.size(), 0.0); ra = st->try_step(sa, x, t, o, dt); rb = ref.try_step(sb, y, tb, q, dtb); if (rb == od::success) { x = o; y = q; } } else { ra = st->try_step(sa, x, t, dt); rb = ref.try_step(sb, y, tb, dtb); }
            REQUIRE_K("acceptance", ra == rb, "segment ", k, " trial ", j, ": result differs from a stepper made for this size"); REQUIRE_K("time", t == tb && dt == dtb, "segment ", k, " trial ", j, ": t ", t, " dt ", dt, " expected ", tb, " ", dtb); eq13(pv(x), y, "state", k, j, "always"); if (!(std::fabs(t) < 40)) break; }
    }
    nt13(src, g);
}
