#include "c21.hpp"
template <size_t N> void hist_case(pbt::Src& s) {
    rhs_reset(); int d = (int)s.i(1, 5); Prob p = gen_prob(s, d, ALLKINDS, 1.0); Sys<Vec> sys(p); Vec x = s.vec(d, 1.2); double t = s.flag() ? s.num(3) : 0, base = s.logmag(2e-3, 0.1), dt = base; int sg = s.flag() ? -1 : 1; dt *= sg; int pattern = (int)s.raw(4);
    s.note("N", N); s.note(p.describe()); s.note(" x", x); s.note("t", t); s.note("dt", dt); s.note("pattern", pattern);
    typedef od::adaptive_adams_bashforth_moulton<N, Vec> St; pbt::Poisoned<St> first; St* st = &first.get(); std::unique_ptr<St> held; Hist h; int eo = 1; bool full = false; int n = (int)s.i(1, 24); bool varied = false; int restarts = 0;
    for (int k = 0; k < n; ++k) {
        int op = (int)s.raw(20);
        if (op == 0 && k) { st->reset(); h.clear(); eo = 1; ++restarts; s.note("reset; "); if (s.flag()) { sg = -sg; dt = sg * base; } if (s.flag(30)) { t = s.num(5); s.note("t", t); } }
        if (op == 1) { std::unique_ptr<St> z(new St(*st)); held = std::move(z); st = held.get(); s.note("copy; "); }
        if (op == 2) { std::unique_ptr<St> z(new St()); if (s.flag()) { Vec y(x), o(d), e(d); for (int q = 0; q < 4; ++q) z->do_step(sys, y, q * 0.1, o, 0.1, e); } *z = *st; held = std::move(z); st = held.get(); s.note("assign; "); }
        if (op == 3 || op == 4) { // initialisation over one step
            double tt = t, H = dt * N; Vec x0 = x; ++restarts; h.clear(); eo = (int)N; s.note(op == 3 ? "initialize(rk4) H=" : "initialize H=", H); double hs = H / N;
            if (op == 3) { st->initialize(od::runge_kutta4<Vec>(), sys, x, t, H); LVec y = toL(x0); LD sc = 1; for (size_t i = 0; i < N; ++i) { y = rk_step<LD>(tb_rk4(), RefF{p}, y, (LD)tt, (LD)hs, 0, 0, &sc); tt += hs; h.push(tt, frhs(p, y, (LD)tt)); } if (!(sc < 30)) throw pbt::Discard(); check_close("initialize", "state after initialize(rk4)", x, y, 1e-12 * (double)sc * N); }
            else { st->initialize(sys, x, t, H); LVec y = toL(x0); LD sc = 1; eo = 1; for (size_t i = 0; i < N; ++i) { if (i == 0) h.push(tt, frhs(p, y, (LD)tt)); Trial21 r = adams_trial(p, h, std::min<int>(eo, h.t.size()), toD(y), tt, hs); y = r.out; for (auto v : y) sc = std::max(sc, std::fabs(v)); for (auto v : r.pred) sc = std::max(sc, std::fabs(v)); if (!(sc < 30)) throw pbt::Discard(); tt += hs; h.push(tt, frhs(p, y, (LD)tt)); if (eo < (int)N) ++eo; } if (!(sc < 30)) throw pbt::Discard(); check_close("initialize", "state after initialize", x, y, 1e-11 * (double)sc); }
            REQUIRE_K("init_time", std::fabs(t - tt) <= 1e-14 * (1 + std::fabs(t)), "initialize advanced the time to ", t, " instead of ", tt); if (!allfinite(x) || maxabs(x) > 1e4) throw pbt::Discard();
            continue;
        }
        if (h.t.empty()) h.push(t, frhs(p, toL(x), t));
        if (k) switch (pattern) { case 0: break; case 1: if (s.flag(30)) { dt *= s.pick({0.5, 2.0, 1.5, 0.8}); varied = true; } break; case 2: dt *= 1 + s.num(0.4); varied = true; break; default: dt *= s.flag() ? 1.0 : s.pick({0.25, 1.9}); varied = true; }
        if (std::fabs(dt) > 0.15) dt = sg * 0.15; if (std::fabs(dt) < 5e-4) dt = sg * 5e-4;
        Trial21 r = adams_trial(p, h, eo, x, t, dt); if (!(r.scale < 1e4) || !(r.noise < 1e-7)) break; Vec keep = x, out(d, NAN), e(d, NAN); bool witherr = false; int form = (int)s.raw(4); long before = rhs_count().calls;
        switch (form) { case 0: st->do_step(sys, x, t, dt); out = x; break; case 1: st->do_step(sys, x, t, out, dt); break; case 2: st->do_step(sys, x, t, dt, e); out = x; witherr = true; break; default: st->do_step(sys, x, t, out, dt, e); witherr = true; }
        (void)before; if (form & 1) REQUIRE_K("input_written", same_bits(keep, x), "input written");
        check_close("step", pbt::str("step ", k, " of order ", eo, " (", h.t.size(), " points) from t=", t, " dt=", dt, " x=", vstr(keep)), out, r.out, (double)r.noise);
        if (witherr) check_close("error_estimate", pbt::str("error estimate of step ", k, " of order ", eo), e, r.err, (double)r.noise);
        x = out; t += dt; h.push(t, frhs(p, toL(x), t)); if (eo < (int)N) ++eo; else full = true; if (!allfinite(x) || maxabs(x) > 1e4) break;
    }
    if (full && (varied || pattern == 0)) s.nontrivial(); if (varied) s.label("varying steps"); if (restarts) s.label("restarted"); if (sg < 0) s.label("backward"); s.label(pbt::str("N=", N));
}
SUITE(history, 200000, 3000000, "the full order was reached and a step of that order compared") { switch (src.raw(8)) { case 0: hist_case<1>(src); break; case 1: hist_case<2>(src); break; case 2: hist_case<3>(src); break; case 3: hist_case<4>(src); break; case 4: hist_case<5>(src); break; case 5: hist_case<6>(src); break; case 6: hist_case<7>(src); break; default: hist_case<8>(src); } }
