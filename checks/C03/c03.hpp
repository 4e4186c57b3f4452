// Histories over several stepper objects.  Oracle: after every operation the result is compared, bit for bit,
// with a fresh stepper (in memory pre-filled with NaN bytes) that replays only the operations since the last
// reset / initialisation - or only the last operation, for methods without history.
#ifndef C03_HPP
#define C03_HPP
#include "forms.hpp"
#define C03_RULE "at least six operations, among them two different kinds of non-step operations (reset, initialise, copy, assign, swap, other system)"
struct Op { int code = 0, form = 0, sty = 0, sys = 0; In in; double a = 0; int m = 0; };
// holder with chosen fill byte; scribbles over the object when it dies
template <class St> struct Hold { void* mem; St* p; template <class F> Hold(int fill, F ctor) { mem = ::operator new(sizeof(St) + 64); std::memset(mem, fill, sizeof(St) + 64); __asm__ __volatile__("" : : "r"(mem) : "memory"); p = ctor(mem); }
    ~Hold() { p->~St(); std::memset(mem, 0xFF, sizeof(St)); __asm__ __volatile__("" : : "r"(mem) : "memory"); ::operator delete(mem); } Hold(const Hold&) = delete; Hold& operator=(const Hold&) = delete; };
enum { KEEP, CLEAR_BEFORE, CLEAR_AFTER, ALONE, IGNORE };
inline void app(Vec& r, const Vec& v) { r.insert(r.end(), v.begin(), v.end()); }
inline void flat(Vec& r, const Out& o, bool ctrl) { app(r, o.x); if (o.has_err) app(r, o.err); if (o.has_dxdt) app(r, o.dxdt); if (ctrl) { r.push_back(o.t); r.push_back(o.dt); r.push_back(o.res); } }
template <class St> void assign_(St& b, const St& a, std::true_type) { b = a; } template <class St> void assign_(St&, const St&, std::false_type) {}
template <class St> void swap_(St& b, St& a, std::true_type) { using std::swap; swap(a, b); } template <class St> void swap_(St&, St&, std::false_type) {}
template <class M> void histories(pbt::Src& s, M& m) {
    typedef typename M::St St; typedef std::is_copy_assignable<St> asg; rhs_reset(); int nslots = (int)s.i(1, 3); struct Slot { std::unique_ptr<Hold<St>> h; std::vector<Op> hist; typename M::Pos pos; };
    std::vector<Slot> sl(nslots); auto fresh = [&](int fill) { return std::unique_ptr<Hold<St>>(new Hold<St>(fill, [&](void* q) { return m.make(q); })); };
    for (auto& q : sl) { q.h = fresh(0x11); q.pos = m.start(s); } int n = (int)s.i(1, 25); int steps = 0; unsigned kinds = 0; std::string tr; Slot* last = 0; long work = 0;
    for (int k = 0; k < n; ++k) {
        int w = (int)s.raw(20); Slot& a = sl[s.raw(nslots)]; Slot& b = sl[s.raw(nslots)]; int ia = (int)(&a - &sl[0]), ib = (int)(&b - &sl[0]);
        if (w == 0 && &a != &b) { b.h.reset(new Hold<St>(0x5A, [&](void* q) { return new (q) St(*a.h->p); })); b.hist = a.hist; b.pos = a.pos; tr += pbt::str("copy ", ia, "->", ib, "; "); kinds |= 1; continue; }
        if (w == 1 && asg::value) { assign_(*b.h->p, *a.h->p, asg()); if (&a != &b) { b.hist = a.hist; b.pos = a.pos; } tr += pbt::str("assign ", ia, "->", ib, "; "); kinds |= 2; continue; }
        if (w == 2 && &a != &b && asg::value) { swap_(*a.h->p, *b.h->p, asg()); std::swap(a.hist, b.hist); std::swap(a.pos, b.pos); tr += pbt::str("swap ", ia, ",", ib, "; "); kinds |= 4; continue; }
        if (w == 3) { a.h = fresh(0x22); a.hist.clear(); a.pos = m.start(s); tr += pbt::str("new ", ia, "; "); continue; }
        if (w == 4) { std::unique_ptr<Hold<St>> c(new Hold<St>(0x33, [&](void* q) { return new (q) St(std::move(*a.h->p)); })); a.h = std::move(c); tr += pbt::str("move-construct ", ia, "; "); kinds |= 8; continue; }
        Op op = m.gen(s, a.pos, a.hist.empty()); int eff = m.effect(op); if (eff == IGNORE && op.code == 0) continue; tr += pbt::str(ia, ":", m.name(op), "; "); if (op.code) kinds |= 16u << op.code; if (op.sys) kinds |= 32768; if (last && last != &a) kinds |= 65536; last = &a; s.note("; ");
        s.note(tr.substr(tr.rfind(':') == std::string::npos ? 0 : tr.rfind(':') - 1)); Vec got; bool okp = m.apply(*a.h->p, op, got, &a.pos); if (!okp) break;
        if (eff == IGNORE) continue; if (eff == CLEAR_BEFORE || eff == ALONE) a.hist.clear(); a.hist.push_back(op); work += a.hist.size(); if (work > 400) break;
        std::unique_ptr<Hold<St>> f = fresh(0xFF); Vec want; for (auto& o : a.hist) { want.clear(); typename M::Pos dummy = a.pos; m.apply(*f->p, o, want, &dummy); } ++steps;
        if (!same_bits(got, want)) pbt::fail(m.key(op), pbt::str("operation ", k, " gave ", vstr(got), ", a new stepper that replays ", eff == ALONE ? "this operation alone" : pbt::str("the ", a.hist.size(), " operations since the last reset / initialisation"), " gives ", vstr(want), "; history: ", tr));
        if (eff == CLEAR_AFTER || eff == ALONE) a.hist.clear();
    }
    if (steps >= 6 && __builtin_popcount(kinds) >= 2) s.nontrivial(); if (nslots > 1) s.label("several steppers");
}
// steppers whose steps are described by call forms
struct PosX { Vec x; double t = 0, dt = 0; int k = 0; };
enum Mode { MEMLESS, FSAL, STATEFUL };
template <class Tag, class Stepper, Mode MODE, bool CTRL> struct FormM {
    typedef Stepper St; typedef typename St::state_type S; typedef PosX Pos; int d; std::vector<Sys<S>> sys; std::function<St*(void*)> mk; double dtmax; bool resettable; int ninit = 0; // ninit: kinds of initialisation
    FormM(pbt::Src& s, std::function<St*(void*)> f, double mx, bool r) : mk(f), dtmax(mx), resettable(r) { d = (int)mk_state<S>::blank(1 + (size_t)s.raw(4)).size(); for (int i = 0; i < 3; ++i) { Prob p = gen_prob(s, d, ALLKINDS, 1.0); s.note(p.describe()); s.note(";"); sys.emplace_back(p); } }
    St* make(void* q) { return mk(q); }
    Pos start(pbt::Src& s) { Pos p; p.x = s.vec(d, 1.2); p.t = s.num(2); p.dt = s.logmag(1e-3, dtmax); if (s.flag(30)) p.dt = -p.dt; return p; }
    Op gen(pbt::Src& s, Pos& p, bool) { Op o; int w = (int)s.raw(10); if (w == 0 && resettable) { o.code = 1; } else if (w == 1 && ninit) { o.code = 2; o.m = (int)s.raw(ninit); } else if (w == 2 && s.flag(50)) o.code = 3; o.form = (int)s.raw(Tag::N); o.sty = (int)s.raw(SY_N); o.sys = s.flag(70) ? 0 : (int)s.raw(3); if (s.flag(25)) p = start(s); else if (s.flag(20)) { p.dt = s.logmag(1e-3, dtmax); } o.in.x = p.x; o.in.t = p.t; o.in.dt = p.dt; return o; }
    int effect(const Op& o) { if (o.code == 1) return CLEAR_AFTER; if (o.code == 3) return IGNORE; if (o.code == 2) return CLEAR_BEFORE; if (MODE == MEMLESS) return ALONE; if (MODE == FSAL && (o.form & 1)) return ALONE; return KEEP; }
    std::string name(const Op& o) { return o.code == 1 ? "reset" : o.code == 2 ? pbt::str("initialize", o.m) : o.code == 3 ? "adjust_size" : pbt::str("step(form ", o.form, ", system ", o.sys, " by ", sy_name(o.sty), ", x=", vstr(o.in.x), ", t=", o.in.t, ", dt=", o.in.dt, ")"); }
    std::string key(const Op& o) { return o.code == 2 ? "initialize" : "step"; }
    bool apply(St& st, const Op& o, Vec& r, Pos* p) { Sys<S>& q = sys[o.sys]; if (o.code == 1) { rst(st, 0); return true; } if (o.code == 3) { adj(st, st_of<S>(o.in.x), 0); return true; } if (o.code == 2) { double t = o.in.t; S x = st_of<S>(o.in.x); ini(st, q, x, t, o, Tag()); r = st_to(x); r.push_back(t); if (p) { p->x = st_to(x); p->t = t; } return allfinite(r) && maxabs(r) < 1e6; }
        Out u = run_form(Tag(), st, o.form, q, o.sty, o.in); flat(r, u, CTRL); if (!allfinite(r) || maxabs(r) > 1e6) return false; if (p) { p->x = u.x; if (CTRL) { p->t = u.t; p->dt = std::fabs(u.dt) > 2 * dtmax ? std::copysign(dtmax, u.dt) : u.dt; if (std::fabs(u.dt) < 1e-9) return false; } else { p->t += o.in.dt; } } return true; }
    template <class Z> static auto rst(Z& z, int) -> decltype(z.reset(), void()) { z.reset(); } template <class Z> static void rst(Z&, long) {}
    template <class Z> static auto adj(Z& z, const S& x, int) -> decltype(z.adjust_size(x), void()) { z.adjust_size(x); } template <class Z> static void adj(Z&, const S&, long) {}
    template <class T> static void ini(St& st, Sys<S>& q, S& x, double& t, const Op& o, T) { ini2(st, q, x, t, o, 0); }
    // multi-step: own starter or a given one; FSAL: from the system or from a derivative
    template <class Z> static auto ini2(Z& z, Sys<S>& q, S& x, double& t, const Op& o, int) -> decltype(z.initialize(q, x, t, o.in.dt), void()) { z.initialize(q, x, t, o.in.dt); }
    template <class Z> static auto ini2(Z& z, Sys<S>& q, S& x, double& t, const Op& o, long) -> decltype(z.initialize(q, x, t), void()) { if (o.m == 0) z.initialize(q, x, t); else { S f = mk_state<S>::blank(o.in.x.size()); q(x, f, t); z.initialize(f); } }
    template <class Z> static void ini2(Z&, Sys<S>&, S&, double&, const Op&, ...) {}
};
#endif
