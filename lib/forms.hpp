// Every call form of a step behind one interface, selected by number.
#ifndef FORMS_HPP
#define FORMS_HPP
#include "prob.hpp"
#include <boost/ref.hpp>
#include <boost/numeric/odeint/stepper/controlled_step_result.hpp>
#include <boost/range/iterator_range.hpp>
#include <functional>
#include <deque>
#include <boost/array.hpp>
#include <boost/numeric/odeint/util/is_resizeable.hpp>
namespace boost { namespace numeric { namespace odeint { template <> struct is_resizeable<std::deque<double>> { typedef boost::true_type type; static const bool value = type::value; }; } } } // as documented for further containers
namespace od = boost::numeric::odeint;
template <class S> struct mk_state { static S of(const Vec& v) { return S(v.begin(), v.end()); } static Vec to(const S& s) { return Vec(s.begin(), s.end()); } static S blank(size_t n) { return of(Vec(n, 0.125)); } };
template <class T, size_t N> struct mk_state<boost::array<T, N>> { typedef boost::array<T, N> S; static S of(const Vec& v) { S s; for (size_t i = 0; i < N; ++i) s[i] = v[i]; return s; } static Vec to(const S& s) { return Vec(s.begin(), s.end()); } static S blank(size_t) { return of(Vec(N, 0.125)); } };
template <class S> S st_of(const Vec& v) { return mk_state<S>::of(v); }
template <class S> Vec st_to(const S& s) { return mk_state<S>::to(s); }
struct In { Vec x; double t = 0, dt = 0; };
struct Out { Vec x, err, dxdt; bool has_err = false, has_dxdt = false; double t = 0, dt = 0; int res = 0; Vec in_after, din_after; std::string name; };
// how the system is handed over
enum { SY_VALUE, SY_BREF, SY_SREF, SY_RVALUE, SY_N };
template <class Sy, class F> void with_sys(int style, Sy& s, F f) { switch (style) { case SY_BREF: f(boost::ref(s)); break; case SY_SREF: f(std::ref(s)); break; case SY_RVALUE: f(Sy(s)); break; default: f(s); } }
inline const char* sy_name(int s) { static const char* n[] = {"value", "boost::ref", "std::ref", "temporary"}; return n[s]; }
// a sub-range of a longer vector; what surrounds it must stay
struct Sub { Vec all; size_t n; Sub(const Vec& v) : all(v.size() + 4, 77.5), n(v.size()) { std::copy(v.begin(), v.end(), all.begin() + 2); }
    typedef std::pair<Vec::iterator, Vec::iterator> R; R range() { return R(all.begin() + 2, all.begin() + 2 + n); } Vec get() { for (int k : {0, 1}) if (all[k] != 77.5 || all[n + 2 + k] != 77.5) pbt::fail("range_overrun", "elements outside the given range were written"); return Vec(all.begin() + 2, all.begin() + 2 + n); } };
struct F_ES { static const int N = 4, NR = 3; static const bool err = false; }; struct F_EE { static const int N = 8, NR = 4; }; struct F_FS { static const int N = 8, NR = 4; };
struct F_CR { static const int N = 4, NR = 2; }; struct F_CF { static const int N = 4, NR = 2; };
// --- explicit steppers. forms >= N are range forms (State must be Vec)
template <class St, class Sy> Out run_form(F_ES, St& st, int form, Sy& sys, int sty, const In& in) {
    typedef typename St::state_type S; Out o; S x = st_of<S>(in.x), out = mk_state<S>::blank(in.x.size()), d0 = mk_state<S>::blank(in.x.size()); sys(x, d0, in.t); S dk = d0; bool outp = false;
    with_sys(sty, sys, [&](auto s) { switch (form) {
    case 0: o.name = "(x,t,dt)"; st.do_step(s, x, in.t, in.dt); break;
    case 1: o.name = "(x,dxdt,t,dt)"; st.do_step(s, x, d0, in.t, in.dt); break;
    case 2: o.name = "(in,t,out,dt)"; st.do_step(s, x, in.t, out, in.dt); outp = true; break;
    default: o.name = "(in,dxdt,t,out,dt)"; st.do_step(s, x, d0, in.t, out, in.dt); outp = true; } });
    o.x = st_to(outp ? out : x); o.in_after = outp ? st_to(x) : in.x; if (!same_bits(st_to(d0), st_to(dk))) pbt::fail("dxdt_written", "form " + o.name + " wrote the derivative it was given"); return o;
}
template <class St, class Sy> Out run_range(F_ES, St& st, int form, Sy& sys, int sty, const In& in) {
    Out o; Sub x(in.x), out(Vec(in.x.size(), 0.25)); bool outp = false;
    with_sys(sty, sys, [&](auto s) { switch (form) {
    case 0: o.name = "(temporary range,t,dt)"; st.do_step(s, x.range(), in.t, in.dt); break;
    case 1: { o.name = "(named range,t,dt)"; auto r = x.range(); st.do_step(s, r, in.t, in.dt); break; }
    default: { o.name = "(range in,t,range out,dt)"; auto r = x.range(), q = out.range(); st.do_step(s, r, in.t, q, in.dt); outp = true; } } });
    o.x = outp ? out.get() : x.get(); o.in_after = outp ? x.get() : in.x; return o;
}
template <class St, class Sy> Out run_form(F_EE, St& st, int form, Sy& sys, int sty, const In& in) {
    if (form < 4) return run_form(F_ES(), st, form, sys, sty, in);
    typedef typename St::state_type S; Out o; S x = st_of<S>(in.x), out = mk_state<S>::blank(in.x.size()), d0 = out, e = out; sys(x, d0, in.t); S dk = d0; bool outp = false;
    with_sys(sty, sys, [&](auto s) { switch (form) {
    case 4: o.name = "(x,t,dt,xerr)"; st.do_step(s, x, in.t, in.dt, e); break;
    case 5: o.name = "(x,dxdt,t,dt,xerr)"; st.do_step(s, x, d0, in.t, in.dt, e); break;
    case 6: o.name = "(in,t,out,dt,xerr)"; st.do_step(s, x, in.t, out, in.dt, e); outp = true; break;
    default: o.name = "(in,dxdt,t,out,dt,xerr)"; st.do_step(s, x, d0, in.t, out, in.dt, e); outp = true; } });
    o.x = st_to(outp ? out : x); o.in_after = outp ? st_to(x) : in.x; o.err = st_to(e); o.has_err = true; if (!same_bits(st_to(d0), st_to(dk))) pbt::fail("dxdt_written", "form " + o.name + " wrote the derivative it was given"); return o;
}
template <class St, class Sy> Out run_range(F_EE, St& st, int form, Sy& sys, int sty, const In& in) {
    if (form < 3) return run_range(F_ES(), st, form, sys, sty, in);
    Out o; Sub x(in.x), e(Vec(in.x.size(), 0.25)); o.name = "(temporary range,t,dt,xerr)"; with_sys(sty, sys, [&](auto s) { auto r = e.range(); st.do_step(s, x.range(), in.t, in.dt, r); }); o.x = x.get(); o.err = e.get(); o.has_err = true; o.in_after = in.x; return o;
}
template <class St, class Sy> Out run_form(F_FS, St& st, int form, Sy& sys, int sty, const In& in) {
    typedef typename St::state_type S; Out o; S x = st_of<S>(in.x), out = mk_state<S>::blank(in.x.size()), d0 = out, e = out, d1 = out; sys(x, d0, in.t); S dk = d0; bool outp = false, ino = false;
    with_sys(sty, sys, [&](auto s) { switch (form) {
    case 0: o.name = "(x,t,dt)"; st.do_step(s, x, in.t, in.dt); break;
    case 1: o.name = "(x,dxdt,t,dt)"; st.do_step(s, x, d0, in.t, in.dt); ino = true; d1 = d0; break;
    case 2: o.name = "(in,t,out,dt)"; st.do_step(s, x, in.t, out, in.dt); outp = true; break;
    case 3: o.name = "(in,dxdt,t,out,dxdt_out,dt)"; st.do_step(s, x, d0, in.t, out, d1, in.dt); outp = true; o.has_dxdt = true; break;
    case 4: o.name = "(x,t,dt,xerr)"; st.do_step(s, x, in.t, in.dt, e); o.has_err = true; break;
    case 5: o.name = "(x,dxdt,t,dt,xerr)"; st.do_step(s, x, d0, in.t, in.dt, e); ino = true; d1 = d0; o.has_err = true; break;
    case 6: o.name = "(in,t,out,dt,xerr)"; st.do_step(s, x, in.t, out, in.dt, e); outp = true; o.has_err = true; break;
    default: o.name = "(in,dxdt,t,out,dxdt_out,dt,xerr)"; st.do_step(s, x, d0, in.t, out, d1, in.dt, e); outp = true; o.has_err = o.has_dxdt = true; } });
    if (ino) o.has_dxdt = true; o.dxdt = st_to(d1); o.err = st_to(e); o.x = st_to(outp ? out : x); o.in_after = outp ? st_to(x) : in.x; if (!ino && !same_bits(st_to(d0), st_to(dk))) pbt::fail("dxdt_written", "form " + o.name + " wrote the derivative it was given"); return o;
}
template <class St, class Sy> Out run_range(F_FS, St& st, int form, Sy& sys, int sty, const In& in) { return run_range(F_EE(), st, form, sys, sty, in); }
// --- controlled steppers
template <class St, class Sy> Out run_form(F_CR, St& st, int form, Sy& sys, int sty, const In& in) {
    typedef typename St::state_type S; Out o; S x = st_of<S>(in.x), out = mk_state<S>::blank(in.x.size()), d0 = out; sys(x, d0, in.t); S dk = d0; bool outp = false; o.t = in.t; o.dt = in.dt;
    with_sys(sty, sys, [&](auto s) { switch (form) {
    case 0: o.name = "(x,t,dt)"; o.res = st.try_step(s, x, o.t, o.dt); break;
    case 1: o.name = "(x,dxdt,t,dt)"; o.res = st.try_step(s, x, d0, o.t, o.dt); break;
    case 2: o.name = "(in,t,out,dt)"; o.res = st.try_step(s, x, o.t, out, o.dt); outp = true; break;
    default: o.name = "(in,dxdt,t,out,dt)"; o.res = st.try_step(s, x, d0, o.t, out, o.dt); outp = true; } });
    if (outp) { o.in_after = st_to(x); o.x = o.res == od::success ? st_to(out) : in.x; } else { o.in_after = in.x; o.x = st_to(x); } if (!same_bits(st_to(d0), st_to(dk))) pbt::fail("dxdt_written", "form " + o.name + " wrote the derivative it was given"); return o;
}
template <class St, class Sy> Out run_range(F_CR, St& st, int form, Sy& sys, int sty, const In& in) {
    Out o; Sub x(in.x), out(Vec(in.x.size(), 0.25)); o.t = in.t; o.dt = in.dt; o.in_after = in.x; with_sys(sty, sys, [&](auto s) { switch (form) {
    case 0: o.name = "(temporary range,t,dt)"; o.res = st.try_step(s, x.range(), o.t, o.dt); break;
    default: { o.name = "(named range,t,dt)"; auto r = x.range(); o.res = st.try_step(s, r, o.t, o.dt); } } });
    o.x = x.get(); return o;
}
template <class St, class Sy> Out run_form(F_CF, St& st, int form, Sy& sys, int sty, const In& in) {
    typedef typename St::state_type S; Out o; S x = st_of<S>(in.x), out = mk_state<S>::blank(in.x.size()), d0 = out, d1 = out; sys(x, d0, in.t); S dk = d0; bool outp = false, ino = false; o.t = in.t; o.dt = in.dt;
    with_sys(sty, sys, [&](auto s) { switch (form) {
    case 0: o.name = "(x,t,dt)"; o.res = st.try_step(s, x, o.t, o.dt); break;
    case 1: o.name = "(x,dxdt,t,dt)"; o.res = st.try_step(s, x, d0, o.t, o.dt); ino = true; d1 = d0; break;
    case 2: o.name = "(in,t,out,dt)"; o.res = st.try_step(s, x, o.t, out, o.dt); outp = true; break;
    default: o.name = "(in,dxdt,t,out,dxdt_out,dt)"; o.res = st.try_step(s, x, d0, o.t, out, d1, o.dt); outp = true; o.has_dxdt = true; } });
    if (ino) { o.has_dxdt = true; if (o.res != od::success && !same_bits(st_to(d0), st_to(dk))) pbt::fail("dxdt_written", "rejected step wrote the derivative"); } if (o.res != od::success) o.has_dxdt = false; o.dxdt = st_to(d1);
    if (outp) { o.in_after = st_to(x); o.x = o.res == od::success ? st_to(out) : in.x; } else { o.in_after = in.x; o.x = st_to(x); } if (!ino && !same_bits(st_to(d0), st_to(dk))) pbt::fail("dxdt_written", "form " + o.name + " wrote the derivative it was given"); return o;
}
template <class St, class Sy> Out run_range(F_CF, St& st, int form, Sy& sys, int sty, const In& in) { return run_range(F_CR(), st, form, sys, sty, in); }
// --- multi-step steppers: in place and separate output only
struct F_MS { static const int N = 2, NR = 3; };
template <class St, class Sy> Out run_form(F_MS, St& st, int form, Sy& sys, int sty, const In& in) {
    typedef typename St::state_type S; Out o; S x = st_of<S>(in.x), out = mk_state<S>::blank(in.x.size()); bool outp = form == 1; o.name = outp ? "(in,t,out,dt)" : "(x,t,dt)";
    with_sys(sty, sys, [&](auto s) { if (outp) st.do_step(s, x, in.t, out, in.dt); else st.do_step(s, x, in.t, in.dt); }); o.x = st_to(outp ? out : x); o.in_after = outp ? st_to(x) : in.x; return o;
}
template <class St, class Sy> Out run_range(F_MS, St& st, int form, Sy& sys, int sty, const In& in) { return run_range(F_ES(), st, form, sys, sty, in); }
#endif
