#include "c01.hpp"
#include <boost/numeric/odeint/stepper/explicit_generic_rk.hpp>
#include <boost/numeric/odeint/stepper/explicit_error_generic_rk.hpp>
#include <boost/fusion/include/at_c.hpp>
using namespace boost::numeric::odeint;
// random user tableau (coefficients shared exactly between reference and stepper)
static Tableau gen_tb(pbt::Src& s, int n) {
    Tableau t; t.s = n; t.has_err = true; t.a.assign(n, std::vector<LD>(n, 0)); t.c.assign(n, 0); t.b.assign(n, 0); t.db.assign(n, 0);
    bool rowsum = s.flag(50), zeros = s.flag(30);
    for (int i = 1; i < n; ++i) { double r = 0; for (int j = 0; j < i; ++j) { double v = zeros && s.flag(50) ? 0 : s.num(1.0); t.a[i][j] = v; r += v; } t.c[i] = rowsum ? r : s.num(1.0); }
    for (int i = 0; i < n; ++i) { t.b[i] = zeros && s.flag(30) ? 0 : s.num(1.0); t.db[i] = s.num(0.5); }
    return t;
}
template <size_t I> boost::array<double, I> row(const Tableau& t) { boost::array<double, I> r; for (size_t j = 0; j < I; ++j) r[j] = (double)t.a[I][j]; return r; }
template <class A, size_t... I> A mkA(const Tableau& t, std::index_sequence<I...>) { return A(row<I + 1>(t)...); }
template <size_t N> void generic(pbt::Src& s) {
    typedef explicit_generic_rk<N, 1, Vec> St; Tableau t = gen_tb(s, N);
    typename St::coef_a_type a = mkA<typename St::coef_a_type>(t, std::make_index_sequence<N - 1>()); typename St::coef_b_type b; typename St::coef_c_type c; for (size_t i = 0; i < N; ++i) { b[i] = (double)t.b[i]; c[i] = (double)t.c[i]; }
    pbt::Poisoned<St> st(a, b, c); pbt::Poisoned<St> st2(*st);
    for (size_t i = 0; i < N; ++i) { b[i] = NAN; c[i] = NAN; }
    s.note("stages", N);
    c01_run(s, t, 0, false, [&](Sys<Vec> f, const Vec& x, double tt, double dt, int mode) {
        StepOut o; o.has_err = o.has_dxdt = false; St& u = mode >= 2 ? *st2 : *st;
        if (mode & 1) { o.x = Vec(x.size(), NAN); u.do_step(f, x, tt, o.x, dt); } else { o.x = x; u.do_step(f, o.x, tt, dt); }
        return o; });
}
template <size_t N> void generic_err(pbt::Src& s) {
    typedef explicit_error_generic_rk<N, 5, 5, 4, Vec> St; Tableau t = gen_tb(s, N);
    typename St::coef_a_type a = mkA<typename St::coef_a_type>(t, std::make_index_sequence<N - 1>()); typename St::coef_b_type b, b2; typename St::coef_c_type c; for (size_t i = 0; i < N; ++i) { b[i] = (double)t.b[i]; b2[i] = (double)t.db[i]; c[i] = (double)t.c[i]; }
    pbt::Poisoned<St> st(a, b, b2, c); s.note("stages", N);
    c01_run(s, t, 0, false, [&](Sys<Vec> f, const Vec& x, double tt, double dt, int mode) {
        StepOut o; o.has_err = mode >= 2; o.has_dxdt = false; size_t n = x.size(); if (o.has_err) o.err.assign(n, NAN);
        switch (mode) {
        case 0: o.x = x; st->do_step(f, o.x, tt, dt); break;
        case 1: o.x.assign(n, NAN); st->do_step(f, x, tt, o.x, dt); break;
        case 2: o.x = x; st->do_step(f, o.x, tt, dt, o.err); break;
        default: o.x.assign(n, NAN); st->do_step(f, x, tt, o.x, dt, o.err); break;
        }
        return o; });
}
SUITE(generic_rk, 150000, 6000000, C01_RULE) { switch (src.raw(7)) { case 0: generic<2>(src); break; case 1: generic<6>(src); break; case 2: generic<3>(src); break; case 3: generic<4>(src); break; case 4: generic<5>(src); break; case 5: generic<7>(src); break; default: generic<9>(src); } }
SUITE(generic_error_rk, 150000, 6000000, C01_RULE) { switch (src.raw(5)) { case 0: generic_err<2>(src); break; case 1: generic_err<3>(src); break; case 2: generic_err<6>(src); break; case 3: generic_err<4>(src); break; default: generic_err<5>(src); } }
