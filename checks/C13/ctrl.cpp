#include "c13.hpp"
template <template <class, class> class F, class S, class R> struct CRK { typedef F<S, R> St; typedef od::controlled_runge_kutta<St, od::default_error_checker<double, od::range_algebra, od::default_operations>, od::default_step_adjuster<double, double>, R> type; static type mk(double tol) { return type(typename type::error_checker_type(tol, tol), typename type::step_adjuster_type(), St()); } };
template <template <class, class> class F, class R> void crk(pbt::Src& s) { typedef CRK<F, NV, R> A; typedef CRK<F, Vec, od::initially_resizer> B; ctrl13<typename A::type, typename B::type, R>(s, &A::mk, &B::mk); }
template <class R> void cbs(pbt::Src& s) { typedef g_bs<NV, R> A; typedef g_bs<Vec, od::initially_resizer> B; ctrl13<A, B, R>(s, [](double t) { return A(t, t); }, [](double t) { return B(t, t); }); }
SUITE(sizes_controlled, 6000, 300000, R13) { switch (src.raw(5)) { case 0: POLICIES((crk<g_ck, R>(src))) break; case 1: POLICIES((crk<g_ckc, R>(src))) break; case 2: case 3: POLICIES((crk<g_dp, R>(src))) break; default: POLICIES((crk<g_f78, R>(src))) } }
SUITE(sizes_bulirsch_stoer, 3000, 150000, R13) { POLICIES((cbs<R>(src))) }
template <class S, class R> struct DD { typedef CRK<g_dp, S, R> C; typedef od::dense_output_runge_kutta<typename C::type> type; static type mk(double tol) { return type(C::mk(tol)); } };
template <class R> void ddp(pbt::Src& s) { typedef DD<NV, R> A; typedef DD<Vec, od::initially_resizer> B; dense13<typename A::type, typename B::type, R>(s, &A::mk, &B::mk); }
template <class R> void deu(pbt::Src& s) { typedef od::dense_output_runge_kutta<g_euler<NV, R>> A; typedef od::dense_output_runge_kutta<g_euler<Vec, od::initially_resizer>> B; dense13<A, B, R>(s, [](double) { return A(); }, [](double) { return B(); }); }
template <class R> void dbs(pbt::Src& s) { typedef g_bsd<NV, R> A; typedef g_bsd<Vec, od::initially_resizer> B; dense13<A, B, R>(s, [](double t) { return A(t, t); }, [](double t) { return B(t, t); }); }
SUITE(sizes_dense, 6000, 300000, R13) { switch (src.raw(3)) { case 0: POLICIES((ddp<R>(src))) break; case 1: POLICIES((deu<R>(src))) break; default: POLICIES((dbs<R>(src))) } }
