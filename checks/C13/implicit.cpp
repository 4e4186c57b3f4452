// C13, the ublas steppers (their matrices and permutations follow the state size as well)
#include "c13.hpp"
typedef boost::numeric::ublas::vector<double> UV; typedef boost::numeric::ublas::matrix<double> UM;
struct UF { const Prob* p; template <class Q, class D> void operator()(const Q& x, D& d, double t) const { rhs_tick(); if ((int)x.size() != p->d || (int)d.size() != p->d) pbt::fail("derivative_size", pbt::str("right-hand side: state of size ", x.size(), ", derivative of size ", d.size(), ", the caller's size is ", p->d)); for (int i = 0; i < p->d; ++i) d[i] = -(1 + 0.5 * (i % 4)) * x[i] + 0.2 * std::sin(x[(i + 1) % p->d] + t); } };
struct UJ { const Prob* p; void fill(const UV& x, UM& j, double t) const { rhs_tick(); int n = p->d; if ((int)x.size() != n || (int)j.size1() != n || (int)j.size2() != n) pbt::fail("jacobian_size", pbt::str("Jacobian: state of size ", x.size(), ", matrix ", j.size1(), "x", j.size2(), ", the caller's size is ", n)); for (int a = 0; a < n; ++a) { for (int b = 0; b < n; ++b) j(a, b) = 0; j(a, a) += -(1 + 0.5 * (a % 4)); j(a, (a + 1) % n) += 0.2 * std::cos(x[(a + 1) % n] + t); } }
    void operator()(const UV& x, UM& j, double t) const { fill(x, j, t); }
    void operator()(const UV& x, UM& j, const double& t, UV& d) const { fill(x, j, t); if ((int)d.size() != p->d) pbt::fail("derivative_size", pbt::str("Jacobian: time derivative of size ", d.size(), ", the caller's size is ", p->d)); for (int i = 0; i < p->d; ++i) d[i] = 0.2 * std::cos(x[(i + 1) % p->d] + t); } };
inline UV uv(const Vec& v) { UV r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; } inline Vec pv(const UV& v) { return Vec(v.begin(), v.end()); }
inline void nanfill(UV& x) { for (size_t i = 0; i < x.size(); ++i) x[i] = std::numeric_limits<double>::quiet_NaN(); }
template <class R> using g_ros = od::rosenbrock4<double, od::default_rosenbrock_coefficients<double>, R>;
template <class R> void ie13(pbt::Src& s) {
    typedef od::implicit_euler<double, R> A; typedef od::implicit_euler<double> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 6); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A), old;
    for (size_t k = 0; k < g.size(); ++k) { UV x = uv(g[k].x0), y = x; B ref; auto sys = std::make_pair(UF{&g[k].p}, UJ{&g[k].p}); double t = g[k].t0; begin_seg(*st, pol, x, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj); double dt = std::fabs(g[k].dt);
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op == 6) { old = st; st = std::shared_ptr<A>(new A(*st)); } if (op == 7) { if (!old) old = std::shared_ptr<A>(new A); *old = *st; std::swap(old, st); } st->do_step(sys, x, t, dt); ref.do_step(sys, y, t, dt); t += dt; eq13(pv(x), pv(y), "state", k, j, PolOf<R>::n()); } }
    nt13(s, g);
}
template <class R> void ros13(pbt::Src& s) {
    typedef g_ros<R> A; typedef g_ros<od::initially_resizer> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 8); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A), old;
    for (size_t k = 0; k < g.size(); ++k) { UV x = uv(g[k].x0), y = x, e(x.size()), f(x.size()); B ref; auto sys = std::make_pair(UF{&g[k].p}, UJ{&g[k].p}); double t = g[k].t0; begin_seg(*st, pol, x, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj); double dt = g[k].dt;
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op == 6) { old = st; st = std::shared_ptr<A>(new A(*st)); } if (op == 7) { st = std::shared_ptr<A>(new A(*st)); }
            UV x0 = x, y0 = y; nanfill(e); nanfill(f); switch (op) { case 0: case 1: st->do_step(sys, x, t, dt); ref.do_step(sys, y, t, dt); break; case 2: { UV o(x.size()), q(x.size()); nanfill(o); nanfill(q); st->do_step(sys, x, t, o, dt); ref.do_step(sys, y, t, q, dt); x = o; y = q; break; } case 3: { UV o(x.size()), q(x.size()); nanfill(o); nanfill(q); st->do_step(sys, x, t, o, dt, e); ref.do_step(sys, y, t, q, dt, f); x = o; y = q; eq13(pv(e), pv(f), "error estimate", k, j, PolOf<R>::n()); break; } default: st->do_step(sys, x, t, dt, e); ref.do_step(sys, y, t, dt, f); eq13(pv(e), pv(f), "error estimate", k, j, PolOf<R>::n()); }
            eq13(pv(x), pv(y), "state", k, j, PolOf<R>::n());
            if (op == 5) { UV p(x.size()), q(x.size()); nanfill(p); st->prepare_dense_output(); ref.prepare_dense_output(); st->calc_state(t + 0.3 * dt, p, x0, t, x, t + dt); ref.calc_state(t + 0.3 * dt, q, y0, t, y, t + dt); eq13(pv(p), pv(q), "interpolated state", k, j, PolOf<R>::n()); }
            t += dt; } }
    nt13(s, g);
}
template <class R> void cros13(pbt::Src& s) {
    typedef od::rosenbrock4_controller<g_ros<R>> A; typedef od::rosenbrock4_controller<g_ros<od::initially_resizer>> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 8); double tol = s.logmag(1e-9, 1e-2); s.note("tol", tol); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A(tol, tol));
    for (size_t k = 0; k < g.size(); ++k) { UV x = uv(g[k].x0), y = x; B ref(tol, tol); auto sys = std::make_pair(UF{&g[k].p}, UJ{&g[k].p}); double t = g[k].t0, tb = t, dt = std::fabs(g[k].dt), dtb = dt; begin_seg(*st, pol, x, k, k ? g[k - 1].p.d : -1, g[k].p.d, adj); st->reset();
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op >= 6) st = std::shared_ptr<A>(new A(*st)); int ra, rb; if (op == 3 || op == 4) { UV o(x.size()), q(x.size()); nanfill(o); nanfill(q); ra = st->try_step(sys, x, t, o, dt); rb = ref.try_step(sys, y, tb, q, dtb); if (rb == od::success) { x = o; y = q; } } else { ra = st->try_step(sys, x, t, dt); rb = ref.try_step(sys, y, tb, dtb); }
            REQUIRE_K("acceptance", ra == rb, "segment ", k, " trial ", j, ": result differs from a stepper made for this size"); REQUIRE_K("time", t == tb && dt == dtb, "segment ", k, " trial ", j, ": t ", t, " dt ", dt, " expected ", tb, " ", dtb); eq13(pv(x), pv(y), "state", k, j, PolOf<R>::n()); if (!(std::fabs(t) < 40)) break; } }
    nt13(s, g);
}
template <class R> void dros13(pbt::Src& s) {
    typedef od::rosenbrock4_controller<g_ros<R>> CA; typedef od::rosenbrock4_controller<g_ros<od::initially_resizer>> CB; typedef od::rosenbrock4_dense_output<CA> A; typedef od::rosenbrock4_dense_output<CB> B; Pol pol = PolOf<R>::v; auto g = gen13(s, pol, 5); double tol = s.logmag(1e-9, 1e-2); s.note("tol", tol); s.label(PolOf<R>::n()); s.note(PolOf<R>::n()); bool adj = pol != NEVER && s.flag(20); std::shared_ptr<A> st(new A(CA(tol, tol)));
    for (size_t k = 0; k < g.size(); ++k) { UV x = uv(g[k].x0); B ref(CB(tol, tol)); auto sys = std::make_pair(UF{&g[k].p}, UJ{&g[k].p}); if (pol == NEVER || (pol == INITIALLY && k > 0) || adj) st->adjust_size(x); st->initialize(x, g[k].t0, std::fabs(g[k].dt)); ref.initialize(x, g[k].t0, std::fabs(g[k].dt));
        for (size_t j = 0; j < g[k].op.size(); ++j) { int op = g[k].op[j]; if (op >= 6) st = std::shared_ptr<A>(new A(*st)); auto a = st->do_step(sys); auto b = ref.do_step(sys); REQUIRE_K("time", a.first == b.first && a.second == b.second, "segment ", k, " step ", j, ": interval ", a.first, "..", a.second, " expected ", b.first, "..", b.second); eq13(pv(st->current_state()), pv(ref.current_state()), "current state", k, j, PolOf<R>::n()); eq13(pv(st->previous_state()), pv(ref.previous_state()), "previous state", k, j, PolOf<R>::n());
            double th = a.first + (0.1 + 0.2 * (op % 5)) * (a.second - a.first); UV p(x.size()), q(x.size()); nanfill(p); st->calc_state(th, p); ref.calc_state(th, q); eq13(pv(p), pv(q), "interpolated state", k, j, PolOf<R>::n()); if (!(std::fabs(a.second) < 40)) break; } }
    nt13(s, g);
}
SUITE(sizes_implicit_euler, 2500, 120000, R13) { POLICIES((ie13<R>(src))) }
SUITE(sizes_rosenbrock, 2500, 120000, R13) { POLICIES((ros13<R>(src))) }
SUITE(sizes_rosenbrock_controlled, 2000, 100000, R13) { POLICIES((cros13<R>(src))) }
SUITE(sizes_rosenbrock_dense, 2000, 100000, R13) { POLICIES((dros13<R>(src))) }
