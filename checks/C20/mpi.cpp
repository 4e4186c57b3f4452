// C20: distributed states, with every rank a thread of the stand-in for Boost.MPI
#include "c20.hpp"
#include <boost/numeric/odeint/external/mpi/mpi.hpp>
#include <boost/array.hpp>
namespace bm = boost::mpi; typedef od::mpi_state<Vec> MS;
struct ESer { Elem e; void operator()(const Vec& x, Vec& d, double t) const { for (size_t i = 0; i < x.size(); ++i) d[i] = e(x[i], i, t); } };
struct EPar { Elem e; size_t off; void operator()(const MS& x, MS& d, double t) const { for (size_t i = 0; i < x().size(); ++i) d()[i] = e(x()[i], off + i, t); } };
struct JS { void operator()(const Vec& x, Vec& o) const { o.insert(o.end(), x.begin(), x.end()); } };
#define RULE_M "two or more ranks and a remainder"
SUITE(mpi_split, 4000, 60000, RULE_M) {
    int R = (int)src.i(1, 6); size_t n = gen_len(src); src.note("ranks", R); src.note("length", n); const Vec x = src.vec(n, 100); Vec other = src.vec(src.i(0, 5), 3); size_t extra = src.raw(3) ? 0 : src.i(1, 4); bool garbage = src.flag(); std::vector<Vec> loc(R), out(R); std::vector<double> norm(R); std::vector<char> ok(R), ok2(R); size_t drank = src.raw(R), dlen = src.i(0, 3); Vec got; Vec cp(R);
    std::string err = bm::standin_run(R, [&](int r) { bm::communicator w; MS s(w), c(w); if (garbage) s().assign(r + 1, -7.0); od::split(r == 0 ? x : other, s); loc[r] = s(); norm[r] = od::algebra_dispatcher<MS>::algebra_type::norm_inf(s);
        od::resize(c, s); ok[r] = od::same_size(c, s); od::copy(s, c); cp[r] = same_bits(c(), s()); Vec o(r == 0 ? n + extra : other.size(), 42.0); od::unsplit(c, o); out[r] = o; if (r == (int)drank) c().resize(c().size() + dlen); ok2[r] = od::same_size(c, s); });
    REQUIRE_K("mpi_run", err.empty(), err); size_t at = 0, lo = (size_t)-1, hi = 0; double want = maxabs(x); for (int r = 0; r < R; ++r) { lo = std::min(lo, loc[r].size()); hi = std::max(hi, loc[r].size()); for (double z : loc[r]) { REQUIRE_K("mpi_split", at < n && z == x[at], "rank ", r, " holds ", vstr(loc[r])); ++at; } REQUIRE_K("mpi_norm", norm[r] == want, "the norm is ", norm[r], " on rank ", r, ", ", want, " for the joined state"); REQUIRE_K("mpi_copy", ok[r] && cp[r], "resize / copy on rank ", r); REQUIRE_K("mpi_same_size", !!ok2[r] == (dlen == 0), "same_size is ", (int)ok2[r], " on rank ", r, " when rank ", drank, " differs by ", dlen); if (r) REQUIRE_K("mpi_unsplit", out[r] == Vec(other.size(), 42.0), "unsplit wrote on rank ", r); }
    REQUIRE_K("mpi_split", at == n, at, " of ", n, " elements distributed"); REQUIRE_K("mpi_balance", hi - lo <= 1, "local sizes range from ", lo, " to ", hi); for (size_t k = 0; k < n + extra; ++k) REQUIRE_K("mpi_unsplit", out[0][k] == (k < n ? x[k] : 42.0), "joined state ", vstr(out[0])); if (R > 1 && n % R) src.nontrivial(); src.label((size_t)R > n ? "more ranks than elements" : n % R ? "remainder" : "even");
}
template <class M> void mpi_case(pbt::Src& s) {
    s.label(M::name()); int R = (int)s.i(1, 5); size_t n = gen_len(s); if (n > 40) n = 40; s.note("ranks", R); s.note("length", n); Elem e = gen_elem(s); Plan p = gen_plan(s); const Vec x0 = s.vec(n, 2); s.note("x0", x0); typedef typename M::template type<Vec> A; typedef typename M::template type<MS> B;
    Log la; Vec x(x0); A a = M::template make<A>(p); std::string ea; try { drive(a, ESer{e}, x, p, JS(), la, typename A::stepper_category()); } catch (const od::odeint_error& q) { ea = q.what(); }
    std::vector<Log> lb(R); Vec fin(n), flat; std::vector<std::string> eb(R);
    std::string err = bm::standin_run(R, [&](int r) { bm::communicator w; MS s(w); od::split(x0, s); size_t off = od::detail::split_offsets(n, r, R).first; B b = M::template make<B>(p); EPar y{e, off}; auto join = [n](const MS& q, Vec& o) { std::vector<Vec> all; bm::all_gather(q.world, q(), all); for (auto& c : all) o.insert(o.end(), c.begin(), c.end()); };
        try { drive(b, y, s, p, join, lb[r], typename B::stepper_category()); } catch (const od::odeint_error& q) { eb[r] = q.what(); } od::unsplit(s, fin); });
    REQUIRE_K("mpi_run", err.empty(), M::name(), ": ", err); for (int r = 0; r < R; ++r) REQUIRE_K(std::string("mpi_state_") + M::name(), ea == eb[r] && same_bits(la.v, lb[r].v), "serial: ", vstr(la.v), " on rank ", r, " of ", R, ": ", vstr(lb[r].v), " ", ea, "/", eb[r]); REQUIRE_K("mpi_final", same_bits(fin, x) || ea.size(), "final state ", vstr(fin), " serial ", vstr(x)); if (R > 1 && n > 1 && la.acc && la.adapted) s.nontrivial();
}
#define CASES(NAME, TYPE, CTOR) mpi_case<M_##NAME>,
SUITE(mpi_state, 4000, 80000, "two or more ranks and elements, a completed step with a change of step size") { static void (*const f[])(pbt::Src&) = {C20_STEPPERS(CASES)}; f[src.raw(sizeof f / sizeof *f)](src); }
