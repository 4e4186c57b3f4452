// C20: offsets, sub-ranges, split / unsplit / copy / norm of OpenMP states
#include "c20.hpp"
#include <boost/numeric/odeint/external/openmp/openmp.hpp>
#include <list>
#include <deque>
SUITE(offsets, 20000, 500000, "more than one part and a remainder") {
    size_t n = src.raw(4) ? (size_t)src.i(0, 60) : (size_t)src.raw((uint64_t)1 << src.i(1, 50)), parts = src.raw(4) ? (size_t)src.i(1, 20) : (size_t)src.i(1, 3000); src.note("length", n); src.note("parts", parts); size_t at = 0, lo = (size_t)-1, hi = 0;
    for (size_t k = 0; k < parts; ++k) { auto o = od::detail::split_offsets(n, k, parts); REQUIRE_K("offsets", o.first == at && o.second >= o.first, "part ", k, " is [", o.first, ",", o.second, "), the previous one ended at ", at); at = o.second; lo = std::min(lo, o.second - o.first); hi = std::max(hi, o.second - o.first); }
    REQUIRE_K("offsets", at == n, "the parts cover [0,", at, ") of ", n); REQUIRE_K("balance", hi - lo <= 1, "part sizes range from ", lo, " to ", hi); if (parts > 1 && n % parts) src.nontrivial(); src.label(parts > n ? "more parts than elements" : n % parts ? "remainder" : "even");
}
template <class C> void subrange(pbt::Src& s, const char* name) {
    size_t n = gen_len(s), parts = s.i(1, 12); s.note("length", n); s.note("parts", parts); s.label(name); C c(n); for (size_t k = 0; k < n; ++k) c[k] = 3 * k + 1; const C cc(c); size_t at = 0;
    for (size_t k = 0; k < parts; ++k) { auto a = od::detail::make_split_range(c, k, parts); auto b = od::detail::make_split_range(cc, k, parts); using od::detail::operator|; auto p = c | od::detail::split(k, parts); auto q = cc | od::detail::split(k, parts);
        REQUIRE_K("subrange", a.size() == b.size() && a.size() == p.size() && a.size() == q.size() && a.size() >= n / parts && a.size() <= n / parts + 1, "sizes ", a.size(), ",", b.size(), ",", p.size(), ",", q.size()); for (size_t j = 0; j < (size_t)a.size(); ++j, ++at) { REQUIRE_K("subrange", at < n && a[j] == cc[at] && b[j] == cc[at] && p[j] == cc[at] && q[j] == cc[at], "part ", k, " element ", j); a[j] = -1; } }
    REQUIRE_K("subrange", at == n, at, " elements visited of ", n); for (auto& z : c) REQUIRE_K("subrange", z == -1, "an element was not reachable for writing"); if (parts > 1 && n % parts) s.nontrivial();
}
SUITE(subranges, 5000, 100000, "more than one part and a remainder") { if (src.flag()) subrange<std::vector<double>>(src, "vector"); else subrange<std::deque<int>>(src, "deque"); }
template <class T> bool eq(const std::vector<T>& a, const std::vector<T>& b) { return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size() * sizeof(T))); }
template <class T> void round_trip(pbt::Src& s, const char* name) {
    s.label(name); size_t n = gen_len(s), parts = s.i(0, 12); int th = (int)s.i(1, 8); omp_set_num_threads(th); s.note("length", n); s.note("chunks", parts); s.note("threads", th); std::vector<T> x(n); for (auto& z : x) z = (T)s.num(1e3); const std::vector<T> x0(x);
    od::openmp_state<T> st(parts); for (auto& c : st) if (s.flag(30)) c.assign(s.i(0, 9), (T)-7); od::split(x, st); size_t want = parts ? parts : (size_t)th;
    REQUIRE_K("split", st.size() == want, st.size(), " chunks, expected ", want); REQUIRE_K("split_source", eq(x, x0), "split changed its source"); size_t at = 0, lo = (size_t)-1, hi = 0; for (auto& c : st) { for (auto& z : c) { REQUIRE_K("split", at < n && z == x[at], "element ", at, " is ", z); ++at; } lo = std::min(lo, c.size()); hi = std::max(hi, c.size()); } REQUIRE_K("split", at == n, at, " elements after split of ", n); REQUIRE_K("balance", hi - lo <= 1, "chunk sizes range from ", lo, " to ", hi);
    // uneven layouts must be joined in order as well
    od::openmp_state<T> un; std::vector<T> flat; for (int k = (int)s.i(0, 6); k > 0; --k) { std::vector<T> c(s.i(0, 5)); for (auto& z : c) { z = (T)s.num(9); flat.push_back(z); } un.push_back(c); }
    const od::openmp_state<T> st0(st); std::vector<T> y(s.i(0, 30), (T)5), w(s.i(0, 30), (T)5); od::unsplit(st, y); od::unsplit(un, w); REQUIRE_K("unsplit", eq(y, x0), "split + unsplit gave ", vstr(y), " for ", vstr(x0)); REQUIRE_K("unsplit", eq(w, flat), "unsplit of an uneven state gave ", vstr(w), " for ", vstr(flat)); for (size_t k = 0; k < st.size(); ++k) REQUIRE_K("unsplit_source", eq(st[k], st0[k]), "unsplit changed its source");
    // resize, same_size, copy
    od::openmp_state<T> c2(un); REQUIRE_K("same_size", od::same_size(st, st0) && od::same_size(c2, un), "a copy has another size"); bool same = un.size() == st.size(); if (same) for (size_t k = 0; k < st.size(); ++k) same = same && un[k].size() == st[k].size(); REQUIRE_K("same_size", od::same_size(un, st) == same && od::same_size(st, un) == same, "same_size says ", od::same_size(un, st)); od::resize(c2, st); REQUIRE_K("resize", od::same_size(c2, st), "resize did not give the size asked for"); od::copy(st, c2); for (size_t k = 0; k < st.size(); ++k) REQUIRE_K("copy", eq(st[k], st0[k]) && eq(c2[k], st0[k]), "chunk ", k, " not copied");
    static_assert(od::is_resizeable<od::openmp_state<T>>::value, ""); if (st.size() > 1 && n % st.size()) s.nontrivial();
}
SUITE(split_round_trip, 4000, 100000, "more than one chunk and a remainder") { switch (src.raw(3)) { case 0: return round_trip<double>(src, "double"); case 1: return round_trip<float>(src, "float"); default: return round_trip<int>(src, "int"); } }
// an inner algebra whose norm takes a while: races between chunks become likely
struct SlowAlgebra : od::range_algebra { template <class S> static typename od::norm_result_type<S>::type norm_inf(const S& s) { auto r = od::range_algebra::norm_inf(s); volatile int k = 300; while (--k) {} return r; } };
SUITE(norms, 4000, 100000, "the maximum is not in the first chunk") {
    int th = (int)src.i(1, 8); omp_set_num_threads(th); size_t n = gen_len(src), parts = src.i(1, 12); src.note("length", n); src.note("chunks", parts); src.note("threads", th); Vec x(n); for (auto& z : x) z = src.num(100); if (n && src.flag(60)) x[src.raw(n)] = src.flag() ? -1e3 : 1e3; double want = 0; size_t arg = 0; for (size_t k = 0; k < n; ++k) if (std::fabs(x[k]) > want) { want = std::fabs(x[k]); arg = k; }
    od::openmp_state<double> st(parts); od::split(x, st); double a = od::openmp_algebra::norm_inf(st), b = od::openmp_range_algebra::norm_inf(x), c = od::openmp_nested_algebra<SlowAlgebra>::norm_inf(st), d = od::range_algebra::norm_inf(x); REQUIRE_K("norm", a == want && b == want && c == want && d == want, "maximum norm ", want, ", openmp_algebra ", a, ", openmp_range_algebra ", b, ", openmp_nested_algebra ", c, ", range_algebra ", d); if (parts > 1 && n && arg >= st[0].size()) src.nontrivial();
}
// every for_eachN of every algebra applies the operation to each element once, with the arguments in order
struct Op { long* hits; template <class A> void operator()(A& a) const { a = 2 * a + 1; ++*hits; } template <class A, class... R> void operator()(A& a, const R&... r) const { double v = a; int k = 1; double dummy[] = {(v += (++k) * (double)r * (k % 3 + 0.5))...}; (void)dummy; a = v; } };
#define FE(N) case N: { ALG::for_each##N FEARGS_##N; break; }
#define FEARGS_1 (s[0], op)
#define FEARGS_2 (s[0], s[1], op)
#define FEARGS_3 (s[0], s[1], s[2], op)
#define FEARGS_4 (s[0], s[1], s[2], s[3], op)
#define FEARGS_5 (s[0], s[1], s[2], s[3], s[4], op)
#define FEARGS_6 (s[0], s[1], s[2], s[3], s[4], s[5], op)
#define FEARGS_7 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], op)
#define FEARGS_8 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], op)
#define FEARGS_9 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], op)
#define FEARGS_10 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], op)
#define FEARGS_11 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], op)
#define FEARGS_12 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], op)
#define FEARGS_13 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], op)
#define FEARGS_14 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], op)
#define FEARGS_15 (s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], op)
template <class ALG, class S> void fe(int n, std::vector<S>& s, Op op) { switch (n) { FE(1) FE(2) FE(3) FE(4) FE(5) FE(6) FE(7) FE(8) FE(9) FE(10) FE(11) FE(12) FE(13) FE(14) FE(15) } }
SUITE(for_each, 4000, 100000, "at least two threads and two chunks with elements") {
    int th = (int)src.i(1, 8), sched = (int)src.i(1, 3), N = (int)src.i(1, 15); omp_set_num_threads(th); omp_set_schedule((omp_sched_t)sched, (int)src.i(0, 4)); size_t n = gen_len(src), parts = src.i(1, 9); src.note("length", n); src.note("chunks", parts); src.note("threads", th); src.note("schedule", sched); src.note("arguments", N); src.label("for_each" + std::to_string(N)); long h = 0; Op op{&h};
    std::vector<Vec> v(N); for (auto& x : v) { x.resize(n); for (auto& z : x) z = src.num(10); } std::vector<Vec> serial(v), omp(v); std::vector<od::openmp_state<double>> nest; for (auto& x : v) { od::openmp_state<double> q(parts); od::split(x, q); nest.push_back(q); }
    fe<od::range_algebra>(N, serial, op); fe<od::openmp_range_algebra>(N, omp, op); fe<od::openmp_algebra>(N, nest, op);
    for (int k = 0; k < N; ++k) { Vec j; od::unsplit(nest[k], j); REQUIRE_K("for_each", eq(omp[k], serial[k]), "openmp_range_algebra::for_each", N, " argument ", k, ": ", vstr(omp[k]), " serial ", vstr(serial[k])); REQUIRE_K("for_each_nested", eq(j, serial[k]), "openmp_algebra::for_each", N, " argument ", k, ": ", vstr(j), " serial ", vstr(serial[k])); } if (th > 1 && parts > 1 && n > parts) src.nontrivial();
}
// the norm must not depend on how the threads interleave: many repetitions with the maximum in one chunk
SUITE(norm_schedules, 120, 3000, "two or more threads") {
    int th = (int)src.i(4, 24); omp_set_num_threads(th); size_t parts = src.i(2000, 6000), big = src.raw(parts); src.note("chunks", parts); src.note("largest", big); src.note("threads", th); od::openmp_state<double> st(parts); Vec x(parts); for (size_t k = 0; k < parts; ++k) { x[k] = k == big ? -2.0 : 0.5 + 1.0 / (2 + k); st[k].assign(1, x[k]); }
    for (int r = 0; r < 200; ++r) { double a = od::openmp_algebra::norm_inf(st), b = od::openmp_range_algebra::norm_inf(x); REQUIRE_K("norm_race", a == 2 && b == 2, "repetition ", r, ": openmp_algebra::norm_inf ", a, ", openmp_range_algebra::norm_inf ", b, ", expected 2"); } src.nontrivial();
}
