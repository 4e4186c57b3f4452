#include "c22.hpp"
#include <boost/numeric/odeint/integrate/observer_collection.hpp>
// a collection of observers is one observer: every member sees every observation, in the order of the members
struct Member { std::vector<std::pair<int, std::pair<double, Vec>>>* log; int id; long n = 0; void operator()(const Vec& x, const double& t) { ++n; log->push_back({id, {t, x}}); } };
SUITE(observer_collection, 4000, 100000, "two or more members and at least two observations, or two calls with the same collection") {
    pbt::Src& s = src; Prob p = gen_prob(s, (int)s.i(1, 3), SMOOTHKINDS, 1.0); Vec x0 = s.vec(p.d, 1.5); s.note(p.describe()); s.note("x0", x0); Sys<Vec> sys(p);
    std::vector<std::pair<int, std::pair<double, Vec>>> log; int m = (int)s.raw(5); std::vector<Member> mem; for (int k = 0; k < m; ++k) mem.push_back(Member{&log, k}); std::vector<bool> ref(m);
    od::observer_collection<Vec, double> col; for (int k = 0; k < m; ++k) { ref[k] = s.flag(); if (ref[k]) col.observers().push_back(boost::ref(mem[k])); else col.observers().push_back(mem[k]); }
    { const od::observer_collection<Vec, double>& cc = col; REQUIRE_K("members", cc.observers().size() == (size_t)m && &cc.observers() == &col.observers(), "the collection has ", cc.observers().size(), " members after adding ", m); }
    int calls = (int)s.i(1, 3); long total = 0; size_t obs1 = 0; s.note("members", m); s.note("calls", calls);
    for (int j = 0; j < calls; ++j) {
        rhs_reset(200000); Cl c = gen_cl(s, 7); c.a = (int)s.raw(3); log.clear(); Vec x(x0), y(x0); Trace tr; Obs plain{&tr}; auto run = [&](auto st) { auto s2 = st; acall(c, st, sys, x, col); rhs_reset(200000); acall(c, s2, sys, y, plain); };
        try { if (s.flag()) run(od::runge_kutta4<Vec>()); else run(od::make_controlled(1e-6, 1e-6, od::runge_kutta_dopri5<Vec>())); } catch (const od::odeint_error&) { throw pbt::Discard(); } catch (const std::overflow_error&) { throw pbt::Discard(); }
        if (!allfinite(x) || !allfinite(y)) throw pbt::Discard();
        REQUIRE_K("count", log.size() == tr.x.size() * (size_t)m, log.size(), " calls of ", m, " members for ", tr.x.size(), " observations"); REQUIRE_K("state", same_bits(x, y), "the final state differs from that of a run with a plain observer");
        for (size_t q = 0; q < log.size(); ++q) { size_t o = q / m; REQUIRE_K("order", log[q].first == (int)(q % m), "call ", q, " goes to member ", log[q].first, " of ", m); REQUIRE_K("arguments", log[q].second.first == tr.t[o] && same_bits(log[q].second.second, tr.x[o]), "member ", log[q].first, " saw t=", log[q].second.first, " at observation ", o, ", a plain observer sees t=", tr.t[o]); }
        total += (long)tr.x.size(); obs1 = std::max(obs1, tr.x.size());
        for (int k = 0; k < m; ++k) REQUIRE_K("member_by_reference", mem[k].n == (ref[k] ? total : 0), "member ", k, ref[k] ? " put in by reference" : " put in by value", " counts ", mem[k].n, " observations of ", total);
    }
    if (m > 1 && (obs1 > 1 || calls > 1)) s.nontrivial(); if (!m) s.label("no members");
}
