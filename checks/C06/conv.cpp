#include "c06.hpp"
// integrate(): error-controlled with tolerances of 1e-6
SUITE(convenience, 120, 8000, C06_RULE) {
    Cls c = gen_cls(src, false); c.by = BY_ADAPTIVE; int form = (int)src.raw(3); src.label(form == 0 ? "integrate" : form == 1 ? "integrate with observer" : "integrate<double>"); std::vector<double> r; int many = 0; std::string w; double wr = -1;
    for (int k = 0; k < 48; ++k) { Ivp v = gen_ivp(src, c); Truth q = truth(v, BY_ADAPTIVE); if (!q.r.ok) continue; Vec x = v.x0; long n = 0; rhs_reset(); Sys<Vec> sy(v.p); double t1 = v.t0 + v.T; Res o; size_t steps = form == 0 ? integrate(sy, x, v.t0, t1, v.dt) : form == 1 ? integrate(sy, x, v.t0, t1, v.dt, TraceObs{&o}) : integrate<double>(sy, x, v.t0, t1, v.dt, TraceObs{&o}); n = (long)steps;
        if (form) { REQUIRE_K("observations", (long)o.t.size() == n + 1 && o.t[0] == v.t0 && std::fabs(o.t.back() - t1) <= 1e-12 * (1 + std::fabs(v.t0)), n, " steps, observed at ", vstr(o.t)); REQUIRE_K("observed_states", maxdiff(o.x[0], v.x0) == 0 && maxdiff(o.x.back(), x) == 0, "the first or last observed state is not the initial or final one"); }
        double e = std::max(0.0, maxdiff(x, q.r.x[1]) - 1e-15 * (1 + std::fabs(v.t0)) * (4 + n) * q.r.G) / (1e-6 * (1 + q.r.xmax) * q.r.G); if (!(e < 1e300)) e = 1e300; r.push_back(e); many += n > 2; if (e > wr) { wr = e; w = describe(v); } }
    if (r.size() < 24) throw pbt::Discard(); std::sort(r.begin(), r.end()); size_t n = r.size(); std::string all = pbt::str(n, " problems, errors over (1e-6 x solution size x error growth): median ", r[n / 2], " 80% ", r[n * 8 / 10], " largest ", r.back(), " in ", w);
    REQUIRE_K("median_accuracy", r[n / 2] <= 0.4, all); REQUIRE_K("high_quantile_accuracy", r[n * 5 / 6] <= 3, all); REQUIRE_K("outliers", r[n - 3] <= 1e3, all); if (2 * many >= (int)n) src.nontrivial();
}
