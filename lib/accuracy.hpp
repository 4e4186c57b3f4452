#ifndef ACCURACY_HPP
#define ACCURACY_HPP
#include "rec.hpp"
// Reference solution at a list of times plus an error amplification factor measured on the
// reference itself (two nearby solutions), used to turn a local tolerance into a bound.
struct RefTrace { std::vector<LVec> x; double G = 1, xmax = 0; bool ok = true; };
inline RefTrace ref_trace(const Prob& p, const Vec& x0, const std::vector<double>& ts, LD h = 0.04L) {
    RefTrace r; LVec a = toL(x0), b = a, c = a; const LD dl = 1e-7L; for (size_t i = 0; i < b.size(); ++i) { b[i] += dl; c[i] += (i % 2 ? dl : -dl) * (1 + (LD)i); }
    for (size_t k = 0; k < ts.size(); ++k) {
        if (k) { a = ref_solve(p, a, ts[k - 1], ts[k], h); b = ref_solve(p, b, ts[k - 1], ts[k], h * 2); c = ref_solve(p, c, ts[k - 1], ts[k], h * 2); }
        r.x.push_back(a); double m = 0; for (auto v : a) { m = std::max(m, (double)std::fabs(v)); if (!std::isfinite((double)v)) r.ok = false; } r.xmax = std::max(r.xmax, m);
        double g = std::max(maxdiff(a, b), maxdiff(a, c)) / 1e-7; r.G = std::max(r.G, g);
        if (r.xmax > 1e4 || !(r.G < 1e4)) { r.ok = false; break; }
    }
    return r;
}
// bound on the error of an adaptive run with tolerance eps on these problems: loose enough
// for the (inherent) chance agreement of an error estimate at a large step
inline double acc_tol(double eps) { return 3e3 * std::pow(eps, 0.85); }
#endif
