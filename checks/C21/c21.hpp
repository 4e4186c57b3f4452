// Variable-step Adams reference: predictor / corrector weights by exact integration of the
// Lagrange basis on the actual past times (no divided-difference recurrences).
#ifndef C21_HPP
#define C21_HPP
#include "prob.hpp"
#include <array>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
namespace od = boost::numeric::odeint;
// weights w_i with  int_0^1 P(s) ds = sum w_i P(s_i)
inline std::vector<LD> quad_weights(const std::vector<LD>& nodes) {
    size_t n = nodes.size(); std::vector<LD> w(n);
    for (size_t i = 0; i < n; ++i) {
        std::vector<LD> c(1, 1.0L); LD den = 1;
        for (size_t j = 0; j < n; ++j) if (j != i) { std::vector<LD> q(c.size() + 1, 0); for (size_t m = 0; m < c.size(); ++m) { q[m + 1] += c[m]; q[m] -= c[m] * nodes[j]; } c = q; den *= nodes[i] - nodes[j]; }
        LD s = 0; for (size_t m = 0; m < c.size(); ++m) s += c[m] / (LD)(m + 1); w[i] = s / den;
    }
    return w;
}
struct Hist { std::vector<LD> t; std::vector<LVec> f; // newest first; entry 0 belongs to the current point
    void push(LD tt, const LVec& v) { t.insert(t.begin(), tt); f.insert(f.begin(), v); if (t.size() > 14) { t.pop_back(); f.pop_back(); } } void clear() { t.clear(); f.clear(); } };
inline LVec frhs(const Prob& p, const LVec& x, LD t) { LVec d(x.size()); p.eval<LD>(x, d, t); return d; }
struct Trial21 { LVec pred, out, err, fpred; LD scale = 0, noise = 0; };
inline Trial21 adams_trial(const Prob& p, const Hist& h, int eo, const Vec& x, double t, double dt) {
    Trial21 r; std::vector<LD> n; for (int i = 0; i < eo; ++i) n.push_back((h.t[i] - (LD)t) / (LD)dt); std::vector<LD> w = quad_weights(n); r.pred = toL(x); for (auto v : r.pred) r.scale = std::max(r.scale, std::fabs(v));
    LD amp = 0; for (int i = 0; i < eo; ++i) { for (size_t k = 0; k < x.size(); ++k) { LD q = (LD)dt * w[i] * h.f[i][k]; r.pred[k] += q; amp = std::max(amp, std::fabs(q)); } }
    r.fpred = frhs(p, r.pred, (LD)t + dt); n.insert(n.begin(), 1.0L); w = quad_weights(n); r.out = toL(x); r.err.assign(x.size(), 0);
    for (int i = 0; i <= eo; ++i) { const LVec& f = i ? h.f[i - 1] : r.fpred; for (size_t k = 0; k < x.size(); ++k) { LD q = (LD)dt * w[i] * f[k]; r.out[k] += q; amp = std::max(amp, std::fabs(q)); } }
    for (size_t k = 0; k < x.size(); ++k) r.err[k] = r.out[k] - r.pred[k];
    LD sw = 0; for (auto v : w) sw += std::fabs(v); LD fm = 0; for (auto& f : h.f) for (auto v : f) fm = std::max(fm, std::fabs(v)); // rounding inside the right-hand side, amplified by the weights
    // rounding: the divided differences carry cancellation errors of the order of the weighted derivatives
    LD fx = 0, ft = std::fabs((LD)t) * 3e-16L; for (auto v : r.fpred) fx = std::max(fx, std::fabs(v)); r.noise = 1e-13L * (r.scale + amp * (1 + eo)) + std::fabs((LD)dt) * fx * 1e-13L * (1 + eo) + ft * 20 * amp / std::max(1e-12L, std::fabs((LD)dt)) * 1e-3L + ft * std::fabs((LD)dt) * 20 + std::fabs((LD)dt) * sw * 1e-15L * (2 + 2 * r.scale + fm + std::fabs((LD)t)); return r;
}
#endif
