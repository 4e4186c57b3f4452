// ublas system with Jacobian (central differences in long double) for the Rosenbrock and implicit steppers
#ifndef JSYS_HPP
#define JSYS_HPP
#include "prob.hpp"
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
typedef boost::numeric::ublas::vector<double> UV; typedef boost::numeric::ublas::matrix<double> UM;
inline Vec uv(const UV& v) { return Vec(v.begin(), v.end()); }
inline UV mk(const Vec& v) { UV r(v.size()); for (size_t i = 0; i < v.size(); ++i) r[i] = v[i]; return r; }
struct JF { std::shared_ptr<const Prob> p; void operator()(const UV& x, UV& dx, double t) const { rhs_tick(); p->eval<double>(x, dx, t); } };
struct JJ { std::shared_ptr<const Prob> p; 
    template <class M> void fill(const UV& x, M& J, double t) const { size_t n = x.size(); std::vector<LD> y(n), a(n), b(n); for (size_t i = 0; i < n; ++i) y[i] = x[i]; const LD h = 1e-6L; for (size_t k = 0; k < n; ++k) { LD s = y[k]; y[k] = s + h; p->eval<LD>(y, a, (LD)t); y[k] = s - h; p->eval<LD>(y, b, (LD)t); y[k] = s; for (size_t i = 0; i < n; ++i) J(i, k) = (double)((a[i] - b[i]) / (2 * h)); } }
    void operator()(const UV& x, UM& J, double t, UV& ft) const { fill(x, J, t); size_t n = x.size(); std::vector<LD> y(n), a(n), b(n); for (size_t i = 0; i < n; ++i) y[i] = x[i]; const LD h = 1e-6L; p->eval<LD>(y, a, (LD)t + h); p->eval<LD>(y, b, (LD)t - h); for (size_t i = 0; i < n; ++i) ft[i] = (double)((a[i] - b[i]) / (2 * h)); }
    void operator()(const UV& x, UM& J, double t) const { fill(x, J, t); } };
typedef std::pair<JF, JJ> JPair;
inline JPair jpair(const Prob& p) { auto q = std::make_shared<const Prob>(p); return JPair(JF{q}, JJ{q}); }
#endif
