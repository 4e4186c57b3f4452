#include <deque>
#include "rep2.hpp"
#include <boost/numeric/odeint/external/gsl/gsl_wrapper.hpp>
// gsl_vector* states: the vectors handed to odeint belong to the harness and are freed after the case
inline std::vector<gsl_vector*>& gpool() { static std::vector<gsl_vector*> p; return p; }
inline std::deque<gsl_vector_view>& gviews() { static std::deque<gsl_vector_view> p; return p; }
struct RGsl : RVec { typedef gsl_vector *state, *deriv; static const char* name() { return "gsl_vector*"; }
    // one state in three is a strided view into a longer block: the elements of a gsl_vector need not be contiguous
    static state mk(const Vec& v) {
        size_t st = 1 + v.size() % 3; gsl_vector* b = gsl_vector_calloc(v.size() * st + 1); gpool().push_back(b);
        gviews().push_back(gsl_vector_subvector_with_stride(b, 1, st, v.size())); state g = &gviews().back().vector;
        for (size_t i = 0; i < v.size(); ++i) gsl_vector_set(g, i, v[i]);
        return g; }
    static Vec get(const gsl_vector* x) { Vec v(x->size); for (size_t i = 0; i < v.size(); ++i) v[i] = gsl_vector_get(x, i); return v; }
    static void put(gsl_vector* d, const Vec& v) { if (d->size != v.size()) pbt::fail("derivative_size", "gsl derivative not resized"); for (size_t i = 0; i < v.size(); ++i) gsl_vector_set(d, i, v[i]); } };
struct GClean { ~GClean() { for (auto* g : gpool()) gsl_vector_free(g); gpool().clear(); gviews().clear(); } };
template <class R> void allg(pbt::Src& s) { switch (s.raw(12)) {
    case 0: p12<f_euler, R>(s); break; case 1: p12<f_rk4, R>(s); break; case 2: p12<f_rk4c, R>(s); break; case 3: p12<f_ck, R>(s); break; case 4: p12<f_f78, R>(s); break; case 5: p12<f_mm, R>(s); break;
    case 6: p12<f_ex4, R>(s); break; case 7: p12<f_ab<4>, R>(s); break; case 8: p12<f_abm<3>, R>(s); break; case 9: p12<f_dp, R>(s); break; case 10: e12<f_ck, R>(s); break; default: e12<f_dp, R>(s); break; } }
SUITE(gsl_plain, 8000, 400000, C12_RULE) { GClean g; allg<RGsl>(src); }
