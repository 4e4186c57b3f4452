#include "c12.hpp"
// multi_array states in Fortran (first index fastest) storage order
struct RFortran : RVec { typedef boost::multi_array<double, 2> state, deriv; static const char* name() { return "multi_array in Fortran order"; } static int dim(pbt::Src& s) { return 2 * (int)s.i(1, 4); }
    static state mk(const Vec& v) { state a(boost::extents[2][v.size() / 2], boost::fortran_storage_order()); for (size_t k = 0; k < v.size(); ++k) a[k % 2][k / 2] = v[k]; return a; } static state mkd(const Vec& v) { return mk(v); }
    static Vec get(const state& x) { Vec v(x.num_elements()); for (size_t k = 0; k < v.size(); ++k) v[k] = x[k % 2][k / 2]; return v; }
    static void put(deriv& d, const Vec& v) { if (d.shape()[0] != 2 || d.shape()[1] * 2 != v.size()) pbt::fail("derivative_size", "multi_array derivative not resized"); for (size_t k = 0; k < v.size(); ++k) d[k % 2][k / 2] = v[k]; } };
SUITE(multi_array_fortran, 2000, 50000, C12_RULE) { switch (src.raw(4)) { case 0: p12<f_euler, RFortran>(src); break; case 1: p12<f_rk4, RFortran>(src); break; case 2: p12<f_dp, RFortran>(src); break; default: p12<f_ab<3>, RFortran>(src); } }
