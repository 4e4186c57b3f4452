// the MKL operations (vector-space algebra on std::vector), with the BLAS of GSL in MKL's place
#include "c12.hpp"
#include "mkl/mkl_cblas.h"
#include <boost/numeric/odeint/external/mkl/mkl_operations.hpp>
struct RMkl : RVec { static const bool vs = true; static const char* name() { return "std::vector with mkl_operations"; } };
template <class R> using MAlg = typename std::conditional<std::is_same<R, RMkl>::value, od::vector_space_algebra, od::range_algebra>::type;
template <class R> using MOps = typename std::conditional<std::is_same<R, RMkl>::value, od::mkl_operations, od::default_operations>::type;
#define MFAM(NAME, TPL) struct NAME { template <class R> using T = od::TPL<Vec, double, Vec, double, MAlg<R>, MOps<R>>; };
MFAM(m_euler, euler) MFAM(m_rk4, runge_kutta4) MFAM(m_rk4c, runge_kutta4_classic)
template <size_t N> struct m_ab { template <class R> using T = od::adams_bashforth<N, Vec, double, Vec, double, MAlg<R>, MOps<R>, od::initially_resizer, od::runge_kutta4<Vec, double, Vec, double, MAlg<R>, MOps<R>>>; };
SUITE(mkl_plain, 5000, 400000, C12_RULE) { switch (src.raw(6)) { case 0: p12<m_euler, RMkl>(src); break; case 1: p12<m_rk4, RMkl>(src); break; case 2: p12<m_rk4c, RMkl>(src); break; case 3: p12<m_ab<2>, RMkl>(src); break; case 4: p12<m_ab<3>, RMkl>(src); break; default: p12<m_ab<4>, RMkl>(src); } }
