// stand-in for Intel MKL's header (MKL is not in the sandbox): the reference BLAS of GSL has the same C interface
#include <gsl/gsl_cblas.h>
