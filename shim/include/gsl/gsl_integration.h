/* Adaptive Gauss-Kronrod quadrature with the contract of gsl_integration_qag (QUADPACK QAG).
 * Every rule key is served by the 15-point rule; the error estimate, the acceptance test, the
 * bisection of the worst interval and the failure codes follow the published QUADPACK algorithm. */
#pragma once
#include <math.h>
#include <float.h>
#include <stdlib.h>
#include <stddef.h>
#include "gsl_errno.h"

enum { GSL_INTEG_GAUSS15 = 1, GSL_INTEG_GAUSS21 = 2, GSL_INTEG_GAUSS31 = 3, GSL_INTEG_GAUSS41 = 4,
       GSL_INTEG_GAUSS51 = 5, GSL_INTEG_GAUSS61 = 6 };

typedef struct gsl_function_struct { double (*function)(double x, void *params); void *params; } gsl_function;
#define GSL_FN_EVAL(F, x) (*((F)->function))(x, (F)->params)

typedef struct {
    size_t limit, size;
    size_t cap;
    double *alist, *blist, *rlist, *elist;
} gsl_integration_workspace;

#ifdef __cplusplus
extern "C" {
#endif
gsl_integration_workspace *gsl_integration_workspace_alloc(size_t n);
void gsl_integration_workspace_free(gsl_integration_workspace *w);
int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                        size_t limit, int key, gsl_integration_workspace *w,
                        double *result, double *abserr);
#ifdef __cplusplus
}
#endif
