/* Minimal stand-in for GSL's error API (GSL itself is not installed offline). */
#pragma once
#include <stddef.h>
enum { GSL_SUCCESS = 0, GSL_FAILURE = -1, GSL_EDOM = 1, GSL_EINVAL = 4, GSL_ENOMEM = 8,
       GSL_EMAXITER = 11, GSL_EBADTOL = 13, GSL_EROUND = 18, GSL_ESING = 21, GSL_EDIVERGE = 22 };
typedef void gsl_error_handler_t(const char *reason, const char *file, int line, int gsl_errno);
static inline gsl_error_handler_t *gsl_set_error_handler_off(void) { return 0; }
static inline const char *gsl_strerror(int e) {
    switch (e) {
        case GSL_SUCCESS: return "success";
        case GSL_EINVAL: return "invalid argument supplied by user";
        case GSL_EMAXITER: return "exceeded max number of iterations";
        case GSL_EBADTOL: return "user specified an invalid tolerance";
        case GSL_EROUND: return "failed because of roundoff error";
        case GSL_ESING: return "apparent singularity detected";
        default: return "unknown error code";
    }
}
