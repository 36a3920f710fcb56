/* compiled without -ffast-math, as the real GSL library is */
#include <gsl/gsl_integration.h>

gsl_integration_workspace *gsl_integration_workspace_alloc(size_t n) {
    gsl_integration_workspace *w = (gsl_integration_workspace *) calloc(1, sizeof *w);
    w->limit = n;
    return w;
}
void gsl_integration_workspace_free(gsl_integration_workspace *w) {
    if (!w) return;
    free(w->alist); free(w->blist); free(w->rlist); free(w->elist); free(w);
}

static double pb_rescale_error(double err, double result_abs, double result_asc) {
    err = fabs(err);
    if (result_asc != 0 && err != 0) {
        double scale = pow(200 * err / result_asc, 1.5);
        err = scale < 1 ? result_asc * scale : result_asc;
    }
    if (result_abs > DBL_MIN / (50 * DBL_EPSILON)) {
        double min_err = 50 * DBL_EPSILON * result_abs;
        if (min_err > err) err = min_err;
    }
    return err;
}

static void pb_qk15(const gsl_function *f, double a, double b, double *result, double *abserr,
                           double *resabs, double *resasc) {
    static const double xgk[8] = {
        0.991455371120812639206854697526329, 0.949107912342758524526189684047851,
        0.864864423359769072789712788640926, 0.741531185599394439863864773280788,
        0.586087235467691130294144838258730, 0.405845151377397166906606412076961,
        0.207784955007898467600689403773245, 0.};
    static const double wg[4] = {
        0.129484966168869693270611432679082, 0.279705391489276667901467771423780,
        0.381830050505118944950369775488975, 0.417959183673469387755102040816327};
    static const double wgk[8] = {
        0.022935322010529224963732008058970, 0.063092092629978553290700663189204,
        0.104790010322250183839876322541518, 0.140653259715525918745189590510238,
        0.169004726639267902826583426598550, 0.190350578064785409913256402421014,
        0.204432940075298892414161999234649, 0.209482141084727828012999174891714};
    double fv1[8], fv2[8];
    const double c = 0.5 * (a + b), h = 0.5 * (b - a), ah = fabs(h);
    const double fc = GSL_FN_EVAL(f, c);
    double rg = fc * wg[3], rk = fc * wgk[7], ra = fabs(rk);
    for (int j = 0; j < 7; ++j) {
        const double d = h * xgk[j];
        fv1[j] = GSL_FN_EVAL(f, c - d);
        fv2[j] = GSL_FN_EVAL(f, c + d);
        const double s = fv1[j] + fv2[j];
        if (j % 2 == 1) rg += wg[j / 2] * s;
        rk += wgk[j] * s;
        ra += wgk[j] * (fabs(fv1[j]) + fabs(fv2[j]));
    }
    const double mean = rk * 0.5;
    double asc = wgk[7] * fabs(fc - mean);
    for (int j = 0; j < 7; ++j) asc += wgk[j] * (fabs(fv1[j] - mean) + fabs(fv2[j] - mean));
    *result = rk * h;
    *resabs = ra * ah;
    *resasc = asc * ah;
    *abserr = pb_rescale_error((rk - rg) * h, *resabs, *resasc);
}

static void pb_ws_push(gsl_integration_workspace *w, double a, double b, double r, double e) {
    if (w->size == w->cap) {
        w->cap = w->cap ? 2 * w->cap : 64;
        w->alist = (double *) realloc(w->alist, w->cap * sizeof(double));
        w->blist = (double *) realloc(w->blist, w->cap * sizeof(double));
        w->rlist = (double *) realloc(w->rlist, w->cap * sizeof(double));
        w->elist = (double *) realloc(w->elist, w->cap * sizeof(double));
    }
    w->alist[w->size] = a; w->blist[w->size] = b; w->rlist[w->size] = r; w->elist[w->size] = e;
    w->size++;
}

int gsl_integration_qag(const gsl_function *f, double a, double b, double epsabs, double epsrel,
                                      size_t limit, int key, gsl_integration_workspace *w,
                                      double *result, double *abserr) {
    (void) key;
    double area, errsum, resabs, resasc, tol, r0, e0;
    int roundoff1 = 0, roundoff2 = 0, error_type = 0;
    size_t iter = 0;
    *result = 0; *abserr = 0;
    w->size = 0;
    if (limit > w->limit) return GSL_EINVAL;
    if (epsabs <= 0 && (epsrel < 50 * DBL_EPSILON || epsrel < 0.5e-28)) return GSL_EBADTOL;
    pb_qk15(f, a, b, &r0, &e0, &resabs, &resasc);
    pb_ws_push(w, a, b, r0, e0);
    tol = fmax(epsabs, epsrel * fabs(r0));
    const double round_off = 50 * DBL_EPSILON * resabs;
    if (e0 <= round_off && e0 > tol) { *result = r0; *abserr = e0; return GSL_EROUND; }
    if ((e0 <= tol && e0 != resasc) || e0 == 0.0) { *result = r0; *abserr = e0; return GSL_SUCCESS; }
    if (limit == 1) { *result = r0; *abserr = e0; return GSL_EMAXITER; }
    area = r0; errsum = e0; iter = 1;
    do {
        size_t k = 0;
        for (size_t i = 1; i < w->size; ++i) if (w->elist[i] > w->elist[k]) k = i;
        const double a1 = w->alist[k], b2 = w->blist[k], b1 = 0.5 * (a1 + b2), a2 = b1;
        const double r_i = w->rlist[k], e_i = w->elist[k];
        double ar1, ar2, er1, er2, ra1, ra2, as1, as2;
        pb_qk15(f, a1, b1, &ar1, &er1, &ra1, &as1);
        pb_qk15(f, a2, b2, &ar2, &er2, &ra2, &as2);
        const double ar12 = ar1 + ar2, er12 = er1 + er2;
        errsum += er12 - e_i;
        area += ar12 - r_i;
        if (as1 != er1 && as2 != er2) {
            const double delta = r_i - ar12;
            if (fabs(delta) <= 1.0e-5 * fabs(ar12) && er12 >= 0.99 * e_i) roundoff1++;
            if (iter >= 10 && er12 > e_i) roundoff2++;
        }
        tol = fmax(epsabs, epsrel * fabs(area));
        if (errsum > tol) {
            if (roundoff1 >= 6 || roundoff2 >= 20) error_type = 2;
            const double tmp = (1 + 100 * DBL_EPSILON) * (fabs(a2) + 1000 * DBL_MIN);
            if (fabs(a1) <= tmp && fabs(b2) <= tmp) error_type = 3;
        }
        w->alist[k] = a1; w->blist[k] = b1; w->rlist[k] = ar1; w->elist[k] = er1;
        pb_ws_push(w, a2, b2, ar2, er2);
        iter++;
    } while (iter < limit && !error_type && errsum > tol);
    double sum = 0;
    for (size_t i = 0; i < w->size; ++i) sum += w->rlist[i];
    *result = sum; *abserr = errsum;
    if (errsum <= tol) return GSL_SUCCESS;
    if (error_type == 2) return GSL_EROUND;
    if (error_type == 3) return GSL_ESING;
    if (iter == limit) return GSL_EMAXITER;
    return GSL_FAILURE;
}
