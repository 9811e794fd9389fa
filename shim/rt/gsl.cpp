/* Model of the interpolation routines of GSL.
 *
 * Linear and bilinear interpolation are what GSL computes.  The cubic kinds are
 * modelled by linear interpolation as well: natural splines reproduce the values
 * at the nodes, and (bi)linear data everywhere, so that harnesses which use them
 * keep to such points or data, and replays against the real library agree.
 * As in GSL, a misuse (unsorted nodes, wrong sizes, a point outside) aborts. */
#include <cstddef>
#include <cstdlib>
#include <gsl/gsl_interp.h>
#include <gsl/gsl_interp2d.h>
#include <gsl/gsl_spline2d.h>

extern "C" {
static gsl_interp_type lin, csp;
static gsl_interp2d_type bil, bic;
const gsl_interp_type *gsl_interp_linear = &lin, *gsl_interp_polynomial = &csp, *gsl_interp_cspline = &csp, *gsl_interp_cspline_periodic = &csp,
                      *gsl_interp_akima = &csp, *gsl_interp_akima_periodic = &csp, *gsl_interp_steffen = &csp;
const gsl_interp2d_type *gsl_interp2d_bilinear = &bil, *gsl_interp2d_bicubic = &bic;

static void fail() { abort(); }
static void touch(gsl_interp_accel *a) { if (a) a->hit_count++; }
gsl_interp_accel *gsl_interp_accel_alloc(void) {
    gsl_interp_accel *a = (gsl_interp_accel *)malloc(sizeof *a);
    a->cache = a->hit_count = a->miss_count = 0;
    return a;
}
void gsl_interp_accel_free(gsl_interp_accel *a) { free(a); }
static void sorted(const double *x, size_t n) { for (size_t i = 1; i < n; i++) if (!(x[i - 1] < x[i])) fail(); }
static size_t cell(const double *x, size_t n, double v) {
    size_t i = 0;
    while (i + 2 < n && v >= x[i + 1]) i++;
    return i;
}
static void inside(const double *x, size_t n, double v) { if (v < x[0] || v > x[n - 1]) fail(); }

gsl_interp *gsl_interp_alloc(const gsl_interp_type *T, size_t n) {
    if (n < (T == &lin ? 2u : 3u)) fail();
    gsl_interp *o = (gsl_interp *)malloc(sizeof *o);
    o->type = T; o->size = n; o->state = malloc(n * sizeof(double));
    return o;
}
int gsl_interp_init(gsl_interp *o, const double *x, const double *y, size_t n) {
    if (n != o->size) fail();
    sorted(x, n);
    double *c = (double *)o->state;     /* the data the splines were made from */
    for (size_t i = 0; i < n; i++) c[i] = y[i];
    o->xmin = x[0]; o->xmax = x[n - 1];
    return 0;
}
double gsl_interp_eval(const gsl_interp *o, const double *x, const double *y, double v, gsl_interp_accel *a) {
    touch(a);
    if (v < o->xmin || v > o->xmax) fail();
    size_t n = o->size, i = cell(x, n, v);
    return y[i] + (v - x[i]) / (x[i + 1] - x[i]) * (y[i + 1] - y[i]);
}
void gsl_interp_free(gsl_interp *o) { if (o) { free(o->state); free(o); } }

gsl_interp2d *gsl_interp2d_alloc(const gsl_interp2d_type *T, size_t nx, size_t ny) {
    if (nx < 2 || ny < 2) fail();
    gsl_interp2d *o = (gsl_interp2d *)malloc(sizeof *o);
    o->type = T; o->xsize = nx; o->ysize = ny; o->state = NULL;
    return o;
}
int gsl_interp2d_init(gsl_interp2d *o, const double *x, const double *y, const double *z, size_t nx, size_t ny) {
    if (nx != o->xsize || ny != o->ysize) fail();
    if (o->type == &bic && (nx < 3 || ny < 3)) fail();
    sorted(x, nx); sorted(y, ny);
    o->xmin = x[0]; o->xmax = x[nx - 1]; o->ymin = y[0]; o->ymax = y[ny - 1];
    for (size_t i = 0; i < nx * ny; i++) { volatile double v = z[i]; (void)v; }
    return 0;
}
void gsl_interp2d_free(gsl_interp2d *o) { free(o); }
struct C { double x0, dx, y0, dy, a, b, c, d; };
static C at(const double *x, const double *y, const double *z, size_t nx, size_t ny, double u, double v) {
    size_t i = cell(x, nx, u), j = cell(y, ny, v);
    C c = {x[i], x[i + 1] - x[i], y[j], y[j + 1] - y[j], z[j * nx + i], z[j * nx + i + 1], z[(j + 1) * nx + i], z[(j + 1) * nx + i + 1]};
    return c;
}
static double value(const C &c, double u, double v) {
    double t = (u - c.x0) / c.dx, s = (v - c.y0) / c.dy;
    return (1 - t) * (1 - s) * c.a + t * (1 - s) * c.b + (1 - t) * s * c.c + t * s * c.d;
}
static double dx(const C &c, double u, double v) { double s = (v - c.y0) / c.dy; return ((1 - s) * (c.b - c.a) + s * (c.d - c.c)) / c.dx; }
static double dy(const C &c, double u, double v) { double t = (u - c.x0) / c.dx; return ((1 - t) * (c.c - c.a) + t * (c.d - c.b)) / c.dy; }
static void range(const gsl_interp2d *o, double u, double v) { if (u < o->xmin || u > o->xmax || v < o->ymin || v > o->ymax) fail(); }
double gsl_interp2d_eval(const gsl_interp2d *o, const double *x, const double *y, const double *z, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) {
    touch(xa); touch(ya); range(o, u, v);
    return value(at(x, y, z, o->xsize, o->ysize, u, v), u, v);
}
double gsl_interp2d_eval_extrap(const gsl_interp2d *o, const double *x, const double *y, const double *z, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) {
    touch(xa); touch(ya);
    return value(at(x, y, z, o->xsize, o->ysize, u, v), u, v);
}
double gsl_interp2d_eval_deriv_x(const gsl_interp2d *o, const double *x, const double *y, const double *z, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) {
    touch(xa); touch(ya); range(o, u, v);
    return dx(at(x, y, z, o->xsize, o->ysize, u, v), u, v);
}
double gsl_interp2d_eval_deriv_y(const gsl_interp2d *o, const double *x, const double *y, const double *z, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) {
    touch(xa); touch(ya); range(o, u, v);
    return dy(at(x, y, z, o->xsize, o->ysize, u, v), u, v);
}

gsl_spline2d *gsl_spline2d_alloc(const gsl_interp2d_type *T, size_t nx, size_t ny) {
    gsl_spline2d *s = (gsl_spline2d *)malloc(sizeof *s);
    gsl_interp2d *o = gsl_interp2d_alloc(T, nx, ny);
    s->interp_object = *o; free(o);
    s->xarr = (double *)malloc(nx * sizeof(double)); s->yarr = (double *)malloc(ny * sizeof(double)); s->zarr = (double *)malloc(nx * ny * sizeof(double));
    return s;
}
int gsl_spline2d_init(gsl_spline2d *s, const double *x, const double *y, const double *z, size_t nx, size_t ny) {
    gsl_interp2d_init(&s->interp_object, x, y, z, nx, ny);
    for (size_t i = 0; i < nx; i++) s->xarr[i] = x[i];
    for (size_t i = 0; i < ny; i++) s->yarr[i] = y[i];
    for (size_t i = 0; i < nx * ny; i++) s->zarr[i] = z[i];
    return 0;
}
double gsl_spline2d_eval(const gsl_spline2d *s, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) { return gsl_interp2d_eval(&s->interp_object, s->xarr, s->yarr, s->zarr, u, v, xa, ya); }
double gsl_spline2d_eval_deriv_x(const gsl_spline2d *s, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) { return gsl_interp2d_eval_deriv_x(&s->interp_object, s->xarr, s->yarr, s->zarr, u, v, xa, ya); }
double gsl_spline2d_eval_deriv_y(const gsl_spline2d *s, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya) { return gsl_interp2d_eval_deriv_y(&s->interp_object, s->xarr, s->yarr, s->zarr, u, v, xa, ya); }
int gsl_interp_accel_reset(gsl_interp_accel *a) { a->cache = a->hit_count = a->miss_count = 0; return 0; }
int gsl_interp_eval_e(const gsl_interp *o, const double *x, const double *y, double v, gsl_interp_accel *a, double *r) { if (v < o->xmin || v > o->xmax) { *r = __builtin_nan(""); return 1; } *r = gsl_interp_eval(o, x, y, v, a); return 0; }
int gsl_interp2d_eval_e(const gsl_interp2d *o, const double *x, const double *y, const double *z, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya, double *r) { *r = gsl_interp2d_eval(o, x, y, z, u, v, xa, ya); return 0; }
int gsl_interp2d_eval_e_extrap(const gsl_interp2d *o, const double *x, const double *y, const double *z, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya, double *r) { *r = gsl_interp2d_eval_extrap(o, x, y, z, u, v, xa, ya); return 0; }
int gsl_spline2d_eval_e(const gsl_spline2d *s, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya, double *r) { *r = gsl_spline2d_eval(s, u, v, xa, ya); return 0; }
int gsl_spline2d_eval_deriv_x_e(const gsl_spline2d *s, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya, double *r) { *r = gsl_spline2d_eval_deriv_x(s, u, v, xa, ya); return 0; }
int gsl_spline2d_eval_deriv_y_e(const gsl_spline2d *s, double u, double v, gsl_interp_accel *xa, gsl_interp_accel *ya, double *r) { *r = gsl_spline2d_eval_deriv_y(s, u, v, xa, ya); return 0; }
void gsl_spline2d_free(gsl_spline2d *s) { if (s) { free(s->xarr); free(s->yarr); free(s->zarr); free(s); } }
}
