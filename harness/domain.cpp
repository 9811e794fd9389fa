/* Domain geometry shared by all magnetic fields. */
#include <cmath>
#include <cstdlib>
#include <softlib/config.h>
#include <softlib/SOFTLibException.h>
#include <softlib/MagneticField/MagneticField2D.h>
#include "sym.h"

struct MF : public MagneticField2D {
    MF(double ra, double za) { magnetic_axis[0] = ra; magnetic_axis[1] = za; }
    MF *Clone() override { return nullptr; }
    slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    struct magnetic_field_data &EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return magdata; }
    slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override { return 0; }
    struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    bool HasMagneticFlux() override { return false; }
};

struct pt { double r, z; };
/* do the closed segments ab and cd share a point? (one formula, no branches) */
static double cross(pt a, pt b, pt c) { return (b.r - a.r) * (c.z - a.z) - (b.z - a.z) * (c.r - a.r); }
static bool within(double a, double b, double x) { return ((a <= x) & (x <= b)) | ((b <= x) & (x <= a)); }
static bool on(pt a, pt b, double o, pt c) { return (o == 0) & within(a.r, b.r, c.r) & within(a.z, b.z, c.z); }
static bool opposite(double x, double y) { return ((x > 0) & (y < 0)) | ((x < 0) & (y > 0)); }
static bool meet(pt a, pt b, pt c, pt d) {
    double o1 = cross(a, b, c), o2 = cross(a, b, d), o3 = cross(c, d, a), o4 = cross(c, d, b);
    return (opposite(o1, o2) & opposite(o3, o4)) | on(a, b, o1, c) | on(a, b, o2, d) | on(c, d, o3, a) | on(c, d, o4, b);
}

/* Contours: the last point may or may not repeat the first */
static const double C0R[] = {1, 3, 3, 1, 1}, C0Z[] = {-1, -1, 1, 1, -1};
static const double C1R[] = {1, 2, 3.5}, C1Z[] = {-1, 2, -0.5};
static const double C2R[] = {1, 3, 3, 2, 1, 1}, C2Z[] = {-1, -1, 1, 0.25, 1, -1};
static const struct { unsigned n; const double *r, *z; } CONT[] = {{5, C0R, C0Z}, {3, C1R, C1Z}, {6, C2R, C2Z}};
#define NCONT 3
#ifndef PLANE
#define PLANE 0
#endif
#ifndef TL
#define TL 0
#endif
static const double DIRS[][2] = {{1, 0}, {0, -1}, {-0.6, 0.8}};

static unsigned setcontour(MF &mf, double *r, double *z, unsigned c) {
    unsigned n = CONT[c].n;
    for (unsigned i = 0; i < n; i++) { r[i] = CONT[c].r[i]; z[i] = CONT[c].z[i]; }
    mf.SetDomain(r, z, n);
    return n;
}
static bool expect(unsigned n, const double *r, const double *z, pt a, pt b) {
    bool x = false;
    for (unsigned i = 0; i < n; i++) {
        unsigned j = (i + 1) % n;
        x = x | meet(a, b, pt{r[i], z[i]}, pt{r[j], z[j]});
    }
    return x;
}
static void judge(MF &mf, unsigned n, const double *r, const double *z, pt a, pt b) {
    bool want = expect(n, r, z, a, b);
    if (mf.CrossesDomain(a.r, 0, a.z, b.r, 0, b.z)) {
        SYM_ASSERT(want, "a segment clear of the contour does not cross the domain");
        sym_reach("cross");
    } else {
        SYM_ASSERT(!want, "a segment which meets the contour crosses the domain");
        sym_reach("clear");
    }
}
static pt anypt(const char *r, const char *z) {
    pt a;
    a.r = sym_real(r); a.z = sym_real(z);
    sym_assume(a.r >= 0);
    return a;
}
/* contours of one tile, any segment */
extern "C" void h_crosstile() {
    static const double T[][4] = {{1, 1, 2, 1}, {2, 1, 2, -1}, {3, 2, 1, 1}};
    MF mf(1.5, 0);
    const double *t = T[sym_choice("tile", 3)];
    double r[2] = {t[0], t[2]}, z[2] = {t[1], t[3]};
    try { mf.SetDomain(r, z, 2); } catch (SOFTLibException &) {}
    pt a = anypt("ra", "za"), b = anypt("rb", "zb");
    judge(mf, 2, r, z, a, b);
}
/* whole contours, from given points to anywhere */
extern "C" void h_crosscontour() {
    static const double A[][2] = {{2, 0}, {1, 1}, {3, 0}, {0.5, 0}, {2, 1}};
    double r[8], z[8];
    MF mf(2, 0);
    unsigned n = setcontour(mf, r, z, sym_choice("contour", NCONT));
    const double *s = A[sym_choice("start", 5)];
    pt a = {s[0], s[1]}, b = anypt("rb", "zb");
    judge(mf, n, r, z, a, b);
}
/* any triangle, given segments */
extern "C" void h_crossmoved() {
    static const double S[][4] = {{2, 0, 3, 1}, {2, 0, 3, 0}, {2, 0, 2, 1.5}, {2, 1, 2, 1}};
    MF mf(2, 0);
    pt v = anypt("rv", "zv");
    double r[4] = {1, v.r, 3, 1}, z[4] = {-1, v.z, -0.5, -1};
    unsigned n = 3 + sym_choice("repeat", 2);
    sym_assume(v.z > 0);
    mf.SetDomain(r, z, n);
    const double *s = S[sym_choice("segment", 4)];
    judge(mf, n, r, z, pt{s[0], s[1]}, pt{s[2], s[3]});
}
/* only the distance from the symmetry axis matters, and all forms agree */
extern "C" void h_crossforms() {
    static const double DIRS[][2] = {{1, 0}, {0, -1}, {-0.6, 0.8}};
    double r[8], z[8];
    MF mf(2, 0);
    setcontour(mf, r, z, 0);
    const double *u = DIRS[sym_choice("dir1", 3)], *v = DIRS[sym_choice("dir2", 3)];
    pt b = anypt("rb", "zb");
    double p[3] = {2 * u[0], 2 * u[1], 0}, q[3] = {b.r * v[0], b.r * v[1], b.z};
    bool out = (b.r < 1) | (b.r > 3) | (b.z < -1) | (b.z > 1), in = (b.r > 1) & (b.r < 3) & (b.z > -1) & (b.z < 1);
    sym_assume(in | out);
    bool x = mf.CrossesDomain(p[0], p[1], p[2], q[0], q[1], q[2]);
    SYM_ASSERT(x == out, "a point is outside exactly if the line from the axis crosses the contour");
    SYM_ASSERT(mf.CrossesDomain(p, q) == x, "array and component forms agree");
    SYM_ASSERT(mf.CrossesDomain(q) == x, "a single point is judged from the magnetic axis");
    SYM_ASSERT(mf.CrossesDomain(q[0], q[1], q[2]) == x, "a single point is judged from the magnetic axis");
    sym_reach("end");
}

/* ---- lines of sight against the wall in three dimensions ---- */
/* does q(t)=a t^2+2 b t+c have a root in [lo,hi]? */
static bool root(double a, double b, double c, double lo, double hi) {
    double fl = (a * lo + 2 * b) * lo + c, fh = (a * hi + 2 * b) * hi + c;
    bool vertex = ((a > 0) & (-b >= a * lo) & (-b <= a * hi)) | ((a < 0) & (-b <= a * lo) & (-b >= a * hi));
    double d = b * b - a * c;
    return (fl == 0) | (fh == 0) | opposite(fl, fh) | (vertex & (d >= 0) & !opposite(a, fl));
}
/* the segment p0->p1 and the surface swept by the tile (r0,z0)-(r1,z1) */
static bool hits(const double *p0, const double *p1, double r0, double z0, double r1, double z1) {
    if (z0 == z1) {
        double dz = p1[2] - p0[2], t = (z0 - p0[2]) / dz;
        if (t < 0 || t > 1) return false;
        double x = p0[0] + (p1[0] - p0[0]) * t, y = p0[1] + (p1[1] - p0[1]) * t, R2 = x * x + y * y;
        double lo = r0 < r1 ? r0 : r1, hi = r0 < r1 ? r1 : r0;
        return (R2 >= lo * lo) & (R2 <= hi * hi);
    }
    /* r along the tile as a function of the position on the line */
    double k = (r1 - r0) / (z1 - z0), dz = p1[2] - p0[2], m = r0 + k * (p0[2] - z0), c = k * dz;
    double lo = 0, hi = 1, zl = z0 < z1 ? z0 : z1, zh = z0 < z1 ? z1 : z0;
    if (dz == 0) { if (p0[2] < zl || p0[2] > zh) return false; }
    else {
        double u = (zl - p0[2]) / dz, v = (zh - p0[2]) / dz;
        if (u > v) { double w = u; u = v; v = w; }
        if (u > lo) lo = u;
        if (v < hi) hi = v;
        if (lo > hi) return false;
    }
    double ax = p1[0] - p0[0], ay = p1[1] - p0[1];
    return root(ax * ax + ay * ay - c * c, ax * p0[0] + ay * p0[1] - c * m, p0[0] * p0[0] + p0[1] * p0[1] - m * m, lo, hi);
}
static const double TILE[][4] = {{2, -1, 2, 1}, {1, 1, 3, 1}, {1, -1, 3, 1}, {2, 1, 1.5, -1}};
static const double HEIGHT[][2] = {{0, 0.5}, {-2, 0}, {3, -3}, {0.25, 2}, {0, 0}, {1.5, 3}};
static const double END[][2] = {{0, 0}, {3, 0}, {-1, 1}};
extern "C" void h_sight() {
    unsigned w = TL;
    MF mf(1.5, 0);
    double r[2] = {TILE[w][0], TILE[w][2]}, z[2] = {TILE[w][1], TILE[w][3]};
    try { mf.SetDomain(r, z, 2); } catch (SOFTLibException &) {}
    unsigned h = sym_choice("height", 6), e = sym_choice("end", PLANE ? 2 : 3);
    double p0[3], p1[3] = {END[e][0], END[e][1], HEIGHT[h][1]};
    p0[2] = HEIGHT[h][0];
    if (PLANE) { p0[0] = sym_real("x"); p0[1] = sym_real("y"); }
    else {
        static const double L[][4] = {{0, 0.5, 1, 0}, {2.5, 0, 0, 1}, {1, -1, 0.5, 2}};
        const double *u = L[sym_choice("line", 3)];
        double l = sym_real("l");
        p0[0] = u[0] + l * u[2]; p0[1] = u[1] + l * u[3];
    }
    sym_assume((p0[2] != p1[2]) | (z[0] != z[1]));
    bool want = hits(p0, p1, r[0], z[0], r[1], z[1]);
    if (mf.IntersectsDomain3D(p0, p1)) {
        SYM_ASSERT(want, "a line of sight clear of the wall does not intersect it");
        sym_reach("hit");
    } else {
        SYM_ASSERT(!want, "a line of sight through the wall intersects it");
        sym_reach("clear");
    }
}
/* start at any height */
extern "C" void h_sightheight() {
    unsigned w = TL;
    MF mf(1.5, 0);
    double r[2] = {TILE[w][0], TILE[w][2]}, z[2] = {TILE[w][1], TILE[w][3]};
    try { mf.SetDomain(r, z, 2); } catch (SOFTLibException &) {}
    static const double P[][5] = {{0, 1.2, 2.5, 1.2, 0}, {3, 0, 1, 0, 0.5}, {-3, 1.2, 3, 1.2, -2}, {2, 0, 2.25, 0, 1.5}};
    const double *u = P[sym_choice("line", 4)];
    double p0[3] = {u[0], u[1], sym_real("z")}, p1[3] = {u[2], u[3], u[4]};
    sym_assume(p0[2] != p1[2]);
    bool want = hits(p0, p1, r[0], z[0], r[1], z[1]);
    if (mf.IntersectsDomain3D(p0[0], p0[1], p0[2], p1[0], p1[1], p1[2])) {
        SYM_ASSERT(want, "a line of sight clear of the wall does not intersect it");
        sym_reach("hit");
    } else {
        SYM_ASSERT(!want, "a line of sight through the wall intersects it");
        sym_reach("clear");
    }
}
/* whole contours: some tile is hit; the outer wall can be left out; both forms */
extern "C" void h_sightwall() {
    double r[8], z[8];
    double ra = 2;
    MF mf(ra, 0);
    unsigned n = setcontour(mf, r, z, sym_choice("contour", NCONT));
    static const double P[][5] = {{0, 0.5, 2.5, 0.5, 0}, {3.25, 0, 0.5, 0.75, 0.5}, {-3.5, 0.5, 3, 1, -0.25}, {2.25, 0, 2, 0.5, 3}};
    const double *u = P[sym_choice("line", 4)];
    double l = sym_real("l"), p0[3] = {u[0], u[1], u[4]}, p1[3] = {u[2] + l * 0.5, u[3] - l, u[4] + 0.75};
    bool outer = sym_choice("outer", 2);
    bool want = false;
    for (unsigned i = 0; i < n; i++) {
        unsigned j = (i + 1) % n;
        if (!outer && r[i] > ra && r[j] > ra) continue;
        if (r[i] == r[j] && z[i] == z[j]) continue;
        want = want | hits(p0, p1, r[i], z[i], r[j], z[j]);
    }
    bool got = mf.IntersectsDomain3D(p0[0], p0[1], p0[2], p1[0], p1[1], p1[2], outer);
    if (got) SYM_ASSERT(want, "a line of sight clear of the wall does not intersect it");
    else SYM_ASSERT(!want, "a line of sight through the wall intersects it");
    SYM_ASSERT(mf.IntersectsDomain3D(p0, p1, outer) == got, "array and component forms agree");
    sym_reach(got ? "hit" : "clear");
}

/* ---- extent of the domain ---- */
/* the contour meets the level: least and greatest coordinate there */
static void level(unsigned n, const double *x, const double *y, double a, bool &any, double &lo, double &hi) {
    any = false;
    for (unsigned i = 0; i < n; i++) {
        unsigned j = (i + 1) % n;
        double u, v;
        if (y[i] == y[j]) {
            if (y[i] != a) continue;
            u = x[i]; v = x[j];
        } else {
            double t = (a - y[i]) / (y[j] - y[i]);
            if (t < 0 || t > 1) continue;
            u = v = (1 - t) * x[i] + t * x[j];
        }
        if (!any || u < lo) lo = u;
        if (!any || u > hi) hi = u;
        any = true;
        if (v < lo) lo = v;
        if (v > hi) hi = v;
    }
}
/* given contours, any level */
extern "C" void h_extent() {
    double r[8], z[8];
    double a = sym_real("level");
    unsigned c = sym_choice("contour", NCONT), n = CONT[c].n;
    for (unsigned i = 0; i < n; i++) { r[i] = CONT[c].r[i]; z[i] = CONT[c].z[i]; }
    bool any;
    double lo = 0, hi = 0, x, y;
    if (sym_choice("what", 2)) {
        MF mf(2, a);
        level(n, r, z, a, any, lo, hi);
        { MF o(2, a); bool no = false; double m = 0; try { m = o.FindMinRadius(n, r, z); } catch (SOFTLibException &) { no = true; } SYM_ASSERT(no == !any, "a contour around the magnetic axis has a least radius"); if (any) SYM_EQ(m, lo, "minimum radius at the height of the axis"); }
        try {
            mf.SetDomain(r, z, n);
            SYM_ASSERT(any, "a domain which does not enclose the magnetic axis is refused");
            SYM_EQ(mf.GetMaxRadius(), hi, "maximum radius at the height of the axis");
            SYM_EQ(mf.GetMinRadius(), lo, "minimum radius at the height of the axis");
            SYM_EQ(mf.FindMaxRadius(n, r, z), hi, "maximum radius at the height of the axis");
            SYM_EQ(mf.FindMinRadius(n, r, z), lo, "minimum radius at the height of the axis");
            sym_reach("in");
        } catch (SOFTLibException &) {
            SYM_ASSERT(!any, "a domain around the magnetic axis is accepted");
            sym_reach("out");
        }
    } else {
        MF mf(2, 0);
        mf.SetDomain(r, z, n);
        level(n, z, r, a, any, lo, hi);
        try {
            mf.FindMaxZ(a, x, y);
            SYM_ASSERT(any, "a radius outside the domain is refused");
            SYM_EQ(x, lo, "lowest point at the given radius");
            SYM_EQ(y, hi, "highest point at the given radius");
            sym_reach("in");
        } catch (SOFTLibException &) {
            SYM_ASSERT(!any, "a radius inside the domain is accepted");
            sym_reach("out");
        }
    }
}
/* any contour of NV points */
#ifndef NV
#define NV 3
#endif
extern "C" void h_extentany() {
    double r[NV], z[NV];
    for (unsigned i = 0; i < NV; i++) { r[i] = sym_real("r"); z[i] = sym_real("z"); sym_assume(r[i] > 0); }
    MF mf(2, 0);
    bool any;
    double lo = 0, hi = 0;
    level(NV, r, z, 0, any, lo, hi);
    try {
        mf.SetDomain(r, z, NV);
        SYM_ASSERT(any, "a domain which does not enclose the magnetic axis is refused");
        SYM_EQ(mf.GetMaxRadius(), hi, "maximum radius at the height of the axis");
        SYM_EQ(mf.GetMinRadius(), lo, "minimum radius at the height of the axis");
        sym_reach("in");
    } catch (SOFTLibException &) {
        SYM_ASSERT(!any, "a domain around the magnetic axis is accepted");
        sym_reach("out");
    }
}
/* bounding box of any contour around the axis; a new domain replaces the old one */
extern "C" void h_bounds() {
    double r[5] = {1.5, 2.5, 2.5, 1.5, 1.5}, z[5] = {-0.5, -0.5, 0.5, 0.5, -0.5}, r2[NV + 1], z2[NV + 1], b[4];
    MF mf(2, 0);
    if (sym_choice("first", 2)) {
        mf.SetDomain(r, z, 5);
        mf.GetDomainBounds(b[0], b[1], b[2], b[3]);
        SYM_ASSERT(b[0] == 1.5 && b[1] == 2.5 && b[2] == -0.5 && b[3] == 0.5, "bounds are those of the contour");
    }
    double lr = 2, hr = 2, lz = 0, hz = 0;
    for (unsigned i = 0; i < NV; i++) {
        r2[i] = sym_real("r"); z2[i] = sym_real("z");
        sym_assume(r2[i] > 0);
        if (r2[i] < lr) lr = r2[i];
        if (r2[i] > hr) hr = r2[i];
        if (z2[i] < lz) lz = z2[i];
        if (z2[i] > hz) hz = z2[i];
    }
    sym_assume(lr < 2); sym_assume(hr > 2); sym_assume(lz < 0); sym_assume(hz > 0);
    r2[NV] = r2[0]; z2[NV] = z2[0];
    mf.SetDomain(r2, z2, NV + 1);
    for (int k = 0; k < 2; k++) {
        mf.GetDomainBounds(b[0], b[1], b[2], b[3]);
        SYM_ASSERT(b[0] == lr && b[1] == hr && b[2] == lz && b[3] == hz, "bounds are those of the contour");
    }
    SYM_ASSERT(mf.GetRDomain() == r2 && mf.GetZDomain() == z2 && mf.GetNDomain() == NV + 1, "the domain handed in is the domain handed out");
    mf.SetSeparatrix(r, z, 5);
    SYM_ASSERT(mf.GetRSeparatrix() == r && mf.GetZSeparatrix() == z && mf.GetNSeparatrix() == 5, "the separatrix handed in is handed out");
    mf.SetSeparatrix(nullptr, nullptr, 5);
    SYM_ASSERT(mf.GetNSeparatrix() == 0, "no separatrix has no points");
    SYM_ASSERT(mf.GetMagneticAxis()[0] == 2 && mf.GetMagneticAxis()[1] == 0 && mf.GetMagneticAxisR() == 2 && mf.GetMagneticAxisZ() == 0, "position of the axis");
    sym_reach("end");
}

/* ---- contours of many points ---- */
#define BIG 25
static unsigned bigcontour(double *r, double *z, bool repeat) {
    /* once around, at distances which vary: concave, no tile along a coordinate */
    static const double C[24] = {1, 0.96, 0.86, 0.7, 0.5, 0.26, 0, -0.26, -0.5, -0.7, -0.86, -0.96, -1, -0.96, -0.86, -0.7, -0.5, -0.26, 0, 0.26, 0.5, 0.7, 0.86, 0.96};
    for (unsigned i = 0; i < 24; i++) { double q = i % 3 ? 1 : 1.25; r[i] = 2 + q * C[i]; z[i] = q * C[(i + 18) % 24]; }
    r[24] = r[0]; z[24] = z[0];
    return repeat ? 25 : 24;
}
extern "C" void h_crossbig() {
    double r[BIG], z[BIG];
    MF mf(2, 0);
    unsigned n = bigcontour(r, z, sym_choice("repeat", 2));
    mf.SetDomain(r, z, n);
    static const double L[][2] = {{1, 0.125}, {-0.5, 1}, {-1, -0.375}, {0.25, -1}};
    const double *u = L[sym_choice("line", 4)];
    double l = sym_real_in("l", 0, 1.9);
    judge(mf, n, r, z, pt{2, 0}, pt{2 + l * u[0], l * u[1]});
}
extern "C" void h_sightbig() {
    double r[BIG], z[BIG];
    MF mf(2, 0);
    unsigned n = bigcontour(r, z, sym_choice("repeat", 2));
    mf.SetDomain(r, z, n);
    static const double L[][5] = {{2, 0, 0, 1, 0.3}, {2, 0, 0, -0.2, 1}, {2, 0, 0, 0.1, -1}, {2, 0.5, -0.25, -1, 0.25}};
    const double *u = L[sym_choice("line", 4)];
    double l = sym_real_in("l", 0, 3), p0[3] = {u[0], u[1], u[2]}, p1[3] = {u[0] + l * u[3], u[1] + l * 0.25, u[2] + l * u[4]};
    sym_assume(l > 0);
    bool want = false;
    for (unsigned i = 0; i < n; i++) { unsigned j = (i + 1) % n; if (r[i] == r[j] && z[i] == z[j]) continue; want = want | hits(p0, p1, r[i], z[i], r[j], z[j]); }
    bool got = mf.IntersectsDomain3D(p0, p1, true);
    if (got) SYM_ASSERT(want, "a line of sight clear of the wall does not intersect it"); else SYM_ASSERT(!want, "a line of sight through the wall intersects it");
    sym_reach(got ? "hit" : "clear");
}
extern "C" void h_extentbig() {
    double r[BIG], z[BIG], a = sym_real("level"), lo = 0, hi = 0, x, y;
    unsigned n = bigcontour(r, z, sym_choice("repeat", 2));
    MF mf(2, 0);
    mf.SetDomain(r, z, n);
    double b[4], e[4] = {r[0], r[0], z[0], z[0]};
    for (unsigned i = 1; i < n; i++) { if (r[i] < e[0]) e[0] = r[i]; if (r[i] > e[1]) e[1] = r[i]; if (z[i] < e[2]) e[2] = z[i]; if (z[i] > e[3]) e[3] = z[i]; }
    mf.GetDomainBounds(b[0], b[1], b[2], b[3]);
    for (unsigned i = 0; i < 4; i++) SYM_EQ(b[i], e[i], "bounds are those of the contour");
    bool any;
    level(n, r, z, 0, any, lo, hi);
    SYM_EQ(mf.GetMaxRadius(), hi, "maximum radius at the height of the axis"); SYM_EQ(mf.GetMinRadius(), lo, "minimum radius at the height of the axis");
    level(n, z, r, a, any, lo, hi);
    bool no = false;
    try { mf.FindMaxZ(a, x, y); } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(no == !any, "exactly the radii outside the domain are refused");
    if (!no) { SYM_EQ(x, lo, "lowest point at the given radius"); SYM_EQ(y, hi, "highest point at the given radius"); }
    sym_reach(no ? "out" : "in");
}
