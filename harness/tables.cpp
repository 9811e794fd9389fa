/* Distributions given by tables, and the files they come in. */
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <softlib/config.h>
#include <softlib/constants.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <softlib/MagneticField/MagneticField2D.h>
#include <softlib/DistributionFunction/NumericDistributionFunction.h>
#include <softlib/DistributionFunction/NumericMomentumSpaceDistributionFunction.h>
#include "sym.h"
#include "clock.h"
using std::string;
extern "C" struct tm *localtime(const time_t *) { static struct tm t; memset(&t, 0, sizeof t); t.tm_mday = 3; t.tm_year = 118; return &t; }
extern "C" struct tm *localtime_r(const time_t *p, struct tm *r) { *r = *localtime(p); return r; }

typedef NumericMomentumSpaceDistributionFunction MS;
typedef NumericDistributionFunction ND;
#define LIN ((int)MS::INTERPOLATION_LINEAR)
#define CUB ((int)MS::INTERPOLATION_CUBIC)
#define NP 3
#define NX 3
static double *copy(const double *a, unsigned n) { double *r = new double[n]; for (unsigned i = 0; i < n; i++) r[i] = a[i]; return r; }
/* piecewise bilinear interpolation, zero outside */
static double interp(const double *P, unsigned np, const double *X, unsigned nx, const double *f, double p, double x, bool lg) {
    if ((p < P[0]) | (p > P[np - 1]) | (x < X[0]) | (x > X[nx - 1])) return 0;
    unsigned i = 0, j = 0;
    for (unsigned k = 1; k + 1 < np; k++) if (p >= P[k]) i = k;
    for (unsigned k = 1; k + 1 < nx; k++) if (x >= X[k]) j = k;
    double t = (p - P[i]) / (P[i + 1] - P[i]), s = (x - X[j]) / (X[j + 1] - X[j]);
    double a = f[j * np + i], b = f[j * np + i + 1], c = f[(j + 1) * np + i], d = f[(j + 1) * np + i + 1];
    if (lg) { a = log(a); b = log(b); c = log(c); d = log(d); }
    double v = (1 - t) * (1 - s) * a + t * (1 - s) * b + (1 - t) * s * c + t * s * d;
    return lg ? exp(v) : v;
}
static const double PG[2][NP] = {{1, 2.5, 4}, {0, 0.5, 3}}, XG[2][NX] = {{-0.5, 0.25, 1}, {-1, 0.5, 0.75}};

/* any table, any point */
extern "C" void h_ms() {
    unsigned g = sym_choice("grid", 2);
    const double *P = PG[g], *X = XG[g];
    double f[NP * NX], p = sym_real("p"), x = sym_real("xi");
    for (unsigned i = 0; i < NP * NX; i++) f[i] = sym_real("f");
    MS m; m.Initialize(NP, NX, copy(P, NP), copy(X, NX), copy(f, NP * NX));
    double v = m.Eval(p, x);
    bool out = (p < P[0]) | (p > P[NP - 1]) | (x < X[0]) | (x > X[NX - 1]);
    SYM_EQ(v, interp(P, NP, X, NX, f, p, x, false), out ? "the distribution vanishes outside its table" : "the distribution interpolates its table");
    SYM_EQ(m.Eval(sym_real("r"), p, x, sym_real("shift")), v, "a momentum distribution does not depend on the radius");
    MS *c = m.MinClone();
    SYM_EQ(c->Eval(p, x), v, "a copy is the same distribution");
    m.FlipPitchSign(true);
    SYM_EQ(m.Eval(p, -x), v, "with the pitch reversed");
    SYM_EQ(c->Eval(p, x), v, "a copy is the same distribution");
    MS *d = m.MinClone();
    SYM_EQ(d->Eval(p, -x), v, "a copy keeps the sign of the pitch");
    m.FlipPitchSign(false);
    SYM_EQ(m.Eval(p, x), v, "with the pitch as it was");
    SYM_ASSERT(!m.IsLogarithmic(), "kind of table");
    sym_reach(out ? "out" : "in");
}
/* any table which a cubic spline reproduces, and any positive table at its nodes */
extern "C" void h_mscubic() {
    const double *P = PG[0], *X = XG[0];
    double c[4], f[NP * NX], p = sym_real_in("p", 1, 4), x = sym_real_in("xi", -0.5, 1);
    for (int i = 0; i < 4; i++) c[i] = sym_real("c");
    for (unsigned j = 0; j < NX; j++) for (unsigned i = 0; i < NP; i++) f[j * NP + i] = c[0] + c[1] * P[i] + c[2] * X[j] + c[3] * P[i] * X[j];
    MS m; m.Initialize(NP, NX, copy(P, NP), copy(X, NX), copy(f, NP * NX), CUB);
    double v = c[0] + c[1] * p + c[2] * x + c[3] * p * x;
    SYM_EQ(m.Eval(p, x), v, "cubic interpolation of its table");
    SYM_EQ(m.MinClone()->Eval(p, x), v, "a copy is the same distribution");
    sym_reach("end");
}
extern "C" void h_mslog() {
    const double *P = PG[0], *X = XG[0];
    double f[NP * NX];
    unsigned cell = sym_choice("cell", 4), kind = sym_choice("kind", 2);
    double p = cell % 2 ? sym_real_in("p", 2.5, 4) : sym_real_in("p", 1, 2.5), x = cell / 2 ? sym_real_in("xi", 0.25, 1) : sym_real_in("xi", -0.5, 0.25);
    if (kind) { sym_assume((p == 1) | (p == 2.5) | (p == 4)); sym_assume((x == -0.5) | (x == 0.25) | (x == 1)); if (p == 1) p = 1; else if (p == 2.5) p = 2.5; else p = 4; if (x == -0.5) x = -0.5; else if (x == 0.25) x = 0.25; else x = 1; }
    for (unsigned i = 0; i < NP * NX; i++) { f[i] = sym_real("f"); sym_assume(f[i] > 0); }
    double *g = copy(f, NP * NX);
    MS m; m.InitializeLog(NP, NX, copy(P, NP), copy(X, NX), g, kind ? CUB : LIN);
    double v = m.Eval(p, x);
    SYM_EQ(v, interp(P, NP, X, NX, f, p, x, true), "logarithmic interpolation of its table");
    for (unsigned i = 0; i < NP * NX; i++) SYM_EQ(g[i], f[i], "the table which was handed in is left as it is");
    SYM_ASSERT(m.IsLogarithmic(), "kind of table");
    MS *c = m.MinClone();
    SYM_ASSERT(c->IsLogarithmic(), "a copy is of the same kind");
    SYM_EQ(c->Eval(p, x), v, "a copy is the same distribution");
    sym_reach("end");
}
/* zeros in a logarithmic table; negative values */
extern "C" void h_mszero() {
    const double *P = PG[0], *X = XG[0];
    double f[NP * NX] = {1, 2, 4, 3, 5, 7, 2, 2, 9};
    unsigned z = sym_choice("zero", NP * NX), which = sym_choice("which", 2);
    f[z] = which ? -1 : 0;
    bool no = false;
    MS m;
    try { m.InitializeLog(NP, NX, copy(P, NP), copy(X, NX), copy(f, NP * NX)); } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(no == (which == 1), "negative values have no logarithm");
    if (!no) {
        SYM_ASSERT(m.Eval(P[z % NP], X[z / NP]) == 0, "a distribution vanishes where its table does");
        unsigned i = z % NP ? z % NP - 1 : 0, j = z / NP ? z / NP - 1 : 0;
        SYM_ASSERT(m.Eval((P[i] + P[i + 1]) / 2, (X[j] + X[j + 1]) / 2) == 0, "a logarithmic table which vanishes at a corner vanishes in the cell");
    }
    sym_reach("end");
}
/* grids which do not increase are refused */
extern "C" void h_msgrid() {
    double P[NP], X[NX], f[NP * NX];
    unsigned w = sym_choice("which", 2), cub = sym_choice("cubic", 2), lg = sym_choice("log", 2);
    for (unsigned i = 0; i < NP; i++) { P[i] = i; X[i] = i / 2.0; }
    for (unsigned i = 0; i < 3; i++) (w ? X : P)[i] = sym_real("g");
    for (unsigned i = 0; i < NP * NX; i++) f[i] = 1;
    double *G = w ? X : P;
    bool good = (G[0] < G[1]) & (G[1] < G[2]), ok = true;
    MS *m = new MS;
    try { if (lg) m->InitializeLog(NP, NX, P, X, f, cub ? CUB : LIN); else m->Initialize(NP, NX, P, X, f, cub ? CUB : LIN); } catch (SOFTLibException &) { ok = false; }
    SYM_ASSERT(ok == good, "exactly the grids which do not increase are refused");
    sym_reach(ok ? "accepted" : "refused");
}

/* ---- with radius ---- */
#define MP 2
#define MX 3
static const double P2[MP] = {1, 3}, X2[MX] = {-1, 0.5, 2};
struct Rad { unsigned nr; double r[3], f[3][MP * MX]; };
static double at(const Rad &d, unsigned i, double p, double x, bool lg) { return interp(P2, MP, X2, MX, d.f[i], p, x, lg); }
/* linear in the radius, extended beyond the ends */
static double ref(const Rad &d, double rho, double p, double x, bool lg = false) {
    if (d.nr == 1) return at(d, 0, p, x, lg);
    unsigned i = d.nr == 3 && rho >= d.r[1] ? 1 : 0;
    double a = at(d, i, p, x, lg), b = at(d, i + 1, p, x, lg), t = (rho - d.r[i]) / (d.r[i + 1] - d.r[i]);
    return a + t * (b - a);
}
static void free_radii(Rad &d, bool pos = false) {
    for (unsigned i = 0; i < d.nr; i++) { d.r[i] = sym_real("radius"); if (i) sym_assume(d.r[i] > d.r[i - 1]); }
    for (unsigned i = 0; i < d.nr; i++) for (unsigned k = 0; k < MP * MX; k++) { d.f[i][k] = sym_real("f"); if (pos) sym_assume(d.f[i][k] > 0); }
}
static double *flat(const Rad &d, bool down) {
    double *f = new double[d.nr * MP * MX];
    for (unsigned i = 0; i < d.nr; i++) for (unsigned k = 0; k < MP * MX; k++) f[i * MP * MX + k] = d.f[down ? d.nr - 1 - i : i][k];
    return f;
}
static double *radii(const Rad &d, bool down) { double *r = new double[d.nr]; for (unsigned i = 0; i < d.nr; i++) r[i] = d.r[down ? d.nr - 1 - i : i]; return r; }
static void judge(ND *n, const Rad &d, double r, double shift, double p, double x, bool lg, bool ext, const char *l) {
    double rho = r - shift, v = 0;
    bool no = false, out = (rho < d.r[0]) | (rho > d.r[d.nr - 1]);
    try { v = n->Eval(r, p, x, shift); } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(no == (out & !ext), "radii outside the table are refused exactly if extrapolation is not permitted");
    if (!no) SYM_EQ(v, ref(d, rho, p, x, lg), l);
}
extern "C" void h_nd() {
    Rad d; d.nr = 1 + sym_choice("radii", 3);
    free_radii(d);
    bool down = d.nr > 1 && sym_choice("decreasing", 2), ext = sym_choice("extrapolate", 2);
    double r = sym_real("r"), shift = sym_real("shift"), p = sym_real_in("p", 1, 3), x = 0;
    ND n; n.Initialize(d.nr, MP, MX, radii(d, down), copy(P2, MP), copy(X2, MX), flat(d, down));
    n.SetExtrapolationPermission(ext);
    judge(&n, d, r, shift, p, x, false, ext, "linear in the radius between tables");
    ND *c = n.MinClone();
    judge(c, d, r, shift, p, x, false, ext, "a copy is the same distribution");
    SYM_EQ(n.Eval(d.r[0], 4, x), 0, "the distribution vanishes outside its table");
    n.FlipPitchSign(true);
    double y = 0.5;
    SYM_EQ(n.Eval(d.r[0], 1, -y), d.f[0][MP], "with the pitch reversed");
    sym_reach("end");
}
extern "C" void h_ndlog() {
    Rad d; d.nr = 1 + sym_choice("radii", 2);
    free_radii(d, true);
    unsigned how = sym_choice("how", 4);
    double r = sym_real("r"), p = 2.5, x = -0.25, *f = flat(d, false);
    ND n;
    if (how < 2) n.InitializeLog(d.nr, MP, MX, radii(d, false), copy(P2, MP), copy(X2, MX), f, ND::INTERPOLATION_LINEAR, how == 1);
    else for (unsigned i = 0; i < d.nr; i++) n.InsertMomentumSpaceDistributionLog(MP, MX, d.r[i], copy(P2, MP), copy(X2, MX), f + i * MP * MX, ND::INTERPOLATION_LINEAR, how == 3);
    if (how % 2) for (unsigned i = 0; i < d.nr * MP * MX; i++) SYM_EQ(f[i], d.f[0][i], "the table which was handed in is left as it is on request");
    judge(&n, d, r, 0, p, x, true, true, "logarithmic interpolation of its tables");
    judge(n.MinClone(), d, r, 0, p, x, true, true, "a copy is the same distribution");
    sym_reach("end");
}
/* one radius after another, in any order */
extern "C" void h_ndinsert() {
    Rad d; d.nr = 1 + sym_choice("radii", 3);
    free_radii(d);
    static const unsigned PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    unsigned perm[3], k = 0, o = sym_choice("order", d.nr == 3 ? 6 : d.nr == 2 ? 2 : 1), ext = sym_choice("extrapolate", 2);
    for (unsigned i = 0; i < 3; i++) { unsigned v = PERM[d.nr == 2 ? 2 * o : o][i]; if (v < d.nr) perm[k++] = v; }
    ND n;
    for (unsigned i = 0; i < d.nr; i++) {
        unsigned v = perm[i], below = 0;
        for (unsigned j = 0; j < i; j++) below += perm[j] < v;
        int idx = n.InsertMomentumSpaceDistribution(MP, MX, d.r[v], copy(P2, MP), copy(X2, MX), copy(d.f[v], MP * MX), ND::INTERPOLATION_LINEAR);
        SYM_ASSERT(idx == (int)below, "an inserted table takes the place of its radius");
    }
    n.SetExtrapolationPermission(ext);
    double r = sym_real("r"), p = sym_real_in("p", 1, 3);
    judge(&n, d, r, 0, p, 0, false, ext, "linear in the radius between inserted tables");
    judge(n.MinClone(), d, r, 0, p, 0, false, ext, "a copy is the same distribution");
    sym_reach("end");
}
/* cubic tables at several radii, however they are handed in */
extern "C" void h_ndcubic() {
    const double *P = PG[0], *X = XG[0], R[2] = {1, 2};
    unsigned how = sym_choice("how", 4); bool lg = how >= 2;
    double c[2][4], f[2 * NP * NX], r = sym_real_in("r", 1, 2), p = sym_real_in("p", 1, 4), x = sym_real_in("xi", -0.5, 1);
    unsigned i = sym_choice("i", NP), j = sym_choice("j", NX);
    for (unsigned k = 0; k < 2; k++) {
        for (int l = 0; l < 4; l++) c[k][l] = sym_real("c");
        for (unsigned b = 0; b < NX; b++) for (unsigned a = 0; a < NP; a++) {
            double &v = f[(k * NX + b) * NP + a];
            v = c[k][0] + c[k][1] * P[a] + c[k][2] * X[b] + c[k][3] * P[a] * X[b];
            if (lg) sym_assume(v > 0);
        }
    }
    /* (logarithms are only asked for at nodes) */
    if (lg) { p = P[i]; x = X[j]; } else sym_assume((i == 0) & (j == 0));
    ND n;
    if (how == 0) n.Initialize(2, NP, NX, copy(R, 2), copy(P, NP), copy(X, NX), copy(f, 2 * NP * NX), ND::INTERPOLATION_CUBIC);
    else if (how == 2) n.InitializeLog(2, NP, NX, copy(R, 2), copy(P, NP), copy(X, NX), copy(f, 2 * NP * NX), ND::INTERPOLATION_CUBIC, true);
    else for (unsigned k = 0; k < 2; k++) {
        if (lg) n.InsertMomentumSpaceDistributionLog(NP, NX, R[k], copy(P, NP), copy(X, NX), copy(f + k * NP * NX, NP * NX), ND::INTERPOLATION_CUBIC, true);
        else n.InsertMomentumSpaceDistribution(NP, NX, R[k], copy(P, NP), copy(X, NX), copy(f + k * NP * NX, NP * NX), ND::INTERPOLATION_CUBIC);
    }
    double v[2];
    for (unsigned k = 0; k < 2; k++) v[k] = c[k][0] + c[k][1] * p + c[k][2] * x + c[k][3] * p * x;
    SYM_EQ(n.Eval(r, p, x), (2 - r) * v[0] + (r - 1) * v[1], "linear in the radius between cubic tables");
    SYM_EQ(n.MinClone()->Eval(r, p, x), (2 - r) * v[0] + (r - 1) * v[1], "a copy is the same distribution");
    sym_reach("end");
}
/* zeros and negative values in logarithmic tables, among others */
extern "C" void h_ndzero() {
    Rad d; d.nr = 2; d.r[0] = 1; d.r[1] = 2;
    unsigned zr = sym_choice("radius", 2), z = sym_choice("zero", MP * MX), how = sym_choice("how", 4), neg = sym_choice("negative", 2);
    for (unsigned i = 0; i < 2; i++) for (unsigned k = 0; k < MP * MX; k++) d.f[i][k] = 1.5 + ((i + 2) * (k + 3)) % 7;
    d.f[zr][z] = neg ? -2 : 0;
    double *f = flat(d, false);
    ND n;
    bool no = false;
    try {
        if (how < 2) n.InitializeLog(d.nr, MP, MX, radii(d, false), copy(P2, MP), copy(X2, MX), f, ND::INTERPOLATION_LINEAR, how == 1);
        else for (unsigned i = 0; i < d.nr; i++) n.InsertMomentumSpaceDistributionLog(MP, MX, d.r[i], copy(P2, MP), copy(X2, MX), f + i * MP * MX, ND::INTERPOLATION_LINEAR, how == 3);
    } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(!no | (neg == 1), "a table with zeros has a logarithm");
    if (!no) {      /* negative values are refused or taken as zero */
        unsigned i = z % MP ? z % MP - 1 : 0, j = z / MP ? z / MP - 1 : 0;
        SYM_ASSERT(n.Eval(d.r[zr], P2[z % MP], X2[z / MP]) == 0, "a distribution vanishes where its table does");
        SYM_ASSERT(n.Eval(d.r[zr], (P2[i] + P2[i + 1]) / 2, (X2[j] + X2[j + 1]) / 2) == 0, "a logarithmic table which vanishes at a corner vanishes in the cell");
        SYM_EQ(n.Eval(d.r[1 - zr], P2[z % MP], X2[z / MP]), d.f[1 - zr][z], "a table is not touched by its neighbours");
        if (how % 2 && !neg) for (unsigned k = 0; k < 2 * MP * MX; k++) SYM_EQ(f[k], d.f[0][k], "the table which was handed in is left as it is on request");
    }
    sym_reach("end");
}
/* many radii: any place among them */
#define MANY 9
extern "C" void h_ndmany() {
    static const double R[MANY] = {0, 0.25, 0.5, 1, 1.5, 2.5, 3, 3.25, 5};
    static const unsigned ORD[3][MANY] = {{4, 2, 7, 0, 8, 5, 1, 3, 6}, {8, 7, 6, 5, 4, 3, 2, 1, 0}, {1, 8, 3, 0, 6, 4, 7, 2, 5}};
    unsigned how = sym_choice("how", 5), nr = MANY - sym_choice("fewer", 2);
    double g[MANY][MP * MX], *f = new double[MANY * MP * MX], *r = new double[MANY];
    for (unsigned i = 0; i < nr; i++) for (unsigned k = 0; k < MP * MX; k++) g[i][k] = k == 0 || k == MP ? sym_real("f") : 0;
    ND n;
    if (how < 2) {
        for (unsigned i = 0; i < nr; i++) { unsigned q = how ? nr - 1 - i : i; r[i] = R[q]; for (unsigned k = 0; k < MP * MX; k++) f[i * MP * MX + k] = g[q][k]; }
        n.Initialize(nr, MP, MX, r, copy(P2, MP), copy(X2, MX), f);
    } else for (unsigned i = 0; i < MANY; i++) {
        unsigned v = ORD[how - 2][i], below = 0;
        if (v >= nr) continue;
        for (unsigned j = 0; j < i; j++) below += ORD[how - 2][j] < v;
        int idx = n.InsertMomentumSpaceDistribution(MP, MX, R[v], copy(P2, MP), copy(X2, MX), copy(g[v], MP * MX), ND::INTERPOLATION_LINEAR);
        SYM_ASSERT(idx == (int)below, "an inserted table takes the place of its radius");
    }
    n.SetExtrapolationPermission(true);
    double rho = sym_real("r");
    unsigned c = 0;
    for (unsigned k = 1; k + 1 < nr; k++) if (rho >= R[k]) c = k;
    double t = (rho - R[c]) / (R[c + 1] - R[c]);
    for (unsigned e = 0; e < 2; e++) {
        double a = g[c][e * MP], b = g[c + 1][e * MP], v = a + t * (b - a);
        SYM_EQ(n.Eval(rho, 1, X2[e]), v, "linear in the radius between many tables");
        SYM_EQ(n.MinClone()->Eval(rho, 1, X2[e]), v, "a copy is the same distribution");
    }
    sym_reach("end");
}
extern "C" void h_ndgrid() {
    Rad d; d.nr = 2 + sym_choice("radii", 2);
    double r[3];
    for (unsigned i = 0; i < d.nr; i++) { r[i] = sym_real("radius"); for (unsigned k = 0; k < MP * MX; k++) d.f[i][k] = 1; }
    bool up = true, down = true, ok = true;
    for (unsigned i = 1; i < d.nr; i++) { up &= r[i] > r[i - 1]; down &= r[i] < r[i - 1]; }
    ND n;
    try { n.Initialize(d.nr, MP, MX, copy(r, d.nr), copy(P2, MP), copy(X2, MX), flat(d, false)); } catch (SOFTLibException &) { ok = false; }
    SYM_ASSERT(ok == (up | down), "exactly the radial grids which neither increase nor decrease are refused");
    sym_reach(ok ? "accepted" : "refused");
}

/* ---- CODE: Legendre modes ---- */
#include <softlib/DistributionFunction/CODEDistributionFunction.h>
#include <softlib/DistributionFunction/GOCODEDistributionFunction.h>
typedef CODEDistributionFunction CD;
static double legendre(unsigned l, double x) {
    switch (l) {
        case 0: return 1;
        case 1: return x;
        case 2: return (3 * x * x - 1) / 2;
        case 3: return (5 * x * x * x - 3 * x) / 2;
        default: return (35 * x * x * x * x - 30 * x * x + 3) / 8;
    }
}
static double modes(const double *P, unsigned np, const double *f, unsigned nl, double p, double x) {
    if ((p < P[0]) | (p > P[np - 1])) return 0;
    unsigned i = 0;
    for (unsigned k = 1; k + 1 < np; k++) if (p >= P[k]) i = k;
    double s = 0, t = (p - P[i]) / (P[i + 1] - P[i]);
    for (unsigned l = 0; l < nl; l++) s += ((1 - t) * f[l * np + i] + t * f[l * np + i + 1]) * legendre(l, -x);
    return s;
}
static double clip(double s) { return s <= 0 ? 0 : s; }
extern "C" void h_code() {
    static const double P[NP] = {0.5, 1, 3};
    unsigned nl = 1 + sym_choice("modes", 5), np = 2 + sym_choice("momenta", 2);
    double *f = new double[nl * np];
    for (unsigned i = 0; i < nl * np; i++) f[i] = sym_real("f");
    CD c; c.Initialize(np, nl, copy(P, np), f);
    double p = sym_real("p"), x = sym_real_in("xi", -1, 1), y = sym_choice("same", 2) ? x : 0.25;
    SYM_EQ(c.Eval(p, x), clip(modes(P, np, f, nl, p, x)), "sum of the modes");
    SYM_EQ(c.Eval(p, y), clip(modes(P, np, f, nl, p, y)), "sum of the modes at another pitch");
    SYM_EQ(c.MinClone()->Eval(p, x), clip(modes(P, np, f, nl, p, x)), "a copy is the same distribution");
    SYM_ASSERT(c.GetPMin() == P[0] && c.GetPMax() == P[np - 1], "range of momenta");
    /* emptied and used again */
    c.Destroy(); c.Destroy();
    if (sym_choice("again", 2)) {
        double *g = new double[6]; for (unsigned i = 0; i < 6; i++) g[i] = (i + 1) * 0.5;
        c.Initialize(NP, 2, copy(P, NP), g);
        SYM_EQ(c.Eval(p, x), clip(modes(P, NP, g, 2, p, x)), "sum of the modes of the new distribution");
    }
    sym_reach("end");
}
/* as a table */
extern "C" void h_codetable() {
    static const double P[NP] = {0.5, 1, 3};
    unsigned nl = 1 + sym_choice("modes", 4), lg = sym_choice("log", 2), th = sym_choice("theta", 2), nx = 3;
    double f[5 * NP], x = 0.5;
    for (unsigned i = 0; i < nl * NP; i++) f[i] = lg && i >= NP ? (i % 3) * 0.25 : sym_real("f");
    if (lg) for (unsigned i = 0; i < NP; i++) sym_assume(f[i] > 8);
    /* negative values are taken as zero, where a logarithm is taken */
    bool neg = lg && sym_choice("negative", 2);
    if (neg) f[1] = -9;
    CD c; c.Initialize(NP, nl, copy(P, NP), copy(f, nl * NP));
    double v = c.Eval(P[1], 0.25);
    MS *m = c.ToMomentumSpace(lg, th, nx, !neg && sym_choice("cubic", 2) ? CUB : LIN);
    static const double X[3] = {-1, 0, 1};
    for (unsigned i = 0; i < NP; i++) for (unsigned j = 0; j < nx; j++) {
        /* uniform in the angle, the middle is at a cosine of pi / 2, which is not quite zero in floating point */
        if (th && j == 1) continue;
        if (neg && i != 1) continue;
        SYM_EQ(m->Eval(P[i], X[j]), lg ? clip(modes(P, NP, f, nl, P[i], X[j])) : modes(P, NP, f, nl, P[i], X[j]), "the table has the values of the distribution at its nodes");
    }
    SYM_ASSERT(m->IsLogarithmic() == (lg == 1), "kind of table");
    SYM_EQ(c.Eval(P[1], 0.25), v, "making a table leaves the distribution as it is");
    SYM_EQ(c.Eval(P[1], x), clip(modes(P, NP, f, nl, P[1], x)), "making a table leaves the distribution as it is");
    sym_reach("end");
}
static double **rows(double *a, unsigned r, unsigned c) { double **p = new double *[r]; for (unsigned i = 0; i < r; i++) p[i] = a + i * c; return p; }
static void put(SFile *f, const string &n, const double *a, unsigned r, unsigned c) { f->WriteArray(n, rows(copy(a, r * c), r, c), r, c); }
/* files */
enum { C_GOOD, C_Y, C_DELTA, C_NREF, C_TREF, C_NXI, C_F, C_FEWER, C_UNSORTED, C_METHOD, C_MISSING, C_TIME, CCASE };
struct Code { unsigned np, nl, nt; double y[3], delta, nref, Tref, f[2 * 3 * 3]; };
static void code_write(SFile *s, const string &at, const Code &d, unsigned bad, bool col, bool opt) {
    double two[4] = {1, 1, 1, 1};
    if (bad == C_Y) put(s, at + "y", two, 2, 2); else put(s, at + "y", d.y, col ? d.np : 1, col ? 1 : d.np);
    put(s, at + "delta", bad == C_DELTA ? two : &d.delta, 1, bad == C_DELTA ? 2 : 1);
    double nx = d.nl;
    put(s, at + "Nxi", bad == C_NXI ? two : &nx, bad == C_NXI ? 2 : 1, 1);
    if (opt || bad == C_NREF) put(s, at + "nref", bad == C_NREF ? two : &d.nref, 1, bad == C_NREF ? 2 : 1);
    if (opt || bad == C_TREF) put(s, at + "Tref", bad == C_TREF ? two : &d.Tref, 1, bad == C_TREF ? 2 : 1);
    if (bad != C_MISSING) put(s, at + "f", d.f, bad == C_F ? d.nt * d.nl * d.np : d.nt, bad == C_F ? 1 : bad == C_FEWER ? d.nl * d.np - 1 : d.nl * d.np);
}
static double code_norm(const Code &d) { double n = 2 * M_PI * ELECTRON_MASS * d.Tref; return d.nref / (sqrt(n) * n); }
static double code_value(const Code &d, unsigned t, unsigned i, double x) {     /* at a node */
    double s = 0;
    for (unsigned l = 0; l < d.nl; l++) s += d.f[(t * d.nl + l) * d.np + i] * legendre(l, -x);
    return clip(s) * code_norm(d);
}
static void code_data(Code &d, bool free, bool opt) {
    static const double Y[3] = {1, 2, 6};
    for (unsigned i = 0; i < d.np; i++) d.y[i] = Y[i];
    for (unsigned i = 0; i < d.nt * d.nl * d.np; i++) d.f[i] = free ? sym_real("f") : 1.5 + i;
    d.delta = 0.5; d.nref = d.Tref = 1;
    if (opt) { d.nref = sym_real("nref"); sym_assume(d.nref > 0); d.Tref = 2; }
}
extern "C" void h_codefile() {
    unsigned bad = sym_choice("case", CCASE);
    bool good = bad == C_GOOD, opt = good && sym_choice("references", 2), col = good && sym_choice("column", 2);
    Code d; d.np = 3; d.nl = good ? 1 + sym_choice("modes", 3) : 2; d.nt = 2;
    code_data(d, good, opt);
    if (bad == C_UNSORTED) d.y[1] = sym_choice("where", 2) ? d.y[0] : 7;
    unsigned pt = sym_choice("path", 3);
    int time = good ? (int)sym_choice("time", 4) - 2 : bad == C_TIME ? (sym_choice("early", 2) ? -3 : 2) : 0;
    static const char *PATH[3] = {"", "g", "g/"};
    SFile *s = SFile::Create("c.h5", SFILE_MODE_WRITE);
    if (pt) s->CreateStruct("g");
    code_write(s, pt ? "g/" : "", d, bad, col, opt);
    s->Close(); delete s;
    CD *c = nullptr;
    int how = sym_choice("form", 3), m = bad == C_METHOD ? 77 : (int)CD::INTERPOLATION_LINEAR;
    try {
        if (how == 0) c = new CD("c.h5", time, m, PATH[pt]);
        else if (how == 1) { CD *k = new CD(); k->Load("c.h5", time, m, PATH[pt]); c = k; }
        else { SFile *in = SFile::Create("c.h5", SFILE_MODE_READ); c = new CD(in, time, m, PATH[pt]); in->Close(); }
    } catch (SOFTLibException &) {}
    if (!good) { SYM_ASSERT(c == nullptr, "a file which is not a distribution is refused"); sym_reach("refused"); return; }
    SYM_ASSERT(c != nullptr, "a distribution file is accepted");
    unsigned t = time < 0 ? time + 2 : time;
    double q = code_norm(d);
    for (unsigned i = 0; i < d.np; i++) SYM_EQ(c->Eval(d.y[i] * d.delta, 0.5) / q, code_value(d, t, i, 0.5) / q, "the distribution has the values in the file");
    sym_reach("read");
}

/* ---- a field to live in ---- */
class Field : public MagneticField2D {
public:
    Field(double R, double outer) {
        magnetic_axis[0] = R; magnetic_axis[1] = 0;
        static double r[4], z[4] = {-1, -1, 1, 1};
        r[0] = r[3] = R - 1; r[1] = r[2] = outer;
        SetDomain(r, z, 4);
    }
    MagneticField2D *Clone() override { return nullptr; }
    using MagneticField2D::Eval; using MagneticField2D::EvalDerivatives; using MagneticField2D::EvalFlux; using MagneticField2D::EvalFluxDerivatives;
    slibreal_t *Eval(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    struct magnetic_field_data &EvalDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return magdata; }
    slibreal_t EvalFlux(slibreal_t, slibreal_t, slibreal_t) override { return 0; }
    struct flux_diff *EvalFluxDerivatives(slibreal_t, slibreal_t, slibreal_t) override { return nullptr; }
    bool HasMagneticFlux() override { return false; }
};
enum { G_GOOD, G_TYPE, G_R, G_ORDER, G_TIME, G_MISSING, G_CODE, GCASE };
extern "C" void h_gocode() {
    unsigned bad = sym_choice("case", GCASE);
    bool good = bad == G_GOOD;
    unsigned nr = good ? 1 + sym_choice("radii", 3) : 2, nt = 2;
    static const double R[3] = {0, 0.25, 1};
    double axis = 2.5, r[4];
    Field mf(axis, 4);
    for (unsigned i = 0; i < nr; i++) r[i] = R[i];
    if (bad == G_ORDER) r[1] = sym_choice("order", 2) ? -1 : 0;
    Code d[2][3];
    SFile *s = SFile::Create("c.h5", SFILE_MODE_WRITE);
    if (bad == G_TYPE || (good && sym_choice("type", 2))) s->WriteString("type", bad == G_TYPE ? "distribution/soft" : "distribution/gocode");
    double two[4] = {0, 1, 2, 3};
    bool col = good && sym_choice("column", 2);
    if (bad == G_R) put(s, "r", two, 2, 2); else put(s, "r", r, col ? nr : 1, col ? 1 : nr);
    s->WriteScalar("nt", nt);
    for (unsigned t = 0; t < nt; t++) {
        string tn = t ? "t1" : "t0";
        s->CreateStruct(tn);
        for (unsigned i = 0; i < nr; i++) {
            if (bad == G_MISSING && i == 1) continue;
            string at = tn + (i == 0 ? "/r0" : i == 1 ? "/r1" : "/r2");
            s->CreateStruct(at);
            Code &c = d[t][i];
            c.np = 2; c.nl = 2; c.nt = 1;
            code_data(c, good, false);
            if (good) for (unsigned k = 0; k < 4; k++) sym_assume(k < 2 ? c.f[k] > 1 : (c.f[k] > -1) & (c.f[k] < 1));
            code_write(s, at + "/", c, bad == G_CODE && i == 1 ? C_FEWER : C_GOOD, false, false);
        }
    }
    s->Close(); delete s;
    int time = good ? (int)sym_choice("time", 4) - 2 : bad == G_TIME ? (sym_choice("early", 2) ? -3 : 2) : 0;
    GOCODEDistributionFunction *g = nullptr;
    try { g = new GOCODEDistributionFunction("c.h5", &mf, time); } catch (SOFTLibException &) {}
    if (!good) { SYM_ASSERT(g == nullptr, "a file which is not a distribution is refused"); sym_reach("refused"); return; }
    SYM_ASSERT(g != nullptr, "a distribution file is accepted");
    unsigned t = time < 0 ? time + 2 : time, i = sym_choice("momentum", 2);
    double rr = sym_real("r"), shift = sym_real("shift"), rho = rr - shift - axis, p = d[0][0].y[i] * 0.5, x = -0.5, q = code_norm(d[0][0]), v;
    if (nr == 1) v = code_value(d[t][0], 0, i, x);
    else {
        unsigned k = nr == 3 && rho >= R[1] ? 1 : 0;
        double a = code_value(d[t][k], 0, i, x), b = code_value(d[t][k + 1], 0, i, x), w = (rho - R[k]) / (R[k + 1] - R[k]);
        v = a + w * (b - a);
    }
    SYM_EQ(g->Eval(rr, p, x, shift) / q, v / q, "linear in the radius between the distributions");
    GOCODEDistributionFunction *c = g->MinClone();
    SYM_EQ(c->Eval(rr, p, x, shift) / q, v / q, "a copy is the same distribution");
    sym_reach("read");
}

/* many radii and times; more momenta than modes */
extern "C" void h_gocodemany() {
    unsigned nr = 12, nt = 12;
    double axis = 2.5, r[12];
    Field mf(axis, 4);
    for (unsigned i = 0; i < nr; i++) r[i] = i * (0.25 + i * 0.125);
    int time = sym_choice("time", 2) ? 10 : -1;
    unsigned at = time < 0 ? nt + time : time;
    Code d[12];
    SFile *s = SFile::Create("c.h5", SFILE_MODE_WRITE);
    put(s, "r", r, 1, nr);
    s->WriteScalar("nt", nt);
    for (unsigned t = 0; t < nt; t++) {
        string tn = "t" + std::to_string(t);
        s->CreateStruct(tn);
        if (t != at) continue;
        for (unsigned i = 0; i < nr; i++) {
            Code &c = d[i];
            c.np = 3; c.nl = 2; c.nt = 1;
            code_data(c, true, false);
            for (unsigned k = 0; k < 6; k++) sym_assume(k < 3 ? c.f[k] > 1 : (c.f[k] > -1) & (c.f[k] < 1));
            string gn = tn + "/r" + std::to_string(i);
            s->CreateStruct(gn);
            code_write(s, gn + "/", c, C_GOOD, false, false);
        }
    }
    s->Close(); delete s;
    GOCODEDistributionFunction *g = nullptr;
    try { g = new GOCODEDistributionFunction("c.h5", &mf, time); } catch (SOFTLibException &) {}
    SYM_ASSERT(g != nullptr, "a distribution file is accepted");
    double rho = sym_real("r"), x = -0.5, q = code_norm(d[0]);
    unsigned k = 0;
    for (unsigned i = 1; i + 1 < nr; i++) if (rho >= r[i]) k = i;
    for (unsigned i = 0; i < 3; i++) {
        double a = code_value(d[k], 0, i, x), b = code_value(d[k + 1], 0, i, x), w = (rho - r[k]) / (r[k + 1] - r[k]);
        SYM_EQ(g->Eval(axis + rho, d[0].y[i] * 0.5, x) / q, (a + w * (b - a)) / q, "linear in the radius between many distributions");
    }
    sym_reach("read");
}
/* ---- files with tables at several radii ---- */
#include <softlib/DistributionFunction/DREAMDistributionFunction.h>
#include <softlib/DistributionFunction/LUKEDistributionFunction.h>
#include <softlib/DistributionFunction/SOFTDistributionFunction.h>
#include <softlib/DistributionFunction/deprSOFTDistributionFunction.h>
static const char *FN[2] = {"d.h5", "d.mat"};
/* what a loaded distribution has to be: the tables at the nodes, linear in between */
static void loaded(DistributionFunction *n, unsigned nr, const double *R, const double *P, unsigned np, const double *X, unsigned nx, const double *f) {
    SYM_ASSERT(n != nullptr, "a distribution file is accepted");
    for (unsigned k = 0; k < nr; k++) for (unsigned j = 0; j < nx; j++) for (unsigned i = 0; i < np; i++) {
        const double *a = f + k * nx * np + j * np + i;
        SYM_EQ(n->Eval(R[k], P[i], X[j]), a[0], "the distribution has the values in the file");
        if (k + 1 < nr) SYM_EQ(n->Eval(R[k] + 0.25 * (R[k + 1] - R[k]) + 0.5, P[i], X[j], 0.5), 0.75 * a[0] + 0.25 * a[nx * np], "linear in the radius between the tables");
    }
    SYM_EQ(n->Eval(R[0], P[np - 1] + 1, X[0]), 0, "the distribution vanishes outside its table");
}
static void fill(double *f, unsigned n, bool lg, bool free = true) { for (unsigned i = 0; i < n; i++) { f[i] = free ? sym_real("f") : 1.0 + i; if (lg) sym_assume(f[i] > 0); } }
static void wrong_vector(SFile *s, const string &n, const double *a, unsigned len, bool bad, bool col) {
    double two[4] = {0, 1, 2, 3};
    if (bad) put(s, n, two, 2, 2); else put(s, n, a, col ? len : 1, col ? 1 : len);
}
/* SOFT */
enum { S_GOOD, S_TYPE, S_R, S_P, S_X, S_F, S_FT, S_ORDER, S_MISSING, SCASE };
extern "C" void h_soft() {
    unsigned bad = sym_choice("case", SCASE);
    bool good = bad == S_GOOD;
    unsigned v = good ? sym_choice("variant", 4) : 0;       /* every pair of the options */
    bool lg = good && v & 1, field = good ? v & 2 : true, col = good && v & 2, cub = good && (v & 1) ^ (v >> 1 & 1);
    unsigned nr = good ? 1 + sym_choice("radii", 3) : 2, np = 3, nx = 3 + (bad == S_FT), form = good ? sym_choice("form", 2) : 0;
    static const double R[3] = {0, 0.25, 1}, X[4] = {-0.5, 0.25, 1, 2};
    const double *P = PG[0];
    double r[3], f[3 * 12];
    for (unsigned i = 0; i < nr; i++) r[i] = R[i];
    if (bad == S_ORDER) r[1] = sym_choice("order", 2) ? -1 : 0;
    fill(f, nr * np * nx, lg, good);
    const char *fn = FN[good ? v & 1 : 0];
    SFile *s = SFile::Create(fn, SFILE_MODE_WRITE);
    if (bad == S_TYPE || (good && (v & 1) == (v >> 1 & 1))) s->WriteString("type", bad == S_TYPE ? "distribution/gocode" : "distribution/soft");
    wrong_vector(s, "r", r, nr, bad == S_R, col);
    for (unsigned i = 0; i < nr; i++) {
        string g = i == 0 ? "r0" : i == 1 ? "r1" : "r2";
        s->CreateStruct(g); g += "/";
        bool here = i == nr - 1;
        if (!(bad == S_MISSING && here)) wrong_vector(s, g + "p", P, np, bad == S_P && here, col);
        wrong_vector(s, g + "xi", X, nx, bad == S_X && here, col);
        if (bad == S_F && here) put(s, g + "f", f + i * np * nx, nx - 1, np); else if (bad == S_FT && here) put(s, g + "f", f + i * np * nx, np, nx); else put(s, g + "f", f + i * np * nx, nx, np);
    }
    s->Close(); delete s;
    double axis = field ? 2.5 : 0;
    Field mf(2.5, 4);
    DistributionFunction *d = nullptr;
    bool no = false;
    unsigned k = form ? sym_choice("index", nr + 1) : 0;
    try {
        if (form) d = SOFTDistributionFunction::LoadMomentumSpace(fn, field ? &mf : nullptr, lg, k, cub ? CUB : LIN);
        else d = new SOFTDistributionFunction(fn, field ? &mf : nullptr, lg, cub ? CUB : LIN);
    } catch (SOFTLibException &) { no = true; }
    if (!good) { SYM_ASSERT(no, "a file which is not a distribution is refused"); sym_reach("refused"); return; }
    if (form && k == nr) { SYM_ASSERT(no, "a radius which is not in the file is refused"); sym_reach("refused"); return; }
    for (unsigned i = 0; i < nr; i++) r[i] += axis;
    if (form) { loaded(d, 1, r, P, np, X, nx, f + k * np * nx); loaded(d->MinClone(), 1, r, P, np, X, nx, f + k * np * nx); } else loaded(d, nr, r, P, np, X, nx, f);
    sym_reach("read");
}
/* LUKE */
enum { L_GOOD, L_R, L_P, L_X, L_B, L_F, L_DIMS, L_MORE, L_ORDER, L_MISSING, LCASE };
extern "C" void h_lukef() {
    unsigned bad = sym_choice("case", LCASE);
    bool good = bad == L_GOOD;
    unsigned v = good ? sym_choice("variant", 4) : 0;
    bool lg = good && v & 1, col = good && v & 2, cub = good && (v & 1) ^ (v >> 1 & 1);
    unsigned nr = good ? 1 + sym_choice("radii", 3) : 2, np = 3, nx = 4, form = good ? sym_choice("form", 2) : 0;
    static const double R[3] = {0, 0.25, 1}, X[4] = {-0.5, 0.25, 1, 2};
    double r[3], P[3], f[3 * 12], beta = 0.5;
    for (unsigned i = 0; i < nr; i++) r[i] = R[i];
    for (unsigned i = 0; i < np; i++) P[i] = PG[0][i];
    if (bad == L_ORDER) r[1] = 0;
    fill(f, nr * np * nx, lg, good);
    const char *fn = FN[good ? v >> 1 & 1 : 0];
    SFile *s = SFile::Create(fn, SFILE_MODE_WRITE);
    wrong_vector(s, "xrhoG", r, nr, bad == L_R, col);
    wrong_vector(s, "pn", P, np, bad == L_P, col);
    wrong_vector(s, "mhu", X, nx, bad == L_X, col);
    if (bad != L_MISSING) wrong_vector(s, "betath_ref", &beta, 1, bad == L_B, false);
    sfilesize_t dims[4] = {nr, nx, np, 1};
    if (bad == L_F) { dims[1] = np; dims[2] = nx; }
    if (bad == L_DIMS) { dims[1] = nx * np; }
    s->WriteMultiArray("f", f, bad == L_DIMS ? 2 : bad == L_MORE ? 4 : 3, dims);
    s->Close(); delete s;
    Field mf(2.5, 4.5);
    DistributionFunction *d = nullptr;
    bool no = false;
    unsigned k = form ? sym_choice("index", nr + 1) : 0;
    try {
        if (form) d = LUKEDistributionFunction::LoadMomentumSpace(fn, &mf, lg, k, cub ? CUB : LIN);
        else d = new LUKEDistributionFunction(fn, &mf, lg, cub ? CUB : LIN);
    } catch (SOFTLibException &) { no = true; }
    if (!good) { SYM_ASSERT(no, "a file which is not a distribution is refused"); sym_reach("refused"); return; }
    if (form && k == nr) { SYM_ASSERT(no, "a radius which is not in the file is refused"); sym_reach("refused"); return; }
    for (unsigned i = 0; i < nr; i++) r[i] = 2.5 + r[i] * 2;
    for (unsigned i = 0; i < np; i++) P[i] *= beta;
    if (form) { loaded(d, 1, r, P, np, X, nx, f + k * np * nx); loaded(d->MinClone(), 1, r, P, np, X, nx, f + k * np * nx); } else loaded(d, nr, r, P, np, X, nx, f);
    sym_reach("read");
}
/* DREAM */
enum { D_GOOD, D_NONE, D_NAME, D_SHORT, D_KIND, D_TIME, D_T, D_R, D_P, D_X, D_DIMS, D_MORE, D_ORDER, D_MISSING, DCASE };
extern "C" void h_dream() {
    unsigned bad = sym_choice("case", DCASE);
    bool good = bad == D_GOOD;
    unsigned which = good ? sym_choice("name", 6) : bad == D_NAME ? 2 : 0, v = which % 4;
    int time = good ? (int)sym_choice("time", 4) - 2 : bad == D_TIME ? (sym_choice("early", 2) ? -3 : 2) : 0;
    bool lg = good && v & 1, field = good ? v & 2 : true, cub = good && (v & 1) ^ (v >> 1 & 1);
    unsigned nr = good ? 1 + (time & 1) : 2, np = 3, nx = 4, nt = 2;
    static const double R[2] = {0, 0.5}, X[4] = {-0.5, 0.25, 1, 2}, P[4] = {1, 2.5, 4, 6}, Q[3] = {0, 0.5, 3}, T[3] = {0, 1, 2};
    double r[2], f[2 * 24], g[2 * 24];
    for (unsigned i = 0; i < nr; i++) r[i] = R[i];
    if (bad == D_ORDER) r[1] = sym_choice("order", 2) ? -1 : 0;
    fill(f, nt * nr * np * nx, lg, good); fill(g, nt * nr * np * nx, false, false);
    /* automatic choice: the runaways if they are there, else the hot electrons */
    static const char *NAME[6] = {"", "", "f_hot", "f_re", "/eqsys/f_hot", "/eqsys/f_re"};
    bool hot = good && (which == 1 || which == 2 || which == 4), both = which != 1;
    SFile *s = SFile::Create("d.h5", SFILE_MODE_WRITE);
    s->CreateStruct("grid"); s->CreateStruct("eqsys"); s->CreateStruct("grid/runaway"); s->CreateStruct("grid/hottail");
    s->WriteList("grid/t", copy(T, 3), nt + (bad == D_T));
    s->WriteList("grid/r", copy(r, nr), nr - (bad == D_R));
    double *pr = copy(P, 4), *ph = copy(Q, np), *xr = copy(X, nx), *xh = copy(X, nx);
    xh[0] = -0.75;
    s->WriteList("grid/runaway/p1", pr, np + (bad == D_P)); if (bad != D_MISSING) s->WriteList("grid/runaway/p2", xr, nx - (bad == D_X));
    s->WriteList("grid/hottail/p1", ph, np); s->WriteList("grid/hottail/p2", xh, nx);
    sfilesize_t dims[4] = {nt, nr, nx, np};
    if (bad == D_DIMS) { sfilesize_t e[3] = {nt * nr, nx, np}; s->WriteMultiArray("eqsys/f_re", f, 3, e); }
    else if (bad == D_MORE) { sfilesize_t e[5] = {nt, nr, nx, np, 1}; s->WriteMultiArray("eqsys/f_re", f, 5, e); }
    else if (bad != D_NONE) {
        if (both) s->WriteMultiArray("eqsys/f_re", hot ? g : f, 4, dims);
        if (hot) s->WriteMultiArray("eqsys/f_hot", f, 4, dims);
        if (bad == D_SHORT) s->WriteMultiArray("fe", f, 4, dims);
        if (bad == D_KIND) s->WriteMultiArray("eqsys/n_re", f, 4, dims);
    }
    s->Close(); delete s;
    Field mf(2.5, 4.5);
    DREAMDistributionFunction *d = nullptr;
    bool no = false;
    string name = bad == D_SHORT ? "/fe" : bad == D_KIND ? "n_re" : NAME[which];
    try { d = new DREAMDistributionFunction("d.h5", field ? &mf : nullptr, name, time, lg, cub ? CUB : LIN); } catch (SOFTLibException &) { no = true; }
    if (!good) { SYM_ASSERT(no, "a file which is not a distribution is refused"); sym_reach("refused"); return; }
    for (unsigned i = 0; i < nr; i++) r[i] += field ? 2.5 : 0;
    unsigned t = time < 0 ? time + nt : time;
    loaded(d, nr, r, hot ? Q : P, np, hot ? xh : xr, nx, f + t * nr * nx * np);
    delete d;
    sym_reach("read");
}
/* SOFT, as it was */
enum { O_GOOD, O_R, O_P, O_X, O_F, O_UNITS, O_ORDER, O_VP, O_VX, O_VR, O_VLONG, O_MISSING, OCASE };
extern "C" void h_old() {
    unsigned bad = sym_choice("case", OCASE);
    bool good = bad == O_GOOD;
    unsigned nr = good ? 1 + sym_choice("radii", 2) : 2, np = 3, nx = 4, form = good ? sym_choice("form", 2) : 0, shape = good ? sym_choice("shape", 3) : 0, units = good ? (shape + nr + form) % 3 : 1;
    bool lg = good && shape == 1, col = good && shape == 2;
    static const double R[3] = {0.5, 0.75, 1}, X[4] = {-0.5, 0.25, 1, 2};
    static const char *U[3] = {"ev", "normalized", "si"};
    double r[3], P[3], q[3], f[3 * 12], norm = units == 0 ? 0.5109989461e6 : units == 1 ? 1 : ELECTRON_MASS * LIGHTSPEED;
    for (unsigned i = 0; i < nr; i++) r[i] = R[i];
    for (unsigned i = 0; i < np; i++) { P[i] = PG[0][i]; q[i] = P[i] * norm; }
    if (bad == O_ORDER) r[1] = r[0];
    bool checks = good && !form && shape;
    fill(f, nr * np * nx, lg, good && !checks);
    if (checks) { f[0] = sym_real("g"); f[np] = sym_real("g"); if (lg) { sym_assume(f[0] > 0); sym_assume(f[np] > 0); } }
    SFile *s = SFile::Create("d.h5", SFILE_MODE_WRITE);
    wrong_vector(s, "r", r, nr, bad == O_R, col); wrong_vector(s, "p", q, np, bad == O_P, col); wrong_vector(s, "xi", X, nx, bad == O_X, col);
    unsigned n = nr * nx * np;
    if (bad == O_F) put(s, "f", f, nr, nx * np - 1); else put(s, "f", f, shape == 0 ? nr : shape == 1 ? 1 : n, shape == 0 ? nx * np : shape == 1 ? n : 1);
    if (bad != O_MISSING) s->WriteString("punits", bad == O_UNITS ? "mev" : U[units]);
    if (checks || (bad >= O_VP && bad <= O_VLONG)) {
        double v[3][5], e = sym_real("difference");
        sym_assume((e > 1e-3) | (e < -1e-3));
        unsigned len[3] = {np, nx, nr}, step[3] = {1, np, np * nx};
        for (int c = 0; c < 3; c++) { v[c][len[c]] = 0; for (unsigned i = 0; i < len[c]; i++) v[c][i] = f[i * step[c]]; }
        if (bad >= O_VP && bad <= O_VR) v[bad - O_VP][sym_choice("where", len[bad - O_VP])] += e;
        put(s, "fp0", v[0], 1, np); put(s, "fxi0", v[1], nx + (bad == O_VLONG), 1); put(s, "fr0", v[2], 1, good ? 1 : nr);
    }
    s->Close(); delete s;
    DistributionFunction *d = nullptr;
    bool no = false;
    unsigned k = form ? sym_choice("index", nr + 1) : 0;
    try {
        if (form) d = deprSOFTDistributionFunction::LoadMomentumSpace("d.h5", nullptr, lg, k, LIN);
        else d = new deprSOFTDistributionFunction("d.h5", nullptr, lg, LIN);
    } catch (SOFTLibException &) { no = true; }
    if (!good) { SYM_ASSERT(no, "a file which is not a distribution is refused"); sym_reach("refused"); return; }
    if (form && k == nr) { SYM_ASSERT(no, "a radius which is not in the file is refused"); sym_reach("refused"); return; }
    for (unsigned i = 0; i < np; i++) P[i] = q[i] / norm;
    if (form) { loaded(d, 1, r, P, np, X, nx, f + k * np * nx); loaded(d->MinClone(), 1, r, P, np, X, nx, f + k * np * nx); } else loaded(d, nr, r, P, np, X, nx, f);
    sym_reach("read");
}
