/* The analytical magnetic field. */
#include <cmath>
#include <cstdlib>
#include <limits>
#include <softlib/config.h>
#include <softlib/SOFTLibException.h>
#include <softlib/MagneticField/MagneticFieldAnalytical2D.h>
#include "sym.h"

#ifndef QT
#define QT 0
#endif
static const MFASafetyFactorType TYPES[] = {MFASF_CONSTANT, MFASF_LINEAR, MFASF_QUADRATIC, MFASF_EXPONENTIAL, MFASF_CURRENT, MFASF_CURRENT};
struct Setup {
    double B0, Rm, zm, a, q1, q2, sB, sI;
    MagneticFieldAnalytical2D *mf;
};
static double positive(const char *n) { double x = sym_real(n); sym_assume(x > 0); return x; }
static Setup make(bool both = false) {
    Setup s;
    s.B0 = positive("B0"); s.Rm = 3; s.zm = sym_real("zm"); s.a = 2;
    s.q1 = sym_real("q1"); s.q2 = sym_real("q2");
    if (QT == 5) s.q2 = std::numeric_limits<double>::infinity();
    if (QT == 4) { static const double E[] = {1, 2, 3}; s.q2 = E[sym_choice("exponent", 3)]; }
    unsigned b = sym_choice("sigmaB", 2), i = both ? b : sym_choice("sigmaI", 2);
    s.sB = b ? 1 : -1; s.sI = i ? 1 : -1;
    s.mf = new MagneticFieldAnalytical2D(s.B0, s.Rm, s.zm, s.a, b ? MFAFS_CCW : MFAFS_CW, i ? MFAFS_CCW : MFAFS_CW, TYPES[QT], s.q1, s.q2);
    return s;
}
/* safety factor, independently of the implementation */
static double qfac(const Setup &s, double r) {
    double rn = r / s.a;
    switch (QT) {
        case 0: return s.q1;
        case 1: return s.q1 * rn + s.q2;
        case 2: return s.q1 * rn * rn + s.q2;
        case 3: return exp(rn * s.q1) + s.q2;
        case 4: { double den = 1 - 2 / (s.q2 + 2) * pow(rn, s.q2); sym_assume(den != 0); return s.q1 / den; }
        default: return s.q1;
    }
}
struct P { double x, y, z; };
static P point() {
    P p = {sym_real("x"), sym_real("y"), sym_real("z")};
    sym_assume((p.x != 0) | (p.y != 0));
    return p;
}
/* component c of the field, for the difference quotients of the replay */
static double field(const Setup &s, int c, double x, double y, double z) { return s.mf->Eval(x, y, z)[c]; }
#ifdef VERIF_NATIVE
#define H 1e-5
#define DF(name, f, var) ([&]() { double sv = var; var = sv + H; double hi = (f); var = sv - H; double lo = (f); var = sv; return (hi - lo) / (2 * H); }())
static bool close_(double a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(a) + fabs(b)); }
#define SAME(a, b, l) SYM_ASSERT(close_(a, b), l)
#else
#define DF(name, f, var) sym_deriv(f, var)
#define SAME(a, b, l) SYM_EQ(a, b, l)
#endif

/* the field itself */
extern "C" void h_field() {
    Setup s = make();
    P p = point();
    double R = sqrt(p.x * p.x + p.y * p.y), Z = p.z - s.zm, d = s.Rm - R, r = sqrt(d * d + Z * Z), q = qfac(s, r);
    sym_assume(q != 0);
    double *B = s.mf->Eval(p.x, p.y, p.z);
    double BR = s.sI * s.B0 * Z / (q * R), Bp = s.sB * s.B0 * s.Rm / R, Bz = s.sI * s.B0 * d / (q * R);
    SYM_EQ(B[0], (BR * p.x - Bp * p.y) / R, "the field follows its formula");
    SYM_EQ(B[1], (BR * p.y + Bp * p.x) / R, "the field follows its formula");
    SYM_EQ(B[2], Bz, "the field follows its formula");
    SYM_EQ(s.mf->EvalFlux(p.x, p.y, p.z), s.sI * M_PI * s.B0 * (d * d + Z * Z) / q, "the flux follows its formula");
    SYM_EQ(s.mf->__GetSafetyFactor(r), q, "the safety factor follows its profile");
    sym_reach("end");
}
/* derivatives of the field belong to the field */
extern "C" void h_jacobian() {
    Setup s = make();
    P p = point();
    double R = sqrt(p.x * p.x + p.y * p.y), Z = p.z - s.zm, d = s.Rm - R, r = sqrt(d * d + Z * Z);
    sym_assume(r > 0);
    sym_assume(qfac(s, r) != 0);
    double D[3][3], B[3], *b = s.mf->Eval(p.x, p.y, p.z);
    for (int c = 0; c < 3; c++) B[c] = b[c];
    for (int c = 0; c < 3; c++) {
        D[c][0] = DF(d, field(s, c, p.x, p.y, p.z), p.x);
        D[c][1] = DF(d, field(s, c, p.x, p.y, p.z), p.y);
        D[c][2] = DF(d, field(s, c, p.x, p.y, p.z), p.z);
    }
    struct magnetic_field_data &m = s.mf->EvalDerivatives(p.x, p.y, p.z);
    for (int i = 0; i < 3; i++) {
        SYM_EQ(m.B[i], B[i], "derivatives come with the field of the same point");
        for (int j = 0; j < 3; j++) SAME(m.J[i][j], D[i][j], "Jacobian is the derivative of the field");
    }
    SAME(D[0][0] + D[1][1] + D[2][2], 0, "the field has no divergence");
    SAME(m.curlB[0], D[2][1] - D[1][2], "curl of the field");
    SAME(m.curlB[1], D[0][2] - D[2][0], "curl of the field");
    SAME(m.curlB[2], D[1][0] - D[0][1], "curl of the field");
    if (QT != 4) SYM_ASSERT(m.Babs >= 0, "field strength is not negative");
    SYM_EQ(m.Babs * m.Babs, B[0] * B[0] + B[1] * B[1] + B[2] * B[2], "field strength is the length of the field");
    sym_reach("end");
}
/* one path for either sign of both: the strength does not depend on them */
extern "C" void h_gradient() {
    Setup s = make(true);
    P p = point();
    double R = sqrt(p.x * p.x + p.y * p.y), Z = p.z - s.zm, d = s.Rm - R, r = sqrt(d * d + Z * Z), q = qfac(s, r);
    sym_assume(r > 0);
    sym_assume(q != 0);
    double rq = DF(d, qfac(s, r), r) * r;
    /* |B| = B0 Rm/R sqrt(1 + u^2), u = r/(Rm q) */
    double u = r / (s.Rm * q), w = sqrt(u * u + 1);
    double g[3], h[3];
    for (int k = 0; k < 2; k++) {
        double f = s.B0 * s.Rm / R * u / (s.Rm * q) * (k ? 1 - rq : 1 - rq / q) / w, *o = k ? h : g;
        double gR = -f * d / r - s.B0 * s.Rm / (R * R) * w, gz = f * Z / r;
        o[0] = gR * p.x / R; o[1] = gR * p.y / R; o[2] = gz;
    }
    struct magnetic_field_data &m = s.mf->EvalDerivatives(p.x, p.y, p.z);
    for (int j = 0; j < 3; j++) {
#ifdef VERIF_NATIVE
        SYM_ASSERT(close_(m.gradB[j], g[j]) || close_(m.gradB[j], h[j]), "gradient of the field strength");
#else
        SYM_EQ((m.gradB[j] - g[j]) * (m.gradB[j] - h[j]), 0, "gradient of the field strength");
#endif
    }
    if (QT == 1 && s.sB > 0) SAME(m.gradB[2], g[2], "gradient of the field strength where the safety factor varies");
    sym_reach("end");
}
/* the flux and its derivatives */
extern "C" void h_flux() {
    Setup s = make(true);
    P p = point();
    double R = sqrt(p.x * p.x + p.y * p.y), Z = p.z - s.zm, d = s.Rm - R, r = sqrt(d * d + Z * Z), q = qfac(s, r);
    sym_assume(r > 0);
    sym_assume(q != 0);
    double rq = DF(d, qfac(s, r), r) * r;
    double f = s.sI * M_PI * s.B0 / q * (2 - rq / q);
    struct flux_diff *m = s.mf->EvalFluxDerivatives(p.x, p.y, p.z);
    SYM_EQ(m->psi, s.sI * M_PI * s.B0 * r * r / q, "flux derivatives come with the flux of the same point");
    SAME(m->dpsi_dR, -f * d, "derivatives of the flux belong to the flux");
    SAME(m->dpsi_dZ, f * Z, "derivatives of the flux belong to the flux");
    SAME(s.mf->__GetrDqDr(r), rq, "derivative of the safety factor");
    SYM_ASSERT(s.mf->HasMagneticFlux(), "the field has a flux");
    sym_reach("end");
}
/* on the magnetic axis */
extern "C" void h_axis() {
    Setup s = make();
    static const double X[][2] = {{3, 0}, {0, 3}, {1.8, 2.4}, {-2.4, 1.8}, {0, -3}};
    const double *p = X[sym_choice("point", 5)];
    double c = p[0] / 3, n = p[1] / 3, q = qfac(s, 0);
    sym_assume(q != 0);
    double *B = s.mf->Eval(p[0], p[1], s.zm);
    SYM_EQ(B[0], -s.sB * s.B0 * n, "field on the axis"); SYM_EQ(B[1], s.sB * s.B0 * c, "field on the axis"); SYM_EQ(B[2], 0, "field on the axis");
    SYM_EQ(s.mf->EvalFlux(p[0], p[1], s.zm), 0, "flux on the axis");
    struct flux_diff *f = s.mf->EvalFluxDerivatives(p[0], p[1], s.zm);
    SYM_EQ(f->psi, 0, "flux on the axis"); SYM_EQ(f->dpsi_dR, 0, "flux on the axis"); SYM_EQ(f->dpsi_dZ, 0, "flux on the axis");
    struct magnetic_field_data &m = s.mf->EvalDerivatives(p[0], p[1], s.zm);
    SYM_EQ(m.Babs, s.B0, "field on the axis");
    SYM_EQ(m.gradB[0], -s.B0 / 3 * c, "gradient on the axis"); SYM_EQ(m.gradB[1], -s.B0 / 3 * n, "gradient on the axis"); SYM_EQ(m.gradB[2], 0, "gradient on the axis");
    double w = s.sI * s.B0 / (3 * q), t = s.sB * s.B0 / 3;
    double J[3][3] = {{2 * t * n * c, t * (2 * n * n - 1), w * c}, {t * (1 - 2 * c * c), -2 * t * n * c, w * n}, {-w * c, -w * n, 0}};
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) SYM_EQ(m.J[i][j], J[i][j], "Jacobian on the axis");
    SYM_EQ(m.curlB[0], -2 * w * n, "curl on the axis"); SYM_EQ(m.curlB[1], 2 * w * c, "curl on the axis"); SYM_EQ(m.curlB[2], 0, "curl on the axis");
    sym_reach("end");
}
static void same(MagneticFieldAnalytical2D *a, MagneticFieldAnalytical2D *b, const P &p, const char *l) {
    double A[3], *v = a->Eval(p.x, p.y, p.z);
    for (int i = 0; i < 3; i++) A[i] = v[i];
    v = b->Eval(p.x, p.y, p.z);
    for (int i = 0; i < 3; i++) SYM_EQ(A[i], v[i], l);
    SYM_EQ(a->EvalFlux(p.x, p.y, p.z), b->EvalFlux(p.x, p.y, p.z), l);
}
#include "forms.h"
extern "C" void h_forms() {
    Setup s = make();
    static const double X[][3] = {{2, 0, 1}, {-1.8, 2.4, -0.5}, {0, -4, 0.25}};
    const double *p = X[sym_choice("point", 3)];
    s.mf = new MagneticFieldAnalytical2D(s.B0, 3, 0, 2, s.sB > 0 ? MFAFS_CCW : MFAFS_CW, s.sI > 0 ? MFAFS_CCW : MFAFS_CW, TYPES[QT], 1, 1.5);
    forms(s.mf, p[0], p[1], p[2], true);
    sym_reach("end");
}
/* copies, the other forms of asking, changing the strength */
extern "C" void h_clone() {
    Setup s = make();
    P p = {1.8, 2.4, sym_real("z")};
    sym_assume(p.z > s.zm);
    sym_assume(qfac(s, p.z - s.zm) != 0);
    MagneticField2D *b = s.mf;
    MagneticFieldAnalytical2D *c = s.mf->Clone();
    same(s.mf, c, p, "a copy is the same field");
    SYM_ASSERT(c->GetName() == s.mf->GetName() && c->GetDescription() == s.mf->GetDescription(), "a copy has the same name");
    SYM_EQ(c->GetMagneticAxisR(), s.Rm, "a copy has the same axis"); SYM_EQ(c->GetMagneticAxisZ(), s.zm, "a copy has the same axis");
    SYM_EQ(c->GetRMajor(), s.Rm, "a copy has the same size"); SYM_EQ(c->GetRMinor(), s.a, "a copy has the same size"); SYM_EQ(c->GetB0(), s.B0, "a copy is the same field");
    double A[3], *v = s.mf->Eval(p.x, p.y, p.z), xyz[3] = {p.x, p.y, p.z};
    for (int i = 0; i < 3; i++) A[i] = v[i];
    Vector<3> V; for (int i = 0; i < 3; i++) V[i] = xyz[i];
    double *e = b->Eval(xyz);
    for (int i = 0; i < 3; i++) SYM_EQ(e[i], A[i], "all forms of asking agree");
    e = b->Eval(V);
    for (int i = 0; i < 3; i++) SYM_EQ(e[i], A[i], "all forms of asking agree");
    struct magnetic_field_data &m = b->EvalDerivatives(xyz);
    for (int i = 0; i < 3; i++) SYM_EQ(m.B[i], A[i], "all forms of asking agree");
    struct magnetic_field_data &n = b->EvalDerivatives(V);
    for (int i = 0; i < 3; i++) SYM_EQ(n.B[i], A[i], "all forms of asking agree");
    double f = s.mf->EvalFlux(p.x, p.y, p.z);
    SYM_EQ(b->EvalFlux(xyz), f, "all forms of asking agree"); SYM_EQ(b->EvalFlux(V), f, "all forms of asking agree");
    SYM_EQ(b->EvalFluxDerivatives(xyz)->psi, f, "all forms of asking agree"); SYM_EQ(b->EvalFluxDerivatives(V)->psi, f, "all forms of asking agree");
    double k = positive("k");
    s.mf->SetB0(k);
    v = s.mf->Eval(p.x, p.y, p.z);
    for (int i = 0; i < 3; i++) SYM_EQ(v[i] * s.B0, A[i] * k, "the field is proportional to its strength");
    v = c->Eval(p.x, p.y, p.z);
    for (int i = 0; i < 3; i++) SYM_EQ(v[i], A[i], "a copy is independent");
    sym_reach("end");
}
/* the wall is the circle of the minor radius */
extern "C" void h_wall() {
    Setup s = make(true);
    unsigned n = s.mf->GetNDomain();
    SYM_ASSERT(n >= 3 && s.mf->GetNSeparatrix() == n, "the wall is a circle");
    double *r = s.mf->GetRDomain(), *z = s.mf->GetZDomain(), *rs = s.mf->GetRSeparatrix(), *zs = s.mf->GetZSeparatrix();
    SYM_EQ(r[0], r[n - 1], "the wall is closed"); SYM_EQ(z[0], z[n - 1], "the wall is closed");
    for (unsigned i = 0; i + 1 < n; i++) {
        double c = cos(2.0 * M_PI * (((double)i) / ((double)(n - 1)))), t = sin(2.0 * M_PI * (((double)i) / ((double)(n - 1))));
        SYM_EQ(r[i], s.Rm + s.a * c, "the wall is a circle"); SYM_EQ(z[i], s.zm + s.a * t, "the wall is a circle");
        SYM_EQ(rs[i], r[i], "the separatrix is the wall"); SYM_EQ(zs[i], z[i], "the separatrix is the wall");
    }
    sym_reach("end");
}
/* a table made from the field has its values */
extern "C" void h_table() {
    Setup s = make();
    unsigned nr = 3, nz = 3 + sym_choice("nz", 2);
    if (QT == 0) sym_assume(s.q1 != 0);
    else { sym_assume(s.q1 >= 0); sym_assume(s.q2 > 0); }
    MagneticFieldNumeric2D *t = s.mf->ToNumeric2D(nr, nz);
    SYM_ASSERT(t->HasMagneticFlux(), "a table has the flux of the field");
    SYM_EQ(t->GetMagneticAxisR(), s.Rm, "a table has the same axis"); SYM_EQ(t->GetMagneticAxisZ(), s.zm, "a table has the same axis");
    unsigned i = sym_choice("i", nr), j = sym_choice("j", nz);
    double R = s.Rm + s.a * (2.0 * i / (nr - 1) - 1), z = s.zm + s.a * (2.0 * j / (nz - 1) - 1);
    double A[3], *v = s.mf->Eval(R, 0, z);
    for (int k = 0; k < 3; k++) A[k] = v[k];
    v = t->Eval(R, 0, z);
    for (int k = 0; k < 3; k++) SYM_EQ(v[k], A[k], "a table has the values of the field");
    SYM_EQ(t->EvalFlux(R, 0, z), s.mf->EvalFlux(R, 0, z), "a table has the flux of the field");
    SYM_ASSERT(t->GetNDomain() == s.mf->GetNDomain(), "a table has the wall of the field");
    for (unsigned k = 0; k < t->GetNDomain(); k++) {
        SYM_EQ(t->GetRDomain()[k], s.mf->GetRDomain()[k], "a table has the wall of the field"); SYM_EQ(t->GetZDomain()[k], s.mf->GetZDomain()[k], "a table has the wall of the field");
    }
    sym_reach("end");
}
