/* Magnetic fields given on a grid. */
#include <cmath>
#include <cstdlib>
#include <string>
#include <softlib/config.h>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include <softlib/SOFTLibException.h>
#include <softlib/MagneticField/MagneticFieldNumeric2D.h>
#include "sym.h"
#include "clock.h"
#include <cstring>
#include <ctime>
using std::string;
/* a local time for the header of MAT files */
extern "C" struct tm *localtime(const time_t *) { static struct tm t; memset(&t, 0, sizeof t); t.tm_mday = 3; t.tm_year = 118; return &t; }
extern "C" struct tm *localtime_r(const time_t *p, struct tm *r) { *r = *localtime(p); return r; }

#ifdef VERIF_NATIVE
#define H 1e-5
#define DF(f, var) ([&]() { double sv = var; var = sv + H; double hi = (f); var = sv - H; double lo = (f); var = sv; return (hi - lo) / (2 * H); }())
static bool close_(double a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(a) + fabs(b)); }
#define SAME(a, b, l) SYM_ASSERT(close_(a, b), l)
#else
#define DF(f, var) sym_deriv(f, var)
#define SAME(a, b, l) SYM_EQ(a, b, l)
#endif

#define NR 3
#define NZ 4
static const double GR[NR] = {1, 2.5, 4}, GZ[NZ] = {-1, 0.5, 1, 3};
static const double W_R[] = {1.5, 3.5, 3.5, 1.5, 1.5}, W_Z[] = {-0.5, -0.5, 2, 2, -0.5};
static const double S_R[] = {2, 3, 2.5, 2}, S_Z[] = {0, 0, 1.5, 0};
#define NW 5
#define NS 4
enum { BR, BP, BZ, PSI };
struct Setup {
    double c[4][4];         /* bilinear data: cubic splines reproduce them */
    bool psi, wall, sep;
    MagneticFieldNumeric2D *mf;
    double at(int k, double r, double z) const { return c[k][0] + c[k][1] * r + c[k][2] * z + c[k][3] * r * z; }
};
static double *copy(const double *a, unsigned n) { double *r = new double[n]; for (unsigned i = 0; i < n; i++) r[i] = a[i]; return r; }
static double *grid(const Setup &s, int k) {
    double *a = new double[NR * NZ];
    for (unsigned j = 0; j < NZ; j++) for (unsigned i = 0; i < NR; i++) a[i + j * NR] = s.at(k, GR[i], GZ[j]);
    return a;
}
static void data(Setup &s, bool full) {
    static const char *N[4] = {"br", "bp", "bz", "psi"};
    for (int k = 0; k < 4; k++) for (int m = 0; m < 4; m++) s.c[k][m] = full || (m == k % 3) || m == 3 ? sym_real(N[k]) : 0;
}
static void build(Setup &s, bool psi, bool wall, bool sep) {
    s.psi = psi; s.wall = wall; s.sep = sep;
    s.mf = new MagneticFieldNumeric2D("the name", "the description", copy(GR, NR), copy(GZ, NZ), NR, NZ, grid(s, BR), grid(s, BP), grid(s, BZ), psi ? grid(s, PSI) : nullptr, 2.25, 0.5,
                                      sep ? copy(S_R, NS) : nullptr, sep ? copy(S_Z, NS) : nullptr, sep ? NS : 0, wall ? copy(W_R, NW) : nullptr, wall ? copy(W_Z, NW) : nullptr, wall ? NW : 0);
}
static Setup make(bool full = true) { Setup s; data(s, full); build(s, true, true, false); return s; }
static double dist(double x, double y) { return sqrt(x * x + y * y); }

/* at any point of the grid, the field is that of the data */
extern "C" void h_eval() {
    Setup s = make();
    double x = sym_real("x"), y = sym_real("y"), z = sym_real_in("z", -1, 3), R = dist(x, y);
    sym_assume(R >= 1); sym_assume(R <= 4);
    double *B = s.mf->Eval(x, y, z), br = s.at(BR, R, z), bp = s.at(BP, R, z), v[3];
    for (int i = 0; i < 3; i++) v[i] = B[i];
    SYM_EQ(v[0], (br * x - bp * y) / R, "field at a point of the grid"); SYM_EQ(v[1], (br * y + bp * x) / R, "field at a point of the grid"); SYM_EQ(v[2], s.at(BZ, R, z), "field at a point of the grid");
    double p[3] = {x, y, z}, *w = s.mf->Eval(p);
    for (int i = 0; i < 3; i++) SYM_EQ(w[i], v[i], "all forms of asking agree");
    SYM_ASSERT(s.mf->HasMagneticFlux(), "a field with flux data has a flux");
    SYM_EQ(s.mf->EvalFlux(x, y, z), s.at(PSI, R, z), "flux at a point of the grid");
    struct flux_diff *f = s.mf->EvalFluxDerivatives(x, y, z);
    SYM_EQ(f->psi, s.at(PSI, R, z), "flux at a point of the grid");
    SYM_EQ(f->dpsi_dR, s.c[PSI][1] + s.c[PSI][3] * z, "derivatives of the flux"); SYM_EQ(f->dpsi_dZ, s.c[PSI][2] + s.c[PSI][3] * R, "derivatives of the flux");
    sym_reach("end");
}
/* elsewhere, that of the nearest point of the grid in the same toroidal direction */
extern "C" void h_outside() {
    Setup s = make();
    static const double U[][2] = {{1, 0}, {0, -1}, {-0.6, 0.8}};
    const double *u = U[sym_choice("direction", 3)];
    double R = sym_real("R"), z = sym_real("z"), x = R * u[0], y = R * u[1];
    sym_assume(R > 0);
    double r = R < 1 ? 1 : R > 4 ? 4 : R, w = z < -1 ? -1 : z > 3 ? 3 : z, br = s.at(BR, r, w), bp = s.at(BP, r, w);
    double E[3] = {br * u[0] - bp * u[1], br * u[1] + bp * u[0], s.at(BZ, r, w)};
    double *B = s.mf->Eval(x, y, z);
    for (int i = 0; i < 3; i++) SYM_EQ(B[i], E[i], "outside the grid the field is that of the nearest point of the grid");
    SYM_EQ(s.mf->EvalFlux(x, y, z), s.at(PSI, r, w), "outside the grid the flux is that of the nearest point of the grid");
    SYM_EQ(s.mf->EvalFluxDerivatives(x, y, z)->psi, s.at(PSI, r, w), "outside the grid the flux is that of the nearest point of the grid");
    sym_reach(R < 1 || R > 4 || z < -1 || z > 3 ? "out" : "in");
}
/* derivatives belong to the field */
extern "C" void h_jac() {
    Setup s = make();
    double x = sym_real("x"), y = sym_real("y"), z = sym_real_in("z", -1, 3), R = dist(x, y);
    sym_assume(R > 1); sym_assume(R < 4);
#ifdef VERIF_NATIVE
    sym_assume(z > -1 + H && z < 3 - H && R > 1 + H && R < 4 - H);
#endif
    auto bx = [&]() { double R = dist(x, y); return (s.at(BR, R, z) * x - s.at(BP, R, z) * y) / R; };
    auto by = [&]() { double R = dist(x, y); return (s.at(BR, R, z) * y + s.at(BP, R, z) * x) / R; };
    auto bz = [&]() { double R = dist(x, y); return s.at(BZ, R, z); };
    double B[3] = {bx(), by(), bz()};
    double D[3][3] = {{DF(bx(), x), DF(bx(), y), DF(bx(), z)}, {DF(by(), x), DF(by(), y), DF(by(), z)}, {DF(bz(), x), DF(bz(), y), DF(bz(), z)}};
    sym_assume(B[2] > 0); sym_assume(B[2] > fabs(B[0])); sym_assume(B[2] > fabs(B[1]));
    struct magnetic_field_data &m = s.mf->EvalDerivatives(x, y, z);
    for (int i = 0; i < 3; i++) {
        SYM_EQ(m.B[i], B[i], "derivatives come with the field of the same point");
        for (int j = 0; j < 3; j++) SAME(m.J[i][j], D[i][j], "Jacobian is the derivative of the field");
    }
    SAME(m.curlB[0], D[2][1] - D[1][2], "curl of the field"); SAME(m.curlB[1], D[0][2] - D[2][0], "curl of the field"); SAME(m.curlB[2], D[1][0] - D[0][1], "curl of the field");
    sym_reach("end");
}
/* strength and its gradient, for every field vector and any derivatives at one point */
extern "C" void h_strength() {
    Setup s; data(s, true); build(s, false, true, false);
    static const double U[][3] = {{2.5, 0, 0.5}, {-1.2, 1.6, 2}, {0, -3, 0}};
    const double *u = U[sym_choice("point", 3)];
    struct magnetic_field_data &m = s.mf->EvalDerivatives(u[0], u[1], u[2]);
    double s2 = 0;
    for (int i = 0; i < 3; i++) s2 += m.B[i] * m.B[i];
    sym_assume(s2 > 0);
    SYM_ASSERT(m.Babs >= 0, "field strength is not negative");
    SYM_EQ(m.Babs * m.Babs, s2, "field strength is the length of the field");
    for (int j = 0; j < 3; j++) SYM_EQ(m.gradB[j] * m.Babs, m.B[0] * m.J[0][j] + m.B[1] * m.J[1][j] + m.B[2] * m.J[2][j], "gradient of the field strength");
    bool no = false;
    try { s.mf->EvalFlux(u[0], u[1], u[2]); } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(no && !s.mf->HasMagneticFlux(), "without flux data there is no flux");
    no = false;
    try { s.mf->EvalFluxDerivatives(u[0], u[1], u[2]); } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(no, "without flux data there is no flux");
    sym_reach("end");
}
#include "forms.h"
extern "C" void h_forms() {
    Setup s; data(s, false); build(s, sym_choice("flux", 2), true, false);
    static const double U[][3] = {{2.5, 0, 0.5}, {-1.2, 1.6, 2}, {0, -3, 0}};
    const double *u = U[sym_choice("point", 3)];
    double *B = s.mf->Eval(u[0], u[1], u[2]); sym_assume(B[2] > 0);
    forms(s.mf, u[0], u[1], u[2], s.psi);
    sym_reach("end");
}
/* the same data, wall, separatrix, axis and names */
static void contour(const double *r, const double *z, unsigned n, const double *R, const double *Z, unsigned N, const char *l) {
    SYM_ASSERT(n == N, l);
    for (unsigned i = 0; i < N; i++) SYM_ASSERT(r[i] == R[i] && z[i] == Z[i], l);
}
static void is(const Setup &s, MagneticFieldNumeric2D *m, const char *l) {
    SYM_ASSERT(m->name == "the name" && m->description == "the description", l);
    SYM_ASSERT(m->GetMagneticAxisR() == 2.25 && m->GetMagneticAxisZ() == 0.5, l);
    SYM_ASSERT(m->HasMagneticFlux() == s.psi, l);
    if (s.wall) contour(m->GetRDomain(), m->GetZDomain(), m->GetNDomain(), W_R, W_Z, NW, l);
    else contour(m->GetRDomain(), m->GetZDomain(), m->GetNDomain(), S_R, S_Z, NS, l);
    if (s.sep) contour(m->GetRSeparatrix(), m->GetZSeparatrix(), m->GetNSeparatrix(), S_R, S_Z, NS, l);
    else SYM_ASSERT(m->GetNSeparatrix() == 0, l);
    for (unsigned j = 0; j < NZ; j++) for (unsigned i = 0; i < NR; i++) {
        double *B = m->Eval(GR[i], 0, GZ[j]);
        SYM_EQ(B[0], s.at(BR, GR[i], GZ[j]), l); SYM_EQ(B[1], s.at(BP, GR[i], GZ[j]), l); SYM_EQ(B[2], s.at(BZ, GR[i], GZ[j]), l);
        if (s.psi) SYM_EQ(m->EvalFlux(GR[i], 0, GZ[j]), s.at(PSI, GR[i], GZ[j]), l);
    }
    /* the allowed radii are those of the separatrix where there is one */
    if (s.sep) { SYM_EQ(m->FindMinRadius(), 2 + 1.0 / 6, l); SYM_EQ(m->FindMaxRadius(), 3 - 1.0 / 6, l); }
    else { SYM_EQ(m->FindMinRadius(), 1.5, l); SYM_EQ(m->FindMaxRadius(), 3.5, l); }
    double a, b;
    SYM_EQ(a = m->GetMaxRadius(), m->FindMaxRadius(), l); SYM_EQ(b = m->GetMinRadius(), m->FindMinRadius(), l);
}
static Setup any() {
    Setup s; data(s, true);
    unsigned k = sym_choice("kind", 3);
    build(s, sym_choice("flux", 2), k != 0, k != 1);
    return s;
}
extern "C" void h_clone() {
    Setup s = any();
    is(s, s.mf, "the field is what was handed in");
    MagneticFieldNumeric2D *c = s.mf->Clone();
    is(s, c, "a copy is the same field");
    delete s.mf;
    is(s, c, "a copy is independent");
    delete c;
    sym_reach("end");
}
extern "C" void h_nowall() {
    Setup s; data(s, false);
    bool no = false;
    unsigned w = sym_choice("what", 9), a = w % 3, b = w / 3;    /* of wall and separatrix, nothing, only the radii or only the heights */
    try {
        new MagneticFieldNumeric2D("n", "d", copy(GR, NR), copy(GZ, NZ), NR, NZ, grid(s, BR), grid(s, BP), grid(s, BZ), nullptr, 2.25, 0.5, b == 1 ? copy(S_R, NS) : nullptr, b == 2 ? copy(S_Z, NS) : nullptr, b ? NS : 0,
                                   a == 1 ? copy(W_R, NW) : nullptr, a == 2 ? copy(W_Z, NW) : nullptr, a ? NW : 0);
    } catch (SOFTLibException &) { no = true; }
    SYM_ASSERT(no, "a field needs a wall or a separatrix");
    sym_reach("end");
}
/* files */
static const char *FN[3] = {"m.h5", "m.mat", "m.sdt"};
extern "C" void h_save() {
    Setup s = any();
    const char *fn = FN[sym_choice("format", 2)];
    s.mf->Save(fn);
    MagneticFieldNumeric2D *m = sym_choice("form", 2) ? new MagneticFieldNumeric2D(fn) : new MagneticFieldNumeric2D(fn, SFile::TypeOfFile(fn));
    is(s, m, "a saved field is read back");
    delete m;
    sym_reach("end");
}
static double **rows(double *a, unsigned r, unsigned c) { double **p = new double *[r]; for (unsigned i = 0; i < r; i++) p[i] = a + i * c; return p; }
static void put(SFile *f, const char *n, double *a, unsigned r, unsigned c, bool t) {
    if (!t) { f->WriteArray(n, rows(a, r, c), r, c); return; }
    double *b = new double[r * c];
    for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) b[j * r + i] = a[i * c + j];
    f->WriteArray(n, rows(b, c, r), c, r);
}
/* a file of other origin: either orientation, with or without check values; and what is refused */
enum { GOOD, AXIS, SHAPE_R, SHAPE_P, SHAPE_Z, SHAPE_PSI, SHAPE_W, SHAPE_S, VER_R, VER_P, VER_Z, VERLONG, NOWALL, MISSING, NCASE };
extern "C" void h_file() {
    unsigned bad = sym_choice("case", NCASE);
    Setup s; data(s, bad == GOOD);
    bool t = bad == GOOD && sym_choice("transposed", 2), tw = bad == GOOD && sym_choice("turned", 2);
    unsigned k = bad == GOOD ? sym_choice("kind", 3) : 2;
    s.psi = bad == GOOD ? sym_choice("flux", 2) : 1;
    s.wall = k != 0; s.sep = k != 1;
    const char *fn = FN[bad == GOOD ? sym_choice("format", 3) : 0];
    SFile *f = SFile::Create(fn, SFILE_MODE_WRITE);
    double ax[3] = {2.25, 0.5, 1}, r[NR], z[NZ];
    f->WriteString("name", "the name"); f->WriteString("desc", "the description");
    f->WriteList("maxis", ax, bad == AXIS ? 3 : 2);
    f->WriteList("r", copy(GR, NR), NR); f->WriteList("z", copy(GZ, NZ), NZ);
    double *b[4]; for (int i = 0; i < 4; i++) b[i] = grid(s, i);
    put(f, "Br", b[BR], bad == SHAPE_R ? NR : NZ, NR, t);
    if (bad != MISSING) put(f, "Bphi", b[BP], bad == SHAPE_P ? NZ - 1 : NZ, bad == SHAPE_P ? NR - 1 : NR, t);
    put(f, "Bz", b[BZ], bad == SHAPE_Z ? 2 : NZ, bad == SHAPE_Z ? 6 : NR, t);
    if (s.psi) put(f, "Psi", b[PSI], bad == SHAPE_PSI ? NR : NZ, NR, t);
    double d = sym_real("difference");
    sym_assume(d != 0);
    if (bad == GOOD ? sym_choice("checks", 2) : (bad >= VER_R && bad <= VERLONG)) {
        double v[3][NR + 1];
        for (int c = 0; c < 3; c++) for (unsigned i = 0; i < NR; i++) v[c][i] = b[c][i];
        unsigned at = bad == GOOD || bad == VERLONG ? 0 : sym_choice("where", NR);
        v[0][NR] = v[1][NR] = v[2][NR] = 0;
        if (bad >= VER_R && bad <= VER_Z) v[bad - VER_R][at] += d;
        f->WriteList("verBr", v[0], NR); f->WriteList("verBphi", v[1], bad == VERLONG ? NR + 1 : NR); f->WriteList("verBz", v[2], bad == GOOD ? 2 : NR);
    }
    double w[2 * NW], e[2 * NS];
    for (unsigned i = 0; i < NW; i++) { w[i] = W_R[i]; w[NW + i] = W_Z[i]; }
    for (unsigned i = 0; i < NS; i++) { e[i] = S_R[i]; e[NS + i] = S_Z[i]; }
    if (bad != NOWALL) {
        if (bad == SHAPE_W) put(f, "wall", w, NW, 1, false); else if (s.wall) put(f, "wall", w, 2, NW, tw);
        if (bad == SHAPE_S) put(f, "separatrix", e, NS, 1, false); else if (s.sep) put(f, "separatrix", e, 2, NS, tw);
    }
    f->Close(); delete f;
    MagneticFieldNumeric2D *m = nullptr;
    try { m = new MagneticFieldNumeric2D(fn); } catch (SOFTLibException &) {}
    if (bad != GOOD) { SYM_ASSERT(m == nullptr, "a file which is not a magnetic field is refused"); sym_reach("refused"); }
    else { SYM_ASSERT(m != nullptr, "a magnetic field file is accepted"); is(s, m, "a field is read as it is in the file"); sym_reach("read"); }
}

/* ---- equilibria of LUKE ---- */
#include <softlib/MagneticField/MagneticFieldLUKE.h>
#define LX 3
#define LY 4
#define MP 4
#define MT 5
enum { L_GOOD, L_PSI, L_BX, L_BY, L_BPHI, L_PTX, L_PTY, L_WALL, L_MISSING, LCASE };
extern "C" void h_luke() {
    static const double X[LX] = {-0.5, 0.5, 1}, Y[LY] = {-1, 0.25, 1.5, 2}, PA[3] = {0, -1, -4}, PB[4] = {0, -1, -3, -4}, TA[5] = {0, 1.5, 3, 4.5, 7}, TB[3] = {0, 3, 7};
    static const double SX[MT] = {1, -1, -1, 0, 1}, SY[MT] = {-1, 1, 0, -1, 0};
    static const double CX[] = {2, 4, 4, 2, 2}, CY[] = {-1, -1, 2, 2, -1};
    static const char *EN[2] = {"e.h5", "e.mat"};
    unsigned bad = sym_choice("case", LCASE), form = bad == L_GOOD ? sym_choice("form", 5) : bad == L_WALL ? 2 : 0;
    /* more angles than flux surfaces, and the other way round */
    bool few = form == 1; const double *PG = few ? PB : PA, *TG = few ? TB : TA; const unsigned LP = few ? 4 : 3, LT = few ? 3 : 5;
    const char *fn = EN[bad == L_GOOD && form < 1 ? sym_choice("format", 2) : 0];
    double Rp = 3, Zp = 0.5, psia = sym_real("psia"), c[3][4], pn[LY][LX], v[3][MT*MP], px[MT*MP], py[MT*MP];
    for (int k = 0; k < 3; k++) for (int m = 0; m < 4; m++) c[k][m] = bad == L_GOOD ? sym_real("c") : k + m;
    for (unsigned j = 0; j < LY; j++) for (unsigned i = 0; i < LX; i++) pn[j][i] = (i + 2.0 * j) / 8;
    if (bad == L_GOOD) { pn[1][2] = sym_real("p"); pn[3][0] = sym_real("q"); }
    auto at = [&](int k, double p, double t) { return c[k][0] + c[k][1] * p + c[k][2] * t + c[k][3] * p * t; };
    for (unsigned j = 0; j < LT; j++) for (unsigned i = 0; i < LP; i++) {
        for (int k = 0; k < 3; k++) v[k][j * LP + i] = at(k, PG[i] / PG[LP - 1], TG[j]);
        px[j * LP + i] = i == LP - 1 ? SX[j] : 10.0 + i; py[j * LP + i] = i == LP - 1 ? SY[j] : 20.0 + i;
    }
    SFile *f = SFile::Create(fn, SFILE_MODE_WRITE);
    f->CreateStruct("equil"); f->CreateStruct("equil/eqdsk");
    f->WriteString("equil/id", "the name"); f->WriteScalar("equil/Rp", Rp); f->WriteScalar("equil/Zp", Zp);
    f->WriteList("equil/eqdsk/x", copy(X, LX), LX); f->WriteList("equil/eqdsk/y", copy(Y, LY), LY);
    if (bad == L_PSI) put(f, "equil/eqdsk/xypsin", pn[0], LX, LY, false); else put(f, "equil/eqdsk/xypsin", pn[0], LY, LX, false);
    if (bad != L_MISSING) f->WriteScalar("equil/eqdsk/psia", psia);
    f->WriteList("equil/psi_apRp", copy(PG, LP), LP); f->WriteList("equil/theta", copy(TG, LT), LT);
    put(f, "equil/ptBx", v[0], LT, LP, bad == L_BX); put(f, "equil/ptBy", v[1], LT, LP, bad == L_BY); put(f, "equil/ptBPHI", v[2], LT, LP, bad == L_BPHI);
    put(f, "equil/ptx", px, LT, LP, bad == L_PTX); put(f, "equil/pty", py, LT, LP, bad == L_PTY);
    f->Close(); delete f;
    bool wall = form >= 2;
    if (wall) {
        double w[10]; for (unsigned i = 0; i < 5; i++) { w[i] = CX[i]; w[5 + i] = CY[i]; }
        SFile *g = SFile::Create("w.sdt", SFILE_MODE_WRITE);
        if (bad == L_WALL) put(g, "wall", w, 3, 3, false); else put(g, "wall", w, 2, 5, form == 3);
        g->Close(); delete g;
    }
    MagneticFieldLUKE *m = nullptr;
    try {
        enum sfile_type t = SFile::TypeOfFile(fn);
        switch (form) {
            case 0: m = new MagneticFieldLUKE(fn); break;
            case 1: m = new MagneticFieldLUKE(fn, t); break;
            case 2: m = new MagneticFieldLUKE(fn, string("w.sdt")); break;
            case 3: m = new MagneticFieldLUKE(fn, t, string("w.sdt")); break;
            default: m = new MagneticFieldLUKE(fn, t, string("w.sdt"), SFILE_TYPE_SDT); break;
        }
    } catch (SOFTLibException &) {}
    if (bad != L_GOOD) { SYM_ASSERT(m == nullptr, "a file which is not an equilibrium is refused"); sym_reach("refused"); return; }
    SYM_ASSERT(m != nullptr, "an equilibrium file is accepted");
    SYM_ASSERT(m->name == "the name", "an equilibrium has its name");
    SYM_ASSERT(m->GetMagneticAxisR() == Rp && m->GetMagneticAxisZ() == Zp, "an equilibrium has its axis");
    SYM_ASSERT(m->HasMagneticFlux(), "an equilibrium has a flux");
    double sr[MT], sz[MT];
    for (unsigned i = 0; i < LT; i++) { sr[i] = SX[i] + Rp; sz[i] = SY[i] + Zp; }
    contour(m->GetRSeparatrix(), m->GetZSeparatrix(), m->GetNSeparatrix(), sr, sz, LT, "the separatrix is the last flux surface");
    if (wall) contour(m->GetRDomain(), m->GetZDomain(), m->GetNDomain(), CX, CY, 5, "the wall is the one in the wall file");
    else contour(m->GetRDomain(), m->GetZDomain(), m->GetNDomain(), sr, sz, LT, "without a wall the domain is the separatrix");
    for (unsigned j = 0; j < LY; j++) for (unsigned i = 0; i < LX; i++) {
        double t = atan2(Y[j], X[i]), p = fabs(pn[j][i]), *B = m->Eval(Rp + X[i], 0, Zp + Y[j]);
        if (t < 0) t = 2.0 * M_PI + t;
        SYM_EQ(B[0], at(0, p, t), "the field at a node is that at its flux and angle"); SYM_EQ(B[1], at(2, p, t), "the field at a node is that at its flux and angle"); SYM_EQ(B[2], at(1, p, t), "the field at a node is that at its flux and angle");
        SYM_EQ(m->EvalFlux(Rp + X[i], 0, Zp + Y[j]), psia * pn[j][i], "the flux at a node is the normalised one times that of the last surface");
    }
    delete m;
    sym_reach("read");
}
