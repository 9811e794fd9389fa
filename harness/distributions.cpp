/* Analytic momentum-space distributions, radial profiles and their products. */
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <gsl/gsl_sf_bessel.h>
#include <softlib/config.h>
#include <softlib/constants.h>
#include <softlib/SOFTLibException.h>
#include <softlib/DistributionFunction/AnalyticalAvalanche.h>
#include <softlib/DistributionFunction/BesselRadialProfile.h>
#include <softlib/DistributionFunction/ConnorHastieDistribution.h>
#include <softlib/DistributionFunction/ExponentialPitch.h>
#include <softlib/DistributionFunction/GaussianRadialProfile.h>
#include <softlib/DistributionFunction/LinearRadialProfile.h>
#include <softlib/DistributionFunction/PowerRadialProfile.h>
#include <softlib/DistributionFunction/RadialDistributionFunction.h>
#include <softlib/DistributionFunction/UniformRadialProfile.h>
#include <softlib/DistributionFunction/UnitDistributionFunction.h>
#include "sym.h"

static double pos(const char *n) { double x = sym_real(n); sym_assume(x > 0); return x; }
static double ab(double x) { return x < 0 ? -x : x; }
static double pitch() { return sym_real_in("xi", -1, 1); }

/* the four-argument form and a clone give the same number */
static void clones(MomentumSpaceDistributionFunction *f, double p, double xi, double want) {
    double v = f->Eval(p, xi);
    SYM_EQ(v, want, "distribution follows its formula");
    double r = sym_real("r"), ds = sym_real("ds");
    SYM_EQ(f->Eval(r, p, xi, ds), want, "value does not depend on radius or drift shift");
    MomentumSpaceDistributionFunction *c = f->MinClone();
    SYM_ASSERT(c != f, "a clone is another object");
    SYM_EQ(c->Eval(p, xi), want, "clone evaluates like the original");
    DistributionFunction *d = f;
    SYM_EQ(d->Eval(r, p, xi), want, "value through the base class");
    sym_reach("end");
}

extern "C" void h_avalanche() {
    double E = pos("EHat"), L = pos("lnLambda"), Z = pos("Zeff"), p = pos("p"), xi = pitch();
    AnalyticalAvalanche a(E, L, Z), b;
    AnalyticalAvalanche *f = &a;
    if (sym_choice("ctor", 2)) { b.Initialize(E, L, Z); f = &b; }
    double g = sqrt(p * p + 1), A = (E + 1) / (Z + 1) * g, g0 = L * sqrt(Z + 5);
    double want = ELECTRON_MASS * LIGHTSPEED * A / (2 * PI * g0 * p * p) * exp(-g / g0 - A * (1 - ab(xi))) / (1 - exp(-2 * A));
    clones(f, p, xi, want);
    SYM_EQ(f->Eval(p, -xi), f->Eval(p, xi), "symmetric in the sign of the pitch");
}
extern "C" void h_connor() {
    double E = pos("EHat"), Z = pos("Zeff"), p = pos("p"), xi = pitch();
    sym_assume(xi != 0);
    double pm = sym_real("pMax"), dp = sym_real("deltaP");
    unsigned c = sym_choice("ctor", 3);
    ConnorHastieDistribution x;
    if (c == 2) { x = ConnorHastieDistribution(E, Z); pm = 0; dp = 0; }
    else if (c == 1) x = ConnorHastieDistribution(E, Z, pm, dp);
    else x.Initialize(E, Z, pm, dp);
    double D = (E + 1) / (2 * (Z + 1)), q = ab(xi);
    double del = 0;
    if (dp != 0 && p >= pm) { del = (p - pm) / dp; sym_reach("cutoff"); }
    double want = 1 / (p * q) * exp(-D * p * (1 - xi * xi) / q - del * del);
    clones(&x, p, xi, want);
    SYM_EQ(x.Eval(p, -xi), x.Eval(p, xi), "symmetric in the sign of the pitch");
}
extern "C" void h_exppitch() {
    double C = sym_real("C"), p = sym_real("p"), xi = pitch();
    ExponentialPitch a(C), b;
    ExponentialPitch *f = &a;
    if (sym_choice("ctor", 2)) { b.Initialize(C); f = &b; }
    clones(f, p, xi, exp(C * ab(xi)));
    SYM_EQ(f->Eval(p, -xi), f->Eval(p, xi), "symmetric in the sign of the pitch");
}
extern "C" void h_unit() {
    UnitDistributionFunction u;
    clones(&u, sym_real("p"), sym_real("xi"), 1);
}

/* re-initialising replaces every parameter */
extern "C" void h_reinit() {
    double E = pos("EHat"), L = pos("lnLambda"), Z = pos("Zeff"), p = pos("p"), xi = pitch();
    AnalyticalAvalanche a(3, 17, 1), b(E, L, Z);
    a.Initialize(E, L, Z);
    SYM_EQ(a.Eval(p, xi), b.Eval(p, xi), "initialising again replaces every parameter");
    sym_assume(xi != 0);
    ConnorHastieDistribution c(3, 1, 2, 4), d(E, Z, 1, 7);
    c.Initialize(E, Z, 1, 7);
    SYM_EQ(c.Eval(p, xi), d.Eval(p, xi), "initialising again replaces every parameter");
    sym_reach("end");
}

/* ---------------- radial profiles */
static void profile(RadialProfile *f, double r, double ds, double want) {
    SYM_EQ(f->Eval(r, ds), want, "profile follows its formula inside and is zero outside");
    RadialProfile *c = f->MinClone();
    SYM_ASSERT(c != f, "a clone is another object");
    SYM_EQ(c->Eval(r, ds), want, "clone of a profile evaluates like the original");
    sym_reach("end");
}
#define BOX double r0 = sym_real("rmin"), r1 = sym_real("rmax"), r = sym_real("r"), ds = sym_real("ds"), rho = r - ds; \
    sym_assume(r0 < r1); bool in = rho >= r0 && rho < r1; if (in) sym_reach("inside"); else sym_reach("outside");
extern "C" void h_rlinear() {
    BOX
    LinearRadialProfile f(r0, r1);
    double v = in ? (r1 - rho) / (r1 - r0) : 0;
    profile(&f, r, ds, v);
    double y = f.Eval(r, ds);
    SYM_ASSERT(y >= 0 && y <= 1, "linear profile lies in [0,1]");
    if (in) { double s2 = sym_real("s2"); sym_assume(s2 > rho && s2 < r1); SYM_ASSERT(f.Eval(s2, 0) < y, "linear profile decreases"); }
    SYM_EQ(f.Eval(r0), 1, "linear profile starts at one");
}
extern "C" void h_rpower() {
    BOX
    unsigned k = sym_choice("b", 4);
    double b = k == 3 ? pos("bexp") : (double)(k + 1);
    PowerRadialProfile f(r0, r1, b);
    profile(&f, r, ds, in ? 1 - pow((rho - r0) / (r1 - r0), b) : 0);
}
extern "C" void h_rgauss() {
    BOX
    double a = pos("a"), b = pos("b"), c = pos("c");
    GaussianRadialProfile f(r0, r1, a, b, c);
    double t = (rho - b) / c;
    profile(&f, r, ds, in ? a * exp(-(t * t)) : 0);
}
extern "C" void h_rbessel() {
    BOX
    BesselRadialProfile f(r0, r1);
    profile(&f, r, ds, in ? gsl_sf_bessel_J0(2.40482555769577 * (rho - r0) / (r1 - r0)) : 0);
}
extern "C" void h_runiform() {
    UniformRadialProfile f;
    profile(&f, sym_real("r"), sym_real("ds"), 1);
}
/* bad parameters are refused */
extern "C" void h_rreject() {
    double r0 = sym_real("rmin"), r1 = sym_real("rmax"), a = sym_real("a"), b = sym_real("b"), c = sym_real("c");
    unsigned k = sym_choice("which", 4);
    bool ok = r0 < r1, threw = false;
    if (k == 3) ok = ok && a > 0 && b > 0 && c > 0;
    RadialProfile *f = nullptr;
    try {
        if (k == 0) f = new LinearRadialProfile(r0, r1);
        else if (k == 1) f = new PowerRadialProfile(r0, r1, b);
        else if (k == 2) f = new BesselRadialProfile(r0, r1);
        else f = new GaussianRadialProfile(r0, r1, a, b, c);
    } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw == !ok, "a profile is refused exactly when its interval or shape is invalid");
    sym_reach(threw ? "refused" : "accepted");
}

/* ---------------- product of profile and momentum-space distribution */
class AnyRadial : public RadialProfile { public: long k; AnyRadial(long k) : k(k) {}
    double Eval(const double r, const double d) override { return sym_uf("rp", 0, r, d); }
    RadialProfile *MinClone() override { return new AnyRadial(k + 1); } };
class AnyMomentum : public MomentumSpaceDistributionFunction { public: long k; AnyMomentum(long k) : k(k) {}
    using MomentumSpaceDistributionFunction::Eval;
    double Eval(const double p, const double xi) override { return sym_uf("ms", 0, p, xi); }
    MomentumSpaceDistributionFunction *MinClone() override { return new AnyMomentum(k + 1); } };
extern "C" void h_product() {
    double r = sym_real("r"), p = sym_real("p"), xi = sym_real("xi"), ds = sym_real("ds");
    AnyRadial rp(0); AnyMomentum ms(0);
    double m = sym_uf("ms", 0, p, xi), w = sym_uf("rp", 0, r, ds) * m, w0 = sym_uf("rp", 0, r, 0) * m;
    RadialDistributionFunction a(&rp, &ms), b;
    b.Initialize(&rp, &ms);
    SYM_EQ(a.Eval(r, p, xi, ds), w, "radial distribution is profile times momentum distribution");
    SYM_EQ(b.Eval(r, p, xi, ds), w, "radial distribution is profile times momentum distribution");
    SYM_EQ(a.Eval(r, p, xi), w0, "drift shift defaults to zero");
    RadialDistributionFunction *c = a.MinClone(), *d = ms.ToRadialDistribution(), *e = ms.ToRadialDistribution(&rp);
    SYM_EQ(c->Eval(r, p, xi, ds), w, "clone evaluates like the original");
    SYM_EQ(d->Eval(r, p, xi, ds), m, "without a profile the distribution is radially uniform");
    SYM_EQ(e->Eval(r, p, xi, ds), w, "the given profile modulates the distribution");
    sym_reach("end");
}
