/* Integration of a peaked function: trapezoidal sums out from the maximum. */
#include <cmath>
#include <functional>
#include <softlib/Integration/PeakedIntegration.h>
#include <softlib/SOFTLibException.h>
#include "sym.h"
#ifndef STEPS
#define STEPS 3
#endif
/* an arbitrary function: values by offset from the start, asked for at most STEPS away */
static double A, B, M, H, FP[STEPS + 2], FM[STEPS + 2], F0;
static int N, outside;
static double fun(double x) {
    sym_assume(N++ < 4 * STEPS);
    if (x < A || x > B) outside = 1;
    double d = x - M;
    if (d == 0) return F0;
    for (int i = 1; i <= STEPS; i++) {
        if (d == i * H) return FP[i];
        if (d == -i * H) return FM[i];
    }
    sym_assume(0);
    return 0;
}
/* The peak is where the caller says: no re-centring. */
extern "C" void h_sum() {
    A = sym_real("a"); B = sym_real("b"); M = sym_real("m"); H = sym_real("h");
    sym_assume(H > 0 && A <= M && M <= B);
    double cut = sym_real_in("cut", 0, 1);
    F0 = sym_real("f0"); sym_assume(F0 > 0);
    for (int i = 1; i <= STEPS; i++) { FP[i] = sym_real("fp"); FM[i] = sym_real("fm"); sym_assume(FP[i] >= 0 && FM[i] >= 0 && FP[i] <= F0 && FM[i] <= F0); }
    N = 0; outside = 0;
    PeakedIntegration I;
    std::function<double(double)> f(fun);
    double r = I.Evaluate(f, A, B, H, cut, M, F0);
    SYM_ASSERT(!outside, "the function is only evaluated between the limits");
    /* trapezoids of width h, both ways, until both ends are below the cutoff */
    double s = F0;
    int i = 1;
    double p, m;
    while (true) {
        p = (M + i * H < B) ? FP[i] : 0; m = (M - i * H > A) ? FM[i] : 0;
        if (!(p > F0 * cut || m > F0 * cut)) break;
        s = s + p + m;
        i++;
        sym_assume(i <= STEPS);
    }
    s = s + 0.5 * (p + m);
    SYM_EQ(r, H * s, "the integral is the trapezoidal sum out from the peak");
    sym_reach("end");
    if (i > 1) sym_reach("wide");
}
/* a better peak found on the way becomes the centre */
extern "C" void h_recentre() {
    A = 0; B = 100; M = 50; H = sym_real_in("h", 0.5, 2);
    F0 = sym_real("f0"); sym_assume(F0 > 0);
    double c = sym_real("c"); sym_assume(c > F0);
    for (int i = 1; i <= STEPS; i++) { FP[i] = 0; FM[i] = 0; }
    unsigned up = sym_choice("up", 2);
    if (up) FP[1] = c; else FM[1] = c;
    N = 0; outside = 0;
    PeakedIntegration I; std::function<double(double)> f(fun);
    double cut = sym_real("cut"); sym_assume(cut > 0 && cut < 1);
    double r = I.Evaluate(f, A, B, H, cut, M, F0);
    if (F0 > cut * c) SYM_EQ(r, H * (c + F0), "a larger value found on the way becomes the centre of the sum");
    else SYM_EQ(r, H * (c + 0.5 * F0), "a larger value found on the way becomes the centre of the sum");
    sym_reach("end");
}
/* a zero step is refused */
extern "C" void h_zero() {
    PeakedIntegration I; std::function<double(double)> f([](double) { return 1.0; });
    bool threw = false;
    try { I.Evaluate(f, 0, 1, 0, 0.5, 0.5, 1); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw, "a zero fall-off is refused");
    sym_reach("end");
}
/* the maximum of a peaked function is found */
#ifndef TOL
#define TOL 0.5
#endif
static double P; static int skew;
extern "C" void h_max() {
    P = sym_real_in("p", 0, 2 * M_PI);
    double lw = sym_real_in("left", 0.25, 4);
    PeakedIntegration I; std::function<double(double)> f([lw](double x) { return x < P ? lw * (x - P) : P - x; });
    double x = I.FindMaximum(f, TOL);
    SYM_ASSERT(x - P <= TOL && P - x <= TOL, "the maximum is located to the tolerance");
    sym_reach("end");
}
/* without a given maximum the located one is used */
static double fun2(double x) { double d = x - 2.5; double v = 1 - d * d; return v > 0 ? v : 0; }
extern "C" void h_auto() {
    PeakedIntegration I; std::function<double(double)> f(fun2);
    double cut = sym_real_in("cut", 0.1, 0.2), h = 0.75;
    double m = I.FindMaximum(f);
    SYM_EQ(I.Evaluate(f, 0, 6, h, cut), I.Evaluate(f, 0, 6, h, cut, m, fun2(m)), "the located maximum is the centre");
    sym_reach("end");
}
