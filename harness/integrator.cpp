/* Dormand-Prince integrator: one step, step-size control, dense output. */
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <vector>
#define RK_DEFAULT_TOLERANCE_ RK_DEFAULT_TOLERANCE
#include <softlib/config.h>
#include <softlib/RKDP45.h>
#include <softlib/GeneralEquation.h>
#include "sym.h"

#define NAT 6
#ifndef NDIM
#define NDIM 2
#endif
#ifndef STEPS
#define STEPS 2
#endif
#ifndef CALLS
#define CALLS 3
#endif

/* ------------------------------------------------ the published method */
static const double C[7] = {0, 1./5, 3./10, 4./5, 8./9, 1, 1};
static const double A[7][6] = {
    {0}, {1./5}, {3./40, 9./40}, {44./45, -56./15, 32./9},
    {19372./6561, -25360./2187, 64448./6561, -212./729},
    {9017./3168, -355./33, 46732./5247, 49./176, -5103./18656},
    {35./384, 0, 500./1113, 125./192, -2187./6784, 11./84}};
static const double B4[7] = {5179./57600, 0, 7571./16695, 393./640, -92097./339200, 187./2100, 1./40};

/* An arbitrary right-hand side: every evaluation returns fresh values and the
 * arguments are kept. */
template<unsigned N> class Any : public IntegratorEquation<N> {
public:
    unsigned n = 0;
    double t[64], y[64][N], k[64][N];
    Vector<N>& Evaluate(const double T, const Vector<N>& Y, Vector<N>& out) override {
        sym_assume(n < 64);
        t[n] = T;
        for (unsigned i = 0; i < N; i++) { y[n][i] = Y[i]; k[n][i] = sym_real("k"); out[i] = k[n][i]; }
        n++;
        return out;
    }
};

/* The integrator with its error estimate in view, or replaced by zero: then
 * every attempt is accepted and the step grows by the maximum scale factor. */
template<unsigned N> class Free : public RKDP45<N> {
public:
    bool zero = true, rising = false;
    Free(double tol = 1) : RKDP45<N>(tol) {}
    Vector<N>& InnerStep(const double T, const double hh, const Vector<N>& y, const Vector<N>& d) override {
        Vector<N> &r = RKDP45<N>::InnerStep(T, hh, y, d);
        if (zero) for (unsigned i = 0; i < N; i++) this->yerr[i] = 0;
        if (rising) for (unsigned i = 0; i < N; i++) sym_assume(y[i] >= 0 && r[i] > y[i]);
        return r;
    }
    Vector<N> &Err() { return this->yerr; }
    double Next() { double f = sym_real("f"); sym_assume(f > 0 && f < 1000); this->SetMaxScaleFactor(f); return this->Step(); }
};

/* Stages, result and error estimate of one attempt, for any equation. */
template<unsigned N> static void inner() {
    Any<N> eq;
    Free<N> rk(1e-3);
    rk.zero = false;
    rk.SetEquation(&eq);
    double T = sym_real("T"), h = sym_real("h");
    Vector<N> y, d;
    for (unsigned i = 0; i < N; i++) { y[i] = sym_real("y"); d[i] = sym_real("d"); }
    Vector<N> out = rk.InnerStep(T, h, y, d);
    SYM_ASSERT(eq.n == 6, "six new evaluations per attempt");
    double K[7][N];
    for (unsigned i = 0; i < N; i++) K[0][i] = d[i];
    for (unsigned s = 1; s < 7; s++) {
        SYM_EQ(eq.t[s - 1], T + C[s] * h, "stage time");
        for (unsigned i = 0; i < N; i++) {
            double want = y[i];
            for (unsigned j = 0; j < s; j++) want = want + h * A[s][j] * K[j][i];
            SYM_EQ(eq.y[s - 1][i], want, "stage argument");
            if (s == 6) SYM_EQ(out[i], want, "the step lands on the fifth-order solution");
            K[s][i] = eq.k[s - 1][i];
        }
    }
    Vector<N> e2 = rk.Err();
    for (unsigned i = 0; i < N; i++) {
        double e = 0;
        for (unsigned s = 0; s < 7; s++) e = e + h * ((s < 6 ? A[6][s] : 0) - B4[s]) * K[s][i];
        SYM_EQ(e2[i], e, "the error is the difference of the fifth and fourth order solutions");
    }
    sym_reach("end");
}
extern "C" void h_inner1() { inner<1>(); }
extern "C" void h_inner2() { inner<2>(); }

/* The size of the error */
template<unsigned N> static void norm() {
    Free<N> rk(0.25);
    Vector<N> y, z; double sum = 0, tol = 0.25;
    for (unsigned i = 0; i < N; i++) {
        y[i] = sym_real("y"); z[i] = sym_real("z"); double e = sym_real("e"); rk.Err()[i] = e;
        double a = y[i] < 0 ? -y[i] : y[i], b = z[i] < 0 ? -z[i] : z[i];
        double q = e / (tol + tol * (a > b ? a : b));
        sum = sum + q * q;
    }
    double err = rk.EstimateError(y, z);
    SYM_ASSERT(err >= 0, "error estimate is not negative");
    SYM_EQ(err * err * N, sum, "error estimate is the root mean square of the scaled errors");
    sym_reach("end");
}
extern "C" void h_norm1() { norm<1>(); }
extern "C" void h_norm2() { norm<2>(); }

/* A history of accepted and rejected attempts: what ends up stored. */
extern "C" void h_store() {
    const unsigned N = NDIM;
    Any<N> eq;
    Free<N> rk(1);
    rk.SetEquation(&eq);
    Vector<N> y0;
    for (unsigned i = 0; i < N; i++) y0[i] = sym_real("y0");
    SYM_ASSERT(rk.StepsTaken() == 0 && rk.LastSolution() == nullptr && rk.LastDerivative() == nullptr, "a new integrator is empty");
    SYM_EQ(rk.LastTime(), 0, "a new integrator is at time zero");
    if (sym_choice("used", 2)) {
        /* a used integrator starts over */
        Vector<N> z;
        rk.InitialValue(z);
        rk.Next();
    }
    rk.InitialValue(y0);
    SYM_ASSERT(rk.StepsTaken() == 1, "the initial value is the only stored point");
    SYM_EQ(rk.LastTime(), 0, "integration starts at time zero");
    SYM_EQ(eq.t[eq.n - 1], 0, "initial derivative is taken at time zero");
    double last[STEPS + 1][N], der[STEPS + 1][N], tm[STEPS + 1];
    tm[0] = 0;
    for (unsigned i = 0; i < N; i++) {
        SYM_EQ(rk.LastSolution()[i], y0[i], "the initial value is stored");
        SYM_EQ(rk.LastDerivative()[i], eq.k[eq.n - 1][i], "the initial derivative is stored");
        last[0][i] = y0[i]; der[0][i] = eq.k[eq.n - 1][i];
    }
    for (unsigned s = 1; s <= STEPS; s++) {
        unsigned before = eq.n;
        double t = rk.Next();
        SYM_ASSERT(eq.n == before + 6, "one attempt when the error is small");
        unsigned base = eq.n - 6;
        SYM_ASSERT(rk.StepsTaken() == s + 1, "one stored point per step");
        SYM_EQ(t, rk.LastTime(), "Step returns the new time");
        double h = t - tm[s - 1];
        SYM_ASSERT(h > 0, "time advances");
        for (unsigned i = 0; i < N; i++) {
            double w = last[s - 1][i] + h * (A[6][0] * der[s - 1][i] + A[6][2] * eq.k[base + 1][i] + A[6][3] * eq.k[base + 2][i] +
                       A[6][4] * eq.k[base + 3][i] + A[6][5] * eq.k[base + 4][i]);
            SYM_EQ(rk.LastSolution()[i], w, "the stored solution continues the previous one");
            SYM_EQ(eq.y[base + 5][i], w, "the new derivative is evaluated at the new solution");
            SYM_EQ(rk.LastDerivative()[i], eq.k[base + 5][i], "the stored derivative belongs to the stored solution");
            last[s][i] = w; der[s][i] = eq.k[base + 5][i];
        }
        tm[s] = t;
    }
    for (unsigned s = 0; s <= STEPS; s++) {
        SYM_EQ(rk.TimeAt(s), tm[s], "earlier times stay as stored");
        for (unsigned i = 0; i < N; i++) {
            SYM_EQ(rk.SolutionAt(s)[i], last[s][i], "earlier solutions stay as stored");
            SYM_EQ(rk.DerivativeAt(s)[i], der[s][i], "earlier derivatives stay as stored");
        }
    }
    sym_reach("end");
}

/* Order: y' = polynomial in t is integrated exactly. */
static double P[5];
template<int D> class Poly : public IntegratorEquation<1> {
public:
    Vector<1>& Evaluate(const double T, const Vector<1>&, Vector<1>& out) override {
        double s = 0, q = 1;
        for (int i = 0; i <= D; i++) { s = s + P[i] * q; q = q * T; }
        out[0] = s;
        return out;
    }
};
static double prim(double t, int D) { double s = 0, q = t; for (int i = 0; i <= D; i++) { s = s + P[i] * q / (i + 1); q = q * t; } return s; }
template<int D> static void quadrature() {
    for (int i = 0; i <= D; i++) P[i] = sym_real("c");
    Poly<D> eq; RKDP45<1> rk(1e-2);
    rk.SetEquation(&eq);
    double T = sym_real("T"), h = sym_real("h");
    Vector<1> y, d, dm;
    y[0] = sym_real("y");
    eq.Evaluate(T, y, d);
    Vector<1> o = rk.InnerStep(T, h, y, d);
    SYM_EQ(o[0] - y[0], prim(T + h, D) - prim(T, D), "polynomial right-hand sides of degree 4 are integrated exactly");
    if (D <= 3) SYM_EQ(rk.EstimateError(y, o), 0, "the error estimate vanishes where both orders are exact");
    sym_reach("end");
}
extern "C" void h_quad3() { quadrature<3>(); }
extern "C" void h_quad4() { quadrature<4>(); }

/* y' = L y: the step is the Taylor polynomial of exp(Lh) up to order 5 */
static double LAM;
class Lin : public IntegratorEquation<1> { public:
    Vector<1>& Evaluate(const double, const Vector<1>& y, Vector<1>& o) override { o[0] = LAM * y[0]; return o; } };
extern "C" void h_linear() {
    LAM = sym_real("L");
    Lin eq; RKDP45<1> rk; rk.SetEquation(&eq);
    double h = sym_real("h"); Vector<1> y, d; y[0] = sym_real("y");
    eq.Evaluate(0, y, d);
    Vector<1> o = rk.InnerStep(0, h, y, d);
    double z = LAM * h, r = o[0] - y[0] * (1 + z * (1 + z / 2 * (1 + z / 3 * (1 + z / 4 * (1 + z / 5)))));
    SYM_EQ(r * 600, y[0] * z * z * z * z * z * z, "linear equations are solved to fifth order");
    sym_reach("end");
}

/* the equation wrapper passes everything through */
static double seenT, seenY; static Vector<2> wout;
static Vector<2>& F1(const double t, const Vector<2>& y, Vector<2>& o) { seenT = t; seenY = y[1]; o[0] = 3; o[1] = y[0]; return o; }
static Vector<2>& F2(const double t, const Vector<2>& y, Vector<2>& o) { o[0] = 4; o[1] = t; return o; }
extern "C" void h_general() {
    GeneralEquation<2> g(F1);
    Vector<2> y, o; double t = sym_real("t"); y[0] = sym_real("y0"); y[1] = sym_real("y1");
    Vector<2> &r = g.Evaluate(t, y, o);
    SYM_ASSERT(&r == &o, "result is returned by reference");
    SYM_EQ(seenT, t, "time is passed on"); SYM_EQ(seenY, y[1], "state is passed on"); SYM_EQ(o[1], y[0], "result is passed back");
    g.SetDerivative(F2);
    g.Evaluate(t, y, o);
    SYM_EQ(o[0], 4, "another function can be set"); SYM_EQ(o[1], t, "another function can be set");
    sym_reach("end");
}

/* ------------------------------------------------ step-size control */
struct Enough {};
class Ctl : public RungeKutta<1> {
public:
    unsigned n = 0; double hs[16], errs[16], ts[16]; bool nan_[16];
    Ctl() : RungeKutta<1>(1) { ToggleDenseOutput(false); }
    Vector<1>& InnerStep(const double T, const double hh, const Vector<1>&, const Vector<1>&) override {
        sym_assume(n <= CALLS);
        hs[n] = hh; ts[n] = T;
        if (n == CALLS) throw Enough();     /* (only the step size of this attempt is of interest) */
        nan_[n] = sym_choice("nan", 2);
        double e = sym_real("err"); sym_assume(e >= 0 && e != 1e-4);
        errs[n] = e;
        yout[0] = 0; dydxout[0] = 0;
        if (nan_[n]) yerr[0] = __builtin_nan("");
        else yerr[0] = n == 0 && sym_choice("sign", 2) ? -e : e;
        n++;
        return yout;
    }
    void PrepareDense(const double, const Vector<1>&, const Vector<1>&, const Vector<1>&, const Vector<1>&) override {}
    void OutputDense(const unsigned, double*, double*) override {}
    double Beta() { return beta; }
};
static double mx(double a, double b) { return a > b ? a : b; }
static double mn(double a, double b) { return a < b ? a : b; }
static void control(double safe, double beta, double alpha, double lo, double hi, bool set) {
    Any<1> eq; Ctl c; c.SetEquation(&eq);
    if (set) { c.SetSafetyFactor(safe); c.SetExponentBeta(beta); c.SetExponentAlpha(alpha); c.SetMinScaleFactor(lo); c.SetMaxScaleFactor(hi); }
    Vector<1> z; c.InitialValue(z);
    double h = 1, t = 0, old = 1e-4; bool rej = false;
    unsigned done = 0;
    while (done < CALLS) {
        bool threw = false; double tn = 0;
        bool enough = false;
        try { tn = c.Step(); } catch (SOFTLibException &) { threw = true; } catch (Enough &) { enough = true; }
        bool accepted = false;
        while (done < c.n) {
            SYM_ASSERT(!accepted, "no attempt follows an accepted one within a step");
            SYM_EQ(c.hs[done], h, "each attempt uses the controlled step size");
            SYM_EQ(c.ts[done], t, "a rejected attempt is repeated from the same time");
            double e = c.errs[done];
            if (c.nan_[done]) { h = h / 10; rej = true; sym_reach("nan"); }
            else if (e <= 1) {
                double s;
                if (e == 0) s = hi;
                else s = mn(mx(safe * pow(e, -alpha) * pow(old, beta), lo), hi);
                if (rej) s = mn(s, 1);
                t = t + h;
                h = h * s; old = mx(e, 1e-4); rej = false; accepted = true;
                sym_reach("accept");
            } else {
                h = h * mx(safe * pow(e, -alpha), lo);
                rej = true;
                sym_reach("reject");
            }
            done++;
        }
        if (threw) { sym_reach("underflow"); return; }
        if (enough) break;      /* rejected: the next size was seen */
        SYM_ASSERT(accepted, "a step ends with an accepted attempt");
        SYM_EQ(tn, t, "an accepted step advances time by its step size");
        if (done == CALLS) try { c.Step(); } catch (Enough &) { } catch (SOFTLibException &) { return; }
    }
    SYM_EQ(c.hs[CALLS], h, "each attempt uses the controlled step size");
    SYM_EQ(c.ts[CALLS], t, "a rejected attempt is repeated from the same time");
    sym_reach("end");
}
extern "C" void h_control() { control(0.9, 0, 0.2, 0.2, 10, false); }
extern "C" void h_controlset() {
    double s = sym_real_in("safe", 0.5, 1), lo = sym_real_in("lo", 0.1, 0.5), hi = sym_real_in("hi", 2, 20);
    control(s, 0.04, 0.17, lo, hi, true);
}

/* ------------------------------------------------ dense output */
/* One or more steps of an arbitrary equation: interpolation between the stored points. */
template<unsigned N> static void dense() {
    Any<N> eq; Free<N> rk(1);
    rk.SetEquation(&eq); rk.rising = true;
    SYM_ASSERT(rk.HasDenseOutput(), "dense output is on by default");
    Vector<N> y0; for (unsigned i = 0; i < N; i++) y0[i] = sym_real("y0");
    rk.InitialValue(y0);
    for (unsigned s = 0; s < STEPS; s++) rk.Next();
    /* at the stored times */
    double tt[STEPS + 1], out[(STEPS + 1) * N];
    for (unsigned s = 0; s <= STEPS; s++) tt[s] = rk.TimeAt(s);
    rk.OutputDense(STEPS + 1, tt, out);
    for (unsigned s = 0; s <= STEPS; s++) for (unsigned i = 0; i < N; i++)
        SYM_EQ(out[s * N + i], rk.SolutionAt(s)[i], "dense output passes through the stored solutions");
    /* anywhere inside step s */
    unsigned s = sym_choice("step", STEPS);
    double th = sym_real("theta"); sym_assume(th > 0 && th < 1);
    double h = rk.TimeAt(s + 1) - rk.TimeAt(s), T = rk.TimeAt(s) + th * h;
    double q[2] = {T, tt[STEPS]}, o[2 * N];
    rk.OutputDense(2, q, o);
    unsigned base = 1 + 6 * s;
    for (unsigned i = 0; i < N; i++) {
        double k1 = rk.DerivativeAt(s)[i], k7 = rk.DerivativeAt(s + 1)[i];
        double a = rk.SolutionAt(s)[i], d = rk.SolutionAt(s + 1)[i] - a, bs = h * k1 - d;
        double r5 = h * (-12715105075.0/11282082432.0 * k1 + 87487479700.0/32700410799.0 * eq.k[base + 1][i]
            - 10690763975.0/1880347072.0 * eq.k[base + 2][i] + 701980252875.0/199316789632.0 * eq.k[base + 3][i]
            - 1453857185.0/822651844.0 * eq.k[base + 4][i] + 69997945.0/29380423.0 * k7);
        double w = a + th * (d + (1 - th) * (bs + th * (d - h * k7 - bs + (1 - th) * r5)));
        SYM_EQ(o[i], w, "dense output is the fourth-order interpolant of its step");
        SYM_EQ(o[N + i], rk.SolutionAt(STEPS)[i], "the last time is reached");
    }
    sym_reach("end");
}
extern "C" void h_dense1() { dense<1>(); }
extern "C" void h_dense2() { dense<2>(); }

/* times may be asked for in any order; outside the interval they are refused */
extern "C" void h_denseask() {
    Any<1> eq; Free<1> rk(1); rk.SetEquation(&eq); rk.rising = true;
    Vector<1> y0; y0[0] = sym_real("y0");
    rk.InitialValue(y0);
    for (unsigned s = 0; s < 2; s++) rk.Next();
    double q[2], o[2], o0, o1;
    q[0] = sym_real("t0"); q[1] = sym_real("t1");
    double end = rk.LastTime();
    bool in = q[0] >= 0 && q[0] <= end && q[1] >= 0 && q[1] <= end, threw = false;
    try { rk.OutputDense(2, q, o); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw == !in, "dense output is refused exactly outside the integrated interval");
    if (in) {
        rk.OutputDense(1, q, &o0); rk.OutputDense(1, q + 1, &o1);
        SYM_EQ(o[0], o0, "each time is answered by itself");
        SYM_EQ(o[1], o1, "each time is answered by itself");
        sym_reach("in");
    } else sym_reach("out");
}
/* equidistant output */
extern "C" void h_denseuniform() {
    P[0] = sym_real("c0"); P[1] = sym_real("c1"); P[2] = sym_real("c2"); P[3] = sym_real("c3");
    Poly<3> eq; Free<1> rk(1); rk.SetEquation(&eq); rk.rising = true;
    Vector<1> y0; y0[0] = sym_real("y0");
    rk.InitialValue(y0);
    rk.Next(); rk.Next();
    unsigned nt = sym_choice("nt", 5);
    double a = sym_real("tmin"), b = sym_real("tmax"), out[5], outt[5];
    sym_assume(a >= 0 && b <= rk.LastTime() && a <= b);
    bool threw = false;
    try { rk.OutputDense(nt, a, b, out, outt); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw == (nt == 0 || (nt == 1 && a != b)), "bad numbers of points are refused");
    if (!threw) for (unsigned i = 0; i < nt; i++) {
        double w = nt == 1 ? a : a + (b - a) * i / (nt - 1);
        SYM_EQ(outt[i], w, "output times are equidistant and include both ends");
        SYM_EQ(out[i], y0[0] + prim(outt[i], 3), "dense output is exact for solutions of degree four");
        sym_reach("end");
    }
}
/* nothing to interpolate */
extern "C" void h_denseearly() {
    Any<1> eq; Free<1> rk(1); rk.SetEquation(&eq); rk.rising = true;
    unsigned k = sym_choice("k", 3);
    Vector<1> y0;
    if (k >= 1) { if (k == 2) rk.ToggleDenseOutput(false); rk.InitialValue(y0); }
    if (k == 2) rk.Next();
    double q = k == 2 ? rk.LastTime() / 2 : 0, o; bool threw = false;
    try { rk.OutputDense(1, &q, &o); } catch (SOFTLibException &) { threw = true; }
    SYM_ASSERT(threw, "dense output without a step is refused");
    sym_reach("end");
}
/* the history outgrows the first allocation */
class Hist : public RungeKutta<2> { public:
    Hist() : RungeKutta<2>(1) { ToggleDenseOutput(false); }
    Vector<2>& InnerStep(const double, const double, const Vector<2>&, const Vector<2>&) override { return yout; }
    void PrepareDense(const double, const Vector<2>&, const Vector<2>&, const Vector<2>&, const Vector<2>&) override {}
    void OutputDense(const unsigned, double*, double*) override {} };
extern "C" void h_growth() {
    Hist c; Vector<2> y, d, sy[NAT], sd[NAT]; double st[NAT]; unsigned at[NAT] = {0, 999, 1000, 1001, 2000, 3000}, j = 0;
    for (unsigned i = 0; i < 3002; i++) {
        if (j < NAT && i == at[j]) {
            st[j] = sym_real("t"); for (int q = 0; q < 2; q++) { sy[j][q] = sym_real("y"); sd[j][q] = sym_real("d"); }
            c.StoreSolution(st[j], sy[j], sd[j]); j++;
        } else c.StoreSolution(i, y, d);
    }
    SYM_ASSERT(c.StepsTaken() == 3002, "every stored point is counted");
    for (j = 0; j < NAT; j++) {
        SYM_EQ(c.TimeAt(at[j]), st[j], "long histories keep every time");
        for (int q = 0; q < 2; q++) { SYM_EQ(c.SolutionAt(at[j])[q], sy[j][q], "long histories keep every solution"); SYM_EQ(c.DerivativeAt(at[j])[q], sd[j][q], "long histories keep every derivative"); }
    }
    SYM_EQ(c.LastTime(), 3001, "the last point is the one stored last");
    sym_reach("end");
}
/* and so do the dense coefficients */
class Hist2 : public RKDP45<1> { public: Hist2() : RKDP45<1>(1) {}
    void Put(double t, Vector<1> &a, Vector<1> &b) { timestep = 1; yold = prev; dydxold = prevd; RungeKutta<1>::StoreSolution(t, a, b); prev = a; prevd = b; }
    Vector<1> prev, prevd; };
extern "C" void h_growthdense() {
    Hist2 c; Vector<1> y, d, p; double v[NAT]; unsigned at[NAT] = {1, 999, 1000, 1001, 2000, 3000}, j = 0;
    for (unsigned i = 0; i < 3002; i++) {
        Vector<1> *q = &y;
        if (j < NAT && i == at[j]) { v[j] = sym_real("y"); p[0] = v[j]; j++; q = &p; }
        c.Put(i, *q, d);
    }
    for (j = 0; j < NAT; j++) { double T = at[j], o; c.OutputDense(1, &T, &o); SYM_EQ(o, v[j], "long histories keep their dense output"); }
    sym_reach("end");
}
