/* Vector and Matrix: textbook algebra for every real operand. */
#include <cstdlib>
#include <cstdio>
#include <complex>
#include <softlib/Vector.h>
#include <softlib/Matrix.h>
#include "sym.h"

template<unsigned N> static Vector<N> sv(const char *n) {
    Vector<N> v;
    for (unsigned i = 0; i < N; i++) v[i] = sym_real(n);
    return v;
}
template<unsigned M, unsigned N> static Matrix<M,N> sm(const char *n) {
    Matrix<M,N> a;
    for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) a(i, j) = sym_real(n);
    return a;
}

template<unsigned N> static void vec() {
    const Vector<N> a = sv<N>("a"), b = sv<N>("b");
    const double s = sym_real("s");
    Vector<N> z;
    SYM_ASSERT(a.size() == N && z.size() == N, "vector size");
    double arr[N], out[N];
    for (unsigned i = 0; i < N; i++) arr[i] = b[i];
    Vector<N> fromarr(arr), copy(a), asg, asga, asgs;
    asg = a; asga = (const double *)arr; asgs = s;
    Vector<N> sum = a + b, sums = a + s, ssum = s + a, dif = a - b, difs = a - s, sdif = s - a, mul = a * s, smul = s * a;
    Vector<N> c1(a), c2(a), c3(a), c4(a), c5(a);
    c1 += b; c2 += s; c3 -= b; c4 -= s; c5 *= s;
    Vector<N> m(a); Vector<N> neg = -m;
    a.ToArray(out);
    double dot = 0, nn = 0;
    for (unsigned i = 0; i < N; i++) {
        dot = dot + a[i] * b[i];
        nn = nn + a[i] * a[i];
        SYM_EQ(z[i], 0, "a new vector is zero");
        SYM_EQ(fromarr[i], b[i], "vector from array");
        SYM_EQ(copy[i], a[i], "vector copy");
        SYM_EQ(asg[i], a[i], "vector assignment");
        SYM_EQ(asga[i], b[i], "vector assignment from array");
        SYM_EQ(asgs[i], s, "vector assignment from scalar");
        SYM_EQ(sum[i], a[i] + b[i], "vector + vector");
        SYM_EQ(sums[i], a[i] + s, "vector + scalar");
        SYM_EQ(ssum[i], a[i] + s, "scalar + vector");
        SYM_EQ(dif[i], a[i] - b[i], "vector - vector");
        SYM_EQ(difs[i], a[i] - s, "vector - scalar");
        SYM_EQ(sdif[i], s - a[i], "scalar - vector");
        SYM_EQ(mul[i], a[i] * s, "vector * scalar");
        SYM_EQ(smul[i], a[i] * s, "scalar * vector");
        SYM_EQ(c1[i], a[i] + b[i], "vector +=");
        SYM_EQ(c2[i], a[i] + s, "vector += scalar");
        SYM_EQ(c3[i], a[i] - b[i], "vector -=");
        SYM_EQ(c4[i], a[i] - s, "vector -= scalar");
        SYM_EQ(c5[i], a[i] * s, "vector *= scalar");
        SYM_EQ(neg[i], -a[i], "unary minus");
        SYM_EQ(m[i], a[i], "unary minus leaves its operand");
        SYM_EQ(out[i], a[i], "ToArray");
    }
    SYM_EQ(a.Dot(b), dot, "dot product");
    SYM_EQ(b.Dot(a), dot, "dot product is symmetric");
    double n = a.Norm();
    SYM_ASSERT(n >= 0, "norm is not negative");
    SYM_EQ(n * n, nn, "norm squared is the sum of squares");
    if (s != 0) {
        Vector<N> d = a / s, e(a); e /= s;
        for (unsigned i = 0; i < N; i++) { SYM_EQ(d[i] * s, a[i], "vector / scalar"); SYM_EQ(e[i] * s, a[i], "vector /= scalar"); }
        sym_reach("div");
    }
    if (nn > 0) {
        Vector<N> u(a);
        u.Normalize();
        for (unsigned i = 0; i < N; i++) SYM_EQ(u[i] * n, a[i], "normalised vector is parallel, divided by the norm");
        SYM_EQ(u.Dot(u), 1, "normalised vector has unit length");
        sym_reach("normal");
    }
    sym_reach("end");
}
extern "C" void h_vec1() { vec<1>(); }
extern "C" void h_vec2() { vec<2>(); }
extern "C" void h_vec3() { vec<3>(); }
extern "C" void h_vec5() { vec<5>(); }

/* a vector combined with itself: operands may be the same object */
extern "C" void h_valias() {
    const Vector<3> a = sv<3>("a");
    Vector<3> x(a), y(a), w(a), q(a);
    x += x; y -= y; w *= w[1]; q = q;
    for (unsigned i = 0; i < 3; i++) {
        SYM_EQ(x[i], 2 * a[i], "v += v");
        SYM_EQ(y[i], 0, "v -= v");
        SYM_EQ(q[i], a[i], "v = v");
    }
    sym_reach("end");
}

extern "C" void h_cross() {
    const Vector<3> a = sv<3>("a"), b = sv<3>("b");
    Vector<3> c = Vector<3>::Cross(a, b), d;
    Vector<3> &r = Vector<3>::Cross(a, b, d);
    SYM_ASSERT(&r == &d, "cross product returns its result argument");
    SYM_EQ(c[0], a[1] * b[2] - a[2] * b[1], "cross product x");
    SYM_EQ(c[1], a[2] * b[0] - a[0] * b[2], "cross product y");
    SYM_EQ(c[2], a[0] * b[1] - a[1] * b[0], "cross product z");
    for (int i = 0; i < 3; i++) SYM_EQ(d[i], c[i], "both cross products agree");
    SYM_EQ(c.Dot(a), 0, "cross product is orthogonal to a");
    SYM_EQ(c.Dot(b), 0, "cross product is orthogonal to b");
    sym_reach("end");
}

template<unsigned M, unsigned N> static void mat() {
    const Matrix<M,N> a = sm<M,N>("a"), b = sm<M,N>("b");
    const double s = sym_real("s");
    const Vector<N> x = sv<N>("x");
    const Vector<M> y = sv<M>("y");
    Matrix<M,N> z, copy(a), outer(y, x), asg;
    double flat[M*N]; const double *rows[M];
    for (unsigned i = 0; i < M*N; i++) flat[i] = b(i);
    for (unsigned i = 0; i < M; i++) rows[i] = flat + i * N;
    Matrix<M,N> ff((const double *)flat), fr((const double **)rows);
    asg = a;
    SYM_ASSERT(a.Rows() == M && a.Cols() == N, "matrix dimensions");
    Matrix<M,N> sum = a + b, sums = a + s, ssum = s + a, dif = a - b, difs = a - s, sdif = s - a, mul = a * s, smul = s * a;
    Matrix<M,N> c1(a), c2(a), c3(a), c4(a), c5(a), c6(a);
    c1 += b; c2 += s; c3 -= b; c4 -= s; c5 *= s;
    Matrix<M,N> neg(-c6);
    for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < N; j++) {
        SYM_EQ(z(i, j), 0, "a new matrix is zero");
        SYM_EQ(a(i * N + j), a(i, j), "linear index is row major");
        SYM_EQ(copy(i, j), a(i, j), "matrix copy");
        SYM_EQ(asg(i, j), a(i, j), "matrix assignment");
        SYM_EQ(outer(i, j), y[i] * x[j], "outer product");
        SYM_EQ(ff(i, j), b(i, j), "matrix from flat array");
        SYM_EQ(fr(i, j), b(i, j), "matrix from rows");
        SYM_EQ(sum(i, j), a(i, j) + b(i, j), "matrix + matrix");
        SYM_EQ(sums(i, j), a(i, j) + s, "matrix + scalar");
        SYM_EQ(ssum(i, j), a(i, j) + s, "scalar + matrix");
        SYM_EQ(dif(i, j), a(i, j) - b(i, j), "matrix - matrix");
        SYM_EQ(difs(i, j), a(i, j) - s, "matrix - scalar");
        SYM_EQ(sdif(i, j), s - a(i, j), "scalar - matrix");
        SYM_EQ(mul(i, j), a(i, j) * s, "matrix * scalar");
        SYM_EQ(smul(i, j), a(i, j) * s, "scalar * matrix");
        SYM_EQ(c1(i, j), a(i, j) + b(i, j), "matrix +=");
        SYM_EQ(c2(i, j), a(i, j) + s, "matrix += scalar");
        SYM_EQ(c3(i, j), a(i, j) - b(i, j), "matrix -=");
        SYM_EQ(c4(i, j), a(i, j) - s, "matrix -= scalar");
        SYM_EQ(c5(i, j), a(i, j) * s, "matrix *= scalar");
        SYM_EQ(neg(i, j), -a(i, j), "negated matrix");
    }
    Vector<M> ax = a * x;
    Vector<N> ya = y * a;
    for (unsigned i = 0; i < M; i++) { double t = 0; for (unsigned j = 0; j < N; j++) t = t + a(i, j) * x[j]; SYM_EQ(ax[i], t, "matrix * vector"); }
    for (unsigned j = 0; j < N; j++) { double t = 0; for (unsigned i = 0; i < M; i++) t = t + a(i, j) * y[i]; SYM_EQ(ya[j], t, "vector * matrix"); }
    Matrix<N,2> w = sm<N,2>("w");
    Matrix<M,2> aw = a * w;
    for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < 2; j++) {
        double t = 0; for (unsigned k = 0; k < N; k++) t = t + a(i, k) * w(k, j);
        SYM_EQ(aw(i, j), t, "matrix * matrix");
    }
    sym_reach("end");
}
extern "C" void h_mat22() { mat<2, 2>(); }
extern "C" void h_mat23() { mat<2, 3>(); }
extern "C" void h_mat31() { mat<3, 1>(); }
extern "C" void h_mat33() { mat<3, 3>(); }

template<unsigned M> static void matself() {
    const Matrix<M,M> a = sm<M,M>("a"), b = sm<M,M>("b");
    Matrix<M,M> c(a);
    c *= b;
    for (unsigned i = 0; i < M; i++) for (unsigned j = 0; j < M; j++) {
        double t = 0; for (unsigned k = 0; k < M; k++) t = t + a(i, k) * b(k, j);
        SYM_EQ(c(i, j), t, "matrix *= matrix");
    }
    Matrix<M,M> d(a);
    d += d;
    for (unsigned i = 0; i < M * M; i++) SYM_EQ(d(i), 2 * a(i), "m += m");
    sym_reach("end");
}
extern "C" void h_matself() { matself<2>(); matself<3>(); }
