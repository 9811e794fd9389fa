/* SFile: values written to a file are read back, in every format. */
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <fstream>
#include <string>
#include <vector>
#include <softlib/SFile.h>
#include <softlib/SFileException.h>
#include "sym.h"
#include "clock.h"
#ifndef LEN
#define LEN 3
#endif
#ifndef NEL
#define NEL 3
#endif
using std::string; using std::vector;
enum { H5F, MATF, SDTF };
static const char *FN[3] = {"f.h5", "f.mat", "f.sdt"};
static unsigned fmt;
static unsigned format() { return fmt = sym_choice("format", 3); }
static SFile *open_(sfile_mode m) { return SFile::Create(FN[fmt], m); }
static void done(SFile *s) { s->Close(); delete s; }
/* a local time for the header of MAT files */
static int TM[6];
static bool tmset;
extern "C" struct tm *localtime(const time_t *) {
    static struct tm t; memset(&t, 0, sizeof t);
    if (!tmset) { TM[0] = 3; TM[1] = 5; TM[2] = 17; TM[3] = 12; TM[4] = 34; TM[5] = 56; }
    t.tm_wday = TM[0]; t.tm_mon = TM[1]; t.tm_mday = TM[2]; t.tm_hour = TM[3]; t.tm_min = TM[4]; t.tm_sec = TM[5]; t.tm_year = 118;
    return &t;
}
extern "C" struct tm *localtime_r(const time_t *p, struct tm *r) { *r = *localtime(p); return r; }
extern "C" struct tm *gmtime(const time_t *p) { return localtime(p); }

/* one element type at a time */
template<typename T> struct El;
template<> struct El<double> {
    static double any() { return sym_real("x") + 0.12345678901234567; }
    static void warr(SFile *s, const string &n, double **a, sfilesize_t r, sfilesize_t c) { s->WriteArray(n, a, r, c); }
    static void wlist(SFile *s, const string &n, double *a, sfilesize_t k) { s->WriteList(n, a, k); }
    static double **g2(SFile *s, const string &n, sfilesize_t *d) { return s->GetDoubles(n, d); }
    static double *g1(SFile *s, const string &n, sfilesize_t *d) { return s->GetDoubles1D(n, d); }
    static double g0(SFile *s, const string &n) { return s->GetScalar(n); }
    static void wm(SFile *s, const string &n, const double *a, sfilesize_t k, sfilesize_t *d) { s->WriteMultiArray(n, a, k, d); }
    static const SFile::sfile_data_type type = SFile::SFILE_DATA_DOUBLE;
};
#define EL(T, N, G, ANY, E) template<> struct El<T> { \
    static T any() { return ANY; } \
    static void warr(SFile *s, const string &n, T **a, sfilesize_t r, sfilesize_t c) { if (sym_choice("overload", 2)) s->WriteArray(n, a, r, c); else s->Write##N##Array(n, a, r, c); } \
    static void wlist(SFile *s, const string &n, T *a, sfilesize_t k) { if (sym_choice("overload", 2)) s->WriteList(n, a, k); else s->Write##N##List(n, a, k); } \
    static T **g2(SFile *s, const string &n, sfilesize_t *d) { return s->Get##G##_2D(n, d); } \
    static T *g1(SFile *s, const string &n, sfilesize_t *d) { return s->Get##G##_1D(n, d); } \
    static T g0(SFile *s, const string &n) { return s->Get##G(n); } \
    static void wm(SFile *s, const string &n, const T *a, sfilesize_t k, sfilesize_t *d) { s->WriteMulti##N##Array(n, a, k, d); } \
    static const SFile::sfile_data_type type = SFile::E; };
/* text files keep numbers as reals: integers up to 2^53 in size */
static long z64() { return fmt == SDTF ? sym_zint("z", -(1L << 53), 1L << 53) : sym_i64("x"); }
static unsigned long zu64() { return fmt == SDTF ? (unsigned long)sym_zint("z", 0, 1L << 53) : sym_u64("x"); }
EL(int32_t, Int32, Int32, fmt == SDTF ? (int32_t)sym_zint("z", -2147483647 - 1, 2147483647) : sym_i32("x"), SFILE_DATA_INT32)
EL(int64_t, Int64, Int64, z64(), SFILE_DATA_INT64)
EL(uint32_t, UInt32, UInt32, fmt == SDTF ? (uint32_t)sym_zint("z", 0, 4294967295L) : sym_u32("x"), SFILE_DATA_UINT32)
EL(uint64_t, UInt64, UInt64, zu64(), SFILE_DATA_UINT64)

template<typename T> static void array_() {
    static const unsigned SH[7][2] = {{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {0, 2}, {2, 0}};
    unsigned k = sym_choice("shape", 7), r = SH[k][0], c = SH[k][1];
    T v[6], *p[3], y = 7, *py = &y; for (unsigned i = 0; i < r * c; i++) v[i] = El<T>::any();
    for (unsigned i = 0; i < 3; i++) p[i] = v + i * c;
    SFile *w = open_(SFILE_MODE_WRITE);
    El<T>::wlist(w, "before", &y, 1); El<T>::warr(w, "x", p, r, c); El<T>::warr(w, "after", &py, 1, 1);
    done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2];
    SYM_ASSERT(s->HasVariable("x") && s->HasVariable("before") && s->HasVariable("after") && !s->HasVariable("y"), "the variables written, and only they, are in the file");
    for (unsigned again = 0; again < 2; again++) {
        T **a = El<T>::g2(s, "x", d);
        SYM_ASSERT(d[0] == r && d[1] == c, "an array keeps its shape");
        for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) SYM_ASSERT(a[i][j] == v[i * c + j], "an array keeps its values");
        for (unsigned i = 1; i < r; i++) SYM_ASSERT(a[i] == a[0] + i * c, "the rows of an array lie one after another");
        for (unsigned i = 0; i < r * c; i++) a[0][i] = 0;
        delete[] a[0]; delete[] a;
    }
    T **b = El<T>::g2(s, "after", d);
    SYM_ASSERT(d[0] == 1 && d[1] == 1 && b[0][0] == 7, "variables do not disturb one another"); delete[] b[0]; delete[] b;
    SYM_ASSERT(El<T>::g0(s, "before") == 7, "variables do not disturb one another");
    if (r == 1 && c == 1) SYM_ASSERT(El<T>::g0(s, "x") == v[0], "a one-by-one array is a scalar");
    if (r == 1 || c == 1) {
        T *l = El<T>::g1(s, "x", d); SYM_ASSERT(d[0] == r * c, "a row or column is a list of that length");
        for (unsigned i = 0; i < r * c; i++) SYM_ASSERT(l[i] == v[i], "a row or column is a list of its values");
        delete[] l;
    }
    if (r != 1 || c != 1) { bool ex = false; try { El<T>::g0(s, "x"); } catch (SFileException &) { ex = true; } SYM_ASSERT(ex, "an array is not a scalar"); }
    done(s); sym_reach("end");
}
template<typename T> static void list_() {
    unsigned n = 1 + sym_choice("n", NEL); T v[8]; for (unsigned i = 0; i < n; i++) v[i] = El<T>::any();
    SFile *w = open_(SFILE_MODE_WRITE); El<T>::wlist(w, "x", v, n); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2];
    for (unsigned again = 0; again < 2; again++) {
        T *l = El<T>::g1(s, "x", d); SYM_ASSERT(d[0] == n, "a list keeps its length");
        for (unsigned i = 0; i < n; i++) { SYM_ASSERT(l[i] == v[i], "a list keeps its values"); l[i] = 0; }
        delete[] l;
        T **a = El<T>::g2(s, "x", d); SYM_ASSERT(d[0] == 1 && d[1] == n, "a list is an array of one row");
        for (unsigned i = 0; i < n; i++) { SYM_ASSERT(a[0][i] == v[i], "a list is an array of one row"); a[0][i] = 0; }
        delete[] a[0]; delete[] a;
    }
    if (n == 1) SYM_ASSERT(El<T>::g0(s, "x") == v[0], "a list of one is a scalar");
    SYM_ASSERT(s->GetDataType("x", El<T>::type) == El<T>::type, "the type of a variable is the one written");
    if (fmt != SDTF) SYM_ASSERT(s->GetDataType("x") == El<T>::type, "the type of a variable is the one written");
    done(s); sym_reach("end");
}
extern "C" void h_array_d() { format(); array_<double>(); }
extern "C" void h_array_i32() { format(); array_<int32_t>(); }
extern "C" void h_array_i64() { format(); array_<int64_t>(); }
extern "C" void h_array_u32() { format(); array_<uint32_t>(); }
extern "C" void h_array_u64() { format(); array_<uint64_t>(); }
extern "C" void h_list_d() { format(); list_<double>(); }
extern "C" void h_list_i32() { format(); list_<int32_t>(); }
extern "C" void h_list_i64() { format(); list_<int64_t>(); }
extern "C" void h_list_u32() { format(); list_<uint32_t>(); }
extern "C" void h_list_u64() { format(); list_<uint64_t>(); }

extern "C" void h_scalar() {
    format(); double x = El<double>::any();
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteScalar("x", x); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t n;
    SYM_ASSERT(s->GetScalar("x") == x, "a scalar keeps its value"); SYM_ASSERT(s->GetScalar("x") == x, "a scalar keeps its value when read again");
    double *l = s->GetList("x", &n); SYM_ASSERT(n == 1 && l[0] == x, "a scalar is a list of one"); delete[] l;
    l = s->GetList("x", &n); SYM_ASSERT(n == 1 && l[0] == x, "a scalar is a list of one"); delete[] l;
    done(s); sym_reach("end");
}
/* GetList: rows, columns, and nothing else */
extern "C" void h_getlist() {
    format(); static const unsigned SH[4][2] = {{1, 3}, {3, 1}, {2, 2}, {2, 3}};
    unsigned k = sym_choice("shape", 4), r = SH[k][0], c = SH[k][1]; double v[6], *p[3];
    for (unsigned i = 0; i < r * c; i++) v[i] = El<double>::any();
    for (unsigned i = 0; i < r; i++) p[i] = v + i * c;
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteArray("x", p, r, c); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t n; bool ex = false; double *l = 0;
    try { l = s->GetList("x", &n); } catch (SFileException &) { ex = true; }
    SYM_ASSERT(ex == (r != 1 && c != 1), "a list can be had from a row or column only");
    if (!ex) { SYM_ASSERT(n == r * c, "a row or column is a list of that length"); for (unsigned i = 0; i < n; i++) SYM_ASSERT(l[i] == v[i], "a row or column is a list of its values"); delete[] l; }
    done(s); sym_reach("end");
}
extern "C" void h_image() {
    format(); double v[4], *p[2] = {v, v + 2}; for (unsigned i = 0; i < 4; i++) v[i] = El<double>::any();
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteImage("img", p, 2); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2]; double **a = s->GetDoubles("img", d);
    SYM_ASSERT(d[0] == 2 && d[1] == 2, "an image keeps its size");
    for (unsigned i = 0; i < 4; i++) SYM_ASSERT(a[i / 2][i % 2] == v[i], "an image keeps its pixels");
    delete[] a[0]; delete[] a; done(s); sym_reach("end");
}
/* more than two dimensions */
template<typename T> static void multi_(bool mat) {
    fmt = mat ? MATF : H5F;
    static const unsigned SH[4][4] = {{1, 3, 0, 0}, {2, 2, 3, 0}, {3, 2, 1, 2}, {3, 1, 2, 3}};
    unsigned k = sym_choice("shape", 4), nd = SH[k][0]; sfilesize_t d[3], n = 1; for (unsigned i = 0; i < nd; i++) n *= d[i] = SH[k][i + 1];
    T v[8]; for (unsigned i = 0; i < n; i++) v[i] = El<T>::any();
    SFile *w = open_(SFILE_MODE_WRITE); El<T>::wm(w, "x", v, nd, d); done(w);
    SFile *s = open_(SFILE_MODE_READ);
    SYM_ASSERT(s->HasVariable("x"), "a multidimensional array is in the file");
    SYM_ASSERT(s->GetDataType("x") == El<T>::type, "a multidimensional array has the type it was written with");
    sfilesize_t gn = 99, gd[3] = {9, 9, 9};
    if (El<T>::type == SFile::SFILE_DATA_DOUBLE) {
        double *l = s->GetMultiArray_linear("x", 3, gn, gd);
        SYM_ASSERT(l != nullptr && gn == nd, "a multidimensional array keeps its number of dimensions");
        for (unsigned i = 0; i < nd; i++) SYM_ASSERT(gd[i] == d[i], "a multidimensional array keeps its shape");
        for (unsigned i = 0; i < n; i++) SYM_ASSERT(l[i] == (double)v[i], "a multidimensional array keeps its values");
        delete[] l;
        void *m = s->GetMultiArray("x", 3, gn, gd);
        for (unsigned i = 0; i < n; i++) {
            double e;
            if (nd == 1) e = ((double *)m)[i];
            else if (nd == 2) e = ((double **)m)[i / d[1]][i % d[1]];
            else e = ((double ***)m)[i / (d[1] * d[2])][i / d[2] % d[1]][i % d[2]];
            SYM_ASSERT(e == (double)v[i], "a multidimensional array is indexed one dimension at a time");
        }
        if (nd > 1) { gn = 99; SYM_ASSERT(s->GetMultiArray_linear("x", nd - 1, gn, gd) == nullptr && gn == nd, "too many dimensions for the caller are reported, not stored"); }
        if (nd > 1) SYM_ASSERT(s->GetMultiArray("x", nd - 1, gn, gd) == nullptr, "too many dimensions for the caller are reported, not stored");
    }
    if (nd > 2) {
        struct { sfilesize_t d[2]; sfilesize_t guard; } q = {{0, 0}, 77}; bool ex = false;
        try { El<T>::g2(s, "x", q.d); } catch (SFileException &) { ex = true; }
        SYM_ASSERT(ex && q.guard == 77, "an array of more than two dimensions is not a matrix");
        ex = false; try { El<T>::g1(s, "x", q.d); } catch (SFileException &) { ex = true; }
        SYM_ASSERT(ex && q.guard == 77, "an array of more than two dimensions is not a list");
    } else if (nd == 2) {
        T **a = El<T>::g2(s, "x", gd); SYM_ASSERT(gd[0] == d[0] && gd[1] == d[1], "a two-dimensional array is a matrix");
        for (unsigned i = 0; i < n; i++) SYM_ASSERT(a[i / d[1]][i % d[1]] == v[i], "a two-dimensional array is a matrix"); delete[] a[0]; delete[] a;
    } else { T *l = El<T>::g1(s, "x", gd); SYM_ASSERT(gd[0] == n, "a one-dimensional array is a list"); for (unsigned i = 0; i < n; i++) SYM_ASSERT(l[i] == v[i], "a one-dimensional array is a list"); delete[] l; }
    done(s); sym_reach("end");
}
extern "C" void h_multi_d() { multi_<double>(sym_choice("mat", 2)); }
extern "C" void h_multi_i32() { multi_<int32_t>(sym_choice("mat", 2)); }
extern "C" void h_multi_i64() { multi_<int64_t>(sym_choice("mat", 2)); }
extern "C" void h_multi_u32() { multi_<uint32_t>(sym_choice("mat", 2)); }
extern "C" void h_multi_u64() { multi_<uint64_t>(sym_choice("mat", 2)); }
extern "C" void h_multi_sdt() {
    fmt = SDTF; SFile *w = open_(SFILE_MODE_WRITE); double v[8] = {0}; sfilesize_t d[3] = {2, 2, 2}; bool ex = false;
    try { w->WriteMultiArray("x", v, 3, d); } catch (SFileException &) { ex = true; }
    SYM_ASSERT(ex, "text files refuse arrays of more than two dimensions"); w->WriteScalar("y", 5); done(w);
    SFile *s = open_(SFILE_MODE_READ); SYM_ASSERT(s->GetScalar("y") == 5, "what is refused does not damage the file"); done(s); sym_reach("end");
}
/* texts */
static string text(const char *n, unsigned l) { string s; for (unsigned i = 0; i < l; i++) { unsigned char c = sym_u8(n); sym_assume(c != 0); s += (char)c; } return s; }
extern "C" void h_string() {
    format(); unsigned l = sym_choice("l", LEN + 1); string v = text("c", l), u = "next one";
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteString("x", v); w->WriteString("y", u); done(w);
    SFile *s = open_(SFILE_MODE_READ);
    SYM_ASSERT(s->GetString("x") == v, "a text reads back"); SYM_ASSERT(s->GetString("y") == u, "the next text reads back");
    SYM_ASSERT(s->GetString("x") == v, "a text reads back again");
    SYM_ASSERT(s->GetDataType("x") == SFile::SFILE_DATA_STRING, "a text is of the text type"); SYM_ASSERT(s->HasVariable("x"), "a text is in the file");
    done(s); sym_reach("end");
}
extern "C" void h_attribute() {
    format(); double x = El<double>::any(), y = 3; unsigned l = sym_choice("l", LEN); string v = text("c", l);
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteList("a", &y, 1); w->WriteList("b", &y, 1);
    w->WriteAttribute_scalar("a", "s", x); w->WriteAttribute_string("a", "t", v); w->WriteAttribute_scalar("b", "s", 5); done(w);
    SFile *s = open_(SFILE_MODE_READ);
    SYM_ASSERT(s->GetAttributeScalar("a", "s") == x, "a scalar attribute reads back"); SYM_ASSERT(s->GetAttributeString("a", "t") == v, "a text attribute reads back");
    SYM_ASSERT(s->GetAttributeScalar("b", "s") == 5, "attributes of different variables are apart"); SYM_ASSERT(s->GetScalar("a") == 3, "an attribute leaves its variable alone");
    for (unsigned k = 0; k < 4; k++) {
        bool ex = false; try { if (k == 0) s->GetAttributeScalar("a", "q"); else if (k == 1) s->GetAttributeString("b", "t"); else if (k == 2) s->GetAttributeScalar("z", "s"); else s->GetAttributeString("z", "t"); } catch (SFileException &) { ex = true; }
        SYM_ASSERT(ex, "an attribute that is not there is refused");
    }
    done(s); sym_reach("end");
}
/* texts of HDF5 files are read also when the file is opened as a MAT file */
extern "C" void h_foreigntext() {
    unsigned l = sym_choice("l", LEN + 1); string v = text("c", l), u = "next one"; double y = 3;
    SFile *w = SFile::Create("foreign.mat", SFILE_MODE_WRITE, SFILE_TYPE_HDF5); w->WriteString("x", v); w->WriteString("y", u); w->WriteList("n", &y, 1); done(w);
    SFile *s = SFile::Create("foreign.mat", SFILE_MODE_READ);
    SYM_ASSERT(s->GetString("x") == v && s->GetString("y") == u, "a text reads back");
    bool ex = false; try { s->GetString("n"); } catch (SFileException &) { ex = true; } SYM_ASSERT(ex, "a number is not a text");
    done(s); sym_reach("end");
}
/* names */
static string name(const char *n) { string s; s += 'v'; for (unsigned i = 0; i < 1; i++) { unsigned char c = sym_u8(n); sym_assume(c > ' ' && c < 127 && c != '/' && c != '.'); s += (char)c; } return s; }
extern "C" void h_names() {
    format(); string a = name("a"), b = name("b"), q = name("q"); sym_assume(a != b); double x = El<double>::any(), y = El<double>::any();
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteScalar(a, x); w->WriteList(b, &y, 1); done(w);
    SFile *s = open_(SFILE_MODE_READ); bool in = q == a || q == b;
    SYM_ASSERT(s->HasVariable(q) == in, "a variable is found exactly when it was written");
    double v = 0; bool ex = false; try { v = s->GetScalar(q); } catch (SFileException &) { ex = true; }
    SYM_ASSERT(ex == !in, "a variable that is not there is refused");
    if (in) { SYM_ASSERT(v == (q == a ? x : y), "a name gives the value written under it"); sym_reach("found"); } else sym_reach("missing");
    done(s);
}
extern "C" void h_struct() {
    format(); double x = El<double>::any();
    SFile *w = open_(SFILE_MODE_WRITE); w->CreateStruct("g"); w->WriteScalar("g/x", x); w->WriteScalar("x", 4); w->WriteString("g/t", "text"); done(w);
    SFile *s = open_(SFILE_MODE_READ);
    SYM_ASSERT(s->GetScalar("g/x") == x && s->GetScalar("x") == 4 && s->GetString("g/t") == "text", "variables in a structure are apart from those outside");
    SYM_ASSERT(s->HasVariable("g/x") && !s->HasVariable("g/y") && !s->HasVariable("h/x"), "variables in a structure are found by their full name");
    done(s); sym_reach("end");
}
/* integers whatever type they were written with */
template<typename T> static void conv_() {
    T v[4]; for (unsigned i = 0; i < 4; i++) { long z = sym_zint("v", El<T>::type == SFile::SFILE_DATA_UINT32 || El<T>::type == SFile::SFILE_DATA_UINT64 ? 0 : -100000, 100000); v[i] = (T)z; }
    T *p[2] = {v, v + 2}; SFile *w = open_(SFILE_MODE_WRITE); El<T>::warr(w, "m", p, 2, 2); El<T>::wlist(w, "l", v, 3); El<T>::wlist(w, "s", v, 1); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2];
    int64_t **m = s->GetIntArray("m", d); SYM_ASSERT(d[0] == 2 && d[1] == 2, "an integer array has the shape written");
    for (unsigned i = 0; i < 4; i++) SYM_ASSERT(m[i / 2][i % 2] == (int64_t)v[i], "an integer array has the values written"); delete[] m[0]; delete[] m;
    int64_t *l = s->GetIntList("l", d); SYM_ASSERT(d[0] == 3, "an integer list has the length written");
    for (unsigned i = 0; i < 3; i++) SYM_ASSERT(l[i] == (int64_t)v[i], "an integer list has the values written"); delete[] l;
    SYM_ASSERT(s->GetInt("s") == (int64_t)v[0], "an integer has the value written");
    double **g = s->GetDoubles("m", d); for (unsigned i = 0; i < 4; i++) SYM_ASSERT(g[i / 2][i % 2] == (double)v[i], "integers read as reals keep their values"); delete[] g[0]; delete[] g;
    done(s); sym_reach("end");
}
extern "C" void h_conv() {
    format(); switch (sym_choice("type", 5)) { case 0: conv_<double>(); break; case 1: conv_<int32_t>(); break; case 2: conv_<int64_t>(); break; case 3: conv_<uint32_t>(); break; default: conv_<uint64_t>(); }
}
/* refusals */
extern "C" void h_missing() {
    format(); unsigned k = sym_choice("getter", 19); SFile *w = open_(SFILE_MODE_WRITE); w->WriteScalar("x", 1); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2], nd; sfilesize_t dd[3]; bool ex = false; const string q = "absent";
    try {
        switch (k) {
            case 0: s->GetDoubles(q, d); break; case 1: s->GetInt32_2D(q, d); break; case 2: s->GetInt64_2D(q, d); break; case 3: s->GetUInt32_2D(q, d); break; case 4: s->GetUInt64_2D(q, d); break;
            case 5: s->GetDoubles1D(q, d); break; case 6: s->GetInt32_1D(q, d); break; case 7: s->GetInt64_1D(q, d); break; case 8: s->GetUInt32_1D(q, d); break; case 9: s->GetUInt64_1D(q, d); break;
            case 10: s->GetScalar(q); break; case 11: s->GetInt32(q); break; case 12: s->GetUInt64(q); break; case 13: s->GetList(q, d); break; case 14: s->GetString(q); break;
            case 15: s->GetIntArray(q, d); break; case 16: s->GetIntList(q, d); break; case 17: s->GetInt(q); break; case 18: s->GetMultiArray_linear(q, 3, nd, dd); break;
        }
    } catch (SFileException &) { ex = true; }
    SYM_ASSERT(ex, "a variable that is not there is refused"); SYM_ASSERT(!s->HasVariable(q) && s->GetDataType(q) == SFile::SFILE_DATA_UNDEFINED, "a variable that is not there has no type");
    SYM_ASSERT(s->GetScalar("x") == 1, "a refusal leaves the file usable"); done(s); sym_reach("end");
}
extern "C" void h_nofile() {
    format(); bool upd = sym_choice("update", 2), ex = false; static const char *N[3] = {"none.h5", "none.mat", "none.sdt"};
    try { SFile::Create(N[fmt], upd ? SFILE_MODE_UPDATE : SFILE_MODE_READ); } catch (SFileException &) { ex = true; }
    SYM_ASSERT(ex, "a file that does not exist is refused"); sym_reach("end");
}
extern "C" void h_update() {
    format(); double x = El<double>::any(), y = El<double>::any(), v[2] = {El<double>::any(), 1}; bool read = sym_choice("read", 2); int32_t z = 5; string t = text("c", 2);
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteScalar("a", x); w->WriteString("t", t); w->WriteList("l", v, 2); done(w);
    SFile *u = open_(SFILE_MODE_UPDATE);
    if (read) { SYM_ASSERT(u->HasVariable("a") && u->GetScalar("a") == x && u->GetString("t") == t, "a file opened for update can be read"); }
    u->WriteScalar("b", y); u->WriteInt32List("i", &z, 1); done(u);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t n;
    SYM_ASSERT(s->HasVariable("a") && s->HasVariable("t") && s->HasVariable("l"), "an update keeps the variables of the file");
    SYM_ASSERT(s->GetScalar("a") == x && s->GetString("t") == t, "an update keeps the values of the file");
    double *l = s->GetList("l", &n); SYM_ASSERT(n == 2 && l[0] == v[0] && l[1] == v[1], "an update keeps the values of the file"); delete[] l;
    SYM_ASSERT(s->HasVariable("b") && s->GetScalar("b") == y && s->GetInt32("i") == 5, "an update adds variables"); done(s); sym_reach("end");
}
extern "C" void h_overwrite() {
    format(); double x = El<double>::any();
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteScalar("old", 1); w->WriteScalar("a", 2); done(w);
    w = open_(SFILE_MODE_WRITE); w->WriteScalar("a", x); done(w);
    SFile *s = open_(SFILE_MODE_READ); SYM_ASSERT(!s->HasVariable("old") && s->GetScalar("a") == x, "a file written anew holds only what was written last"); done(s); sym_reach("end");
}
/* which format a name stands for */
extern "C" void h_filetype() {
    unsigned l = sym_choice("l", 6); string e = text("c", l), n = sym_choice("dot", 2) ? "dir.x/na.me." + e : e; bool dot = n != e;
    if (!dot) for (char c : e) sym_assume(c != '.');
    else for (char c : e) sym_assume(c != '.');
    sfile_type t = e == "h5" || e == "hdf5" ? SFILE_TYPE_HDF5 : e == "mat" ? SFILE_TYPE_MATLAB : e == "sdt" || e == "out" ? SFILE_TYPE_SDT : SFILE_TYPE_UNKNOWN;
    SYM_ASSERT(SFile::GetFileType(e) == t, "a format is known by its name");
    SYM_ASSERT(SFile::TypeOfFile(n) == (dot ? t : SFILE_TYPE_UNKNOWN), "the last extension decides the format of a file");
    if (t == SFILE_TYPE_UNKNOWN && dot) { bool ex = false; try { SFile::Create(n, SFILE_MODE_READ); } catch (SFileException &) { ex = true; } SYM_ASSERT(ex, "a file of unknown format is refused"); sym_reach("unknown"); } else sym_reach("known");
}
extern "C" void h_astype() {
    format(); double x = El<double>::any(); string n = sym_choice("odd", 2) ? "data" : "data.xyz";
    static const sfile_type T[3] = {SFILE_TYPE_HDF5, SFILE_TYPE_MATLAB, SFILE_TYPE_SDT};
    SFile *w = SFile::Create(n, SFILE_MODE_WRITE, T[fmt]); SYM_ASSERT(w->filetype == T[fmt], "a file opened as a format says so"); w->WriteScalar("a", x); done(w);
    SFile *s = SFile::Create(n, SFILE_MODE_READ, T[fmt]); SYM_ASSERT(s->GetScalar("a") == x, "a file opened as a format is read as that format"); done(s); sym_reach("end");
}
/* MAT header */
extern "C" void h_matheader() {
    fmt = MATF; TM[0] = sym_choice("wday", 7); TM[1] = sym_choice("mon", 12); tmset = true;
    TM[2] = (int)sym_zint("mday", 1, 31); TM[3] = (int)sym_zint("hour", 0, 23); TM[4] = (int)sym_zint("min", 0, 59); TM[5] = (int)sym_zint("sec", 0, 60);
    TM[2] = (int)sym_concrete_i64(TM[2] < 10 ? 7 : 17); TM[3] = 5; TM[4] = 6; TM[5] = 59;
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteScalar("x", 3); done(w);
    static const char D[] = "SunMonTueWedThuFriSat", M[] = "JanFebMarAprMayJunJulAugSepOctNovDec";
    unsigned char h[128]; FILE *f = fopen("f.mat", "rb"); size_t got = fread(h, 1, 128, f); fclose(f);
    SYM_ASSERT(got == 128, "a MAT file begins with a header"); string t((char *)h, 116);
    SYM_ASSERT(t.compare(0, 20, "MATLAB 7.3 MAT-file,") == 0, "the header names the format");
    string date = string(D + 3 * TM[0], 3) + " " + string(M + 3 * TM[1], 3) + " " + (TM[2] == 7 ? "07" : "17") + " 05:06:59 2018 ";
    SYM_ASSERT(t.find("Created on: " + date) != string::npos, "the header holds the date of creation");
    SYM_ASSERT(t.back() == ' ', "the header text is padded by blanks");
    static const unsigned char MG[12] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 'I', 'M'};
    for (unsigned i = 0; i < 12; i++) SYM_ASSERT(h[116 + i] == MG[i], "the header ends in the version and byte order marks");
    SFile *s = open_(SFILE_MODE_READ); SYM_ASSERT(s->GetScalar("x") == 3, "a MAT file is an HDF5 file after its header"); done(s); sym_reach("end");
}
template<typename T> static void mclass(const char *cls) {
    fmt = MATF; T v[4] = {1, 2, 3, 4}, *p[2] = {v, v + 2}; sfilesize_t d[3] = {2, 2, 1};
    SFile *w = open_(SFILE_MODE_WRITE); El<T>::warr(w, "a", p, 2, 2); El<T>::wm(w, "m", v, 3, d); w->WriteString("t", "xy"); done(w);
    SFile *s = SFile::Create(FN[fmt], SFILE_MODE_READ, SFILE_TYPE_HDF5);
    SYM_ASSERT(s->GetAttributeString("a", "MATLAB_class") == cls, "an array names its MATLAB class"); SYM_ASSERT(s->GetAttributeString("m", "MATLAB_class") == cls, "a multidimensional array names its MATLAB class");
    SYM_ASSERT(s->GetAttributeString("t", "MATLAB_class") == "char", "a text names its MATLAB class"); done(s); sym_reach("end");
}
extern "C" void h_matclass() {
    switch (sym_choice("type", 5)) { case 0: mclass<double>("double"); break; case 1: mclass<int32_t>("int32"); break; case 2: mclass<int64_t>("int64"); break; case 3: mclass<uint32_t>("uint32"); break; default: mclass<uint64_t>("uint64"); }
}
/* ------------------------------------------------ text files written by others */
#ifdef VERIF_SYMBOLIC
static void put_file(const char *name, const string &text) { *std::verif_file(name) = text; }
#else
static void put_file(const char *name, const string &text) { std::ofstream f(name); f << text; }
#endif
extern "C" void h_sdtspec() {
    fmt = SDTF; string g[6]; unsigned at = sym_choice("at", 6);
    for (unsigned i = 0; i < 6; i++) g[i] = " ";
    { string w; unsigned l = sym_choice("gl", 2) + 1; for (unsigned i = 0; i < l; i++) { unsigned char c = sym_u8("ws"); sym_assume(c == ' ' || c == '\t'); w += (char)c; } g[at] = w; }
    unsigned char dg = sym_u8("digit"), sg = sym_u8("sign"), nc = sym_u8("name"); sym_assume(dg >= '0' && dg <= '9'); sym_assume(sg == '-' || sg == '+' || (sg >= '0' && sg <= '9')); sym_assume(nc > ' ' && nc < 127);
    string num; num += (char)sg; num += (char)dg; double v = sg == '-' ? -(dg - '0') : sg == '+' ? dg - '0' : (sg - '0') * 10 + (dg - '0');
    string nm = string("n") + (char)nc, d;
    for (unsigned i = sym_choice("lead", 2); i; i--) d += "\n";
    d += "@matrix" + g[0] + nm + g[1] + "3" + g[2] + "2\n1" + g[3] + "2\n3 " + num + g[4] + "\n5 6\n";
    for (unsigned i = sym_choice("between", 3); i; i--) d += "\n";
    d += "@string" + g[5] + "txt 2\n104 -1 \n\n@matrix last 1 1\n" + num + (sym_choice("end", 2) ? "" : "\n");
    put_file(FN[fmt], d); SFile *s = open_(SFILE_MODE_READ); sfilesize_t n[2];
    double **a = s->GetDoubles(nm, n); SYM_ASSERT(n[0] == 3 && n[1] == 2, "a matrix of a text file has the given size");
    SYM_ASSERT(a[0][0] == 1 && a[0][1] == 2 && a[1][0] == 3 && a[2][0] == 5 && a[2][1] == 6, "a matrix of a text file has the given elements");
    SYM_EQ(a[1][1], v, "an element of a text file has the written value"); SYM_EQ(s->GetScalar("last"), v, "the last variable of a text file is read");
    SYM_ASSERT(s->GetString("txt") == string("h\xff"), "a text of a text file is decoded"); delete[] a[0]; delete[] a; done(s); sym_reach("end");
}
/* any bytes at all */
static const char *PRE[7] = {"", "@matrix a ", "@matrix a 2 2\n1 2\n", "@string s 1\n", "@matrix a 1 1\n", "@matrix ", "@string s "};
static const char *POST[2] = {"", "\n1 2\n\n@matrix z 1 1\n4\n"};
extern "C" void h_sdtbytes() {
    fmt = SDTF; unsigned k = sym_choice("pre", 7); string d = "@matrix k 1 1\n3\n\n"; d += PRE[k];
    for (unsigned i = 0; i < LEN; i++) { unsigned char c = sym_u8("c"); sym_assume(c != 1); if (k == 1) sym_assume(c < '4' || c > '9'); d += (char)c; }
    d += POST[sym_choice("post", 2)];
    put_file(FN[fmt], d); bool ex = false; SFile *s = nullptr;
    try { s = open_(SFILE_MODE_READ); } catch (SFileException &) { ex = true; } catch (std::bad_alloc &) { ex = true; } catch (std::length_error &) { ex = true; }
    if (ex) { sym_reach("refused"); return; }
    SYM_ASSERT(s->GetScalar("k") == 3, "variables before odd text are read");
    if (s->HasVariable("a") && s->GetDataType("a") == SFile::SFILE_DATA_DOUBLE) { sfilesize_t n[2]; double **a = s->GetDoubles("a", n); double sum = 0; for (sfilesize_t i = 0; i < n[0]; i++) for (sfilesize_t j = 0; j < n[1]; j++) sum += a[i][j]; SYM_ASSERT(sum == sum, "the elements of an accepted matrix are there"); }
    done(s); sym_reach("read");
}
/* sizes of any magnitude: what is read is exactly as large as announced */
extern "C" void h_sdtsize() {
    static const char *SZ[11] = {"0", "1", "2", "4", "2147483648", "4294967296", "2305843009213693952", "4611686018427387904", "9223372036854775808", "18446744073709551615", "18446744073709551617"};
    fmt = SDTF; unsigned r = sym_choice("rows", 11), c = sym_choice("columns", 11);
    string d = string("@matrix k 1 1\n3\n\n@matrix a ") + SZ[r] + " " + SZ[c] + "\n1 2 3 4\n1 2 3 4\n1 2 3 4\n1 2 3 4\n";
    put_file(FN[fmt], d); bool ex = false; SFile *s = nullptr;
    try { s = open_(SFILE_MODE_READ); } catch (SFileException &) { ex = true; } catch (std::bad_alloc &) { ex = true; } catch (std::length_error &) { ex = true; }
    if (r > 0 && r < 4 && c > 0 && c < 4) {
        /* what is left of the rows is no variable */
        if (r < 3) { SYM_ASSERT(ex, "rows which were not announced are refused"); sym_reach("refused"); return; }
        SYM_ASSERT(!ex, "a matrix of the announced size is accepted");
        sfilesize_t n[2], w = c == 1 ? 1 : c == 2 ? 2 : 4; double **a = s->GetDoubles("a", n);
        SYM_ASSERT(n[0] == 4 && n[1] == w, "a matrix of a text file has the given size");
        for (unsigned i = 0; i < 4; i++) for (unsigned j = 0; j < w; j++) SYM_ASSERT(a[i][j] == 1 + j, "a matrix of a text file has the given elements");
        delete[] a[0]; delete[] a; done(s); sym_reach("read");
        return;
    }
    if (r > 0 && c > 0) SYM_ASSERT(ex, "a matrix smaller than announced is refused");
    if (ex) sym_reach("refused");
}

/* ------------------------------------------------ many elements, long texts, many variables */
template<typename T> static void large_(unsigned r, unsigned c) {
    unsigned n = r * c; T *v = new T[n], **p = new T *[r], x = El<T>::any(), y = El<T>::any();
    for (unsigned i = 0; i < n; i++) v[i] = (T)(i * 3 % 251 + i / 16);
    v[n / 2] = x; v[n - 1] = y; v[c - 1] = x;
    for (unsigned i = 0; i < r; i++) p[i] = v + i * c;
    SFile *w = open_(SFILE_MODE_WRITE); El<T>::warr(w, "m", p, r, c); w->WriteScalar("between", 5); El<T>::wlist(w, "l", v, n); done(w);
    SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2]; bool same = true;
    T **a = El<T>::g2(s, "m", d); SYM_ASSERT(d[0] == r && d[1] == c, "a large array keeps its shape");
    for (unsigned i = 0; i < n; i++) same &= a[i / c][i % c] == v[i];
    SYM_ASSERT(same, "a large array keeps its values"); delete[] a[0]; delete[] a;
    T *l = El<T>::g1(s, "l", d); SYM_ASSERT(d[0] == n, "a long list keeps its length"); same = true;
    for (unsigned i = 0; i < n; i++) same &= l[i] == v[i];
    SYM_ASSERT(same, "a long list keeps its values"); delete[] l;
    SYM_ASSERT(s->GetScalar("between") == 5, "variables do not disturb one another");
    done(s); sym_reach("end");
}
extern "C" void h_large() {
    format(); unsigned t = sym_choice("type", 5);
    switch (t) { case 0: large_<double>(17, 19); break; case 1: large_<int32_t>(3, 67); break; case 2: large_<int64_t>(40, 3); break; case 3: large_<uint32_t>(9, 16); break; default: large_<uint64_t>(16, 9); }
}
extern "C" void h_largemulti() {
    fmt = sym_choice("mat", 2) ? MATF : H5F; sfilesize_t d[5] = {3, 4, 5, 2, 3}, gd[6] = {0}, gn = 0; unsigned nd = 4 + sym_choice("five", 2), n = nd == 4 ? 120 : 360;
    double *v = new double[n]; for (unsigned i = 0; i < n; i++) v[i] = i * 0.5; v[77] = El<double>::any(); v[n - 1] = El<double>::any();
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteMultiArray("x", v, nd, d); done(w);
    SFile *s = open_(SFILE_MODE_READ); double *l = s->GetMultiArray_linear("x", 6, gn, gd); bool same = true;
    SYM_ASSERT(l != nullptr && gn == nd, "a multidimensional array keeps its number of dimensions");
    for (unsigned i = 0; i < nd; i++) SYM_ASSERT(gd[i] == d[i], "a multidimensional array keeps its shape");
    for (unsigned i = 0; i < n; i++) same &= l[i] == v[i];
    SYM_ASSERT(same, "a multidimensional array keeps its values"); delete[] l; done(s); sym_reach("end");
}
static string longtext(unsigned n) {
    string v; for (unsigned i = 0; i < n; i++) v += (char)('!' + i * 7 % 90);
    unsigned char a = sym_u8("c"), b = sym_u8("c"); sym_assume(a != 0); sym_assume(b != 0); v[n / 2] = (char)a; v[n - 1] = (char)b;
    return v;
}
extern "C" void h_longtext() {
    format(); static const unsigned L[5] = {31, 64, 128, 256, 1030}; string v = longtext(L[sym_choice("length", 5)]), u = longtext(40), nm;
    for (unsigned i = 0; i < 90; i++) nm += (char)('a' + i % 26);
    SFile *w = open_(SFILE_MODE_WRITE); w->WriteString("x", v); w->WriteScalar("y", 5); w->WriteAttribute_string("y", "t", u); w->WriteScalar(nm, 6); w->WriteScalar(nm + "x", 7); w->WriteString("last", u); done(w);
    SFile *s = open_(SFILE_MODE_READ);
    SYM_ASSERT(s->GetString("x") == v, "a long text reads back"); SYM_ASSERT(s->GetScalar("y") == 5, "what follows a long text reads back");
    SYM_ASSERT(s->GetAttributeString("y", "t") == u, "a long attribute reads back"); SYM_ASSERT(s->GetString("last") == u, "what follows a long text reads back");
    SYM_ASSERT(s->GetScalar(nm) == 6 && s->GetScalar(nm + "x") == 7 && !s->HasVariable(nm + "y"), "long names are told apart"); done(s); sym_reach("end");
}
extern "C" void h_manyvars() {
    format(); unsigned n = 40, k = 23; double x = El<double>::any(), l[3] = {1, 2, 3};
    SFile *w = open_(SFILE_MODE_WRITE);
    for (unsigned i = 0; i < n; i++) { string nm = "v" + std::to_string(i); if (i % 4 == 1) w->WriteString(nm, nm + "."); else if (i % 4 == 2) { l[1] = i; w->WriteList(nm, l, 3); } else w->WriteScalar(nm, i == k ? x : (double)i); }
    done(w); SFile *s = open_(SFILE_MODE_READ); sfilesize_t d[2]; bool ok = true;
    for (unsigned j = 0; j < n; j++) {
        unsigned i = (j * 7 + 3) % n; string nm = "v" + std::to_string(i); ok &= s->HasVariable(nm);
        if (i % 4 == 1) ok &= s->GetString(nm) == nm + "."; else if (i % 4 == 2) { double *q = s->GetDoubles1D(nm, d); ok &= d[0] == 3 && q[0] == 1 && q[1] == i && q[2] == 3; delete[] q; } else if (i == k) SYM_ASSERT(s->GetScalar(nm) == x, "each of many variables has its value"); else ok &= s->GetScalar(nm) == i;
    }
    SYM_ASSERT(ok, "each of many variables has its value"); SYM_ASSERT(!s->HasVariable("v40") && !s->HasVariable("v"), "a variable is found exactly when it was written"); done(s); sym_reach("end");
}
/* large text files written by others */
extern "C" void h_sdtlarge() {
    fmt = SDTF; unsigned c = 40 + sym_choice("more", 3) * 30, r = 3, n = 200; unsigned char dg = sym_u8("digit"); sym_assume(dg >= '0' && dg <= '9');
    string d = "@matrix m " + std::to_string(r) + " " + std::to_string(c) + "\n";
    for (unsigned i = 0; i < r; i++) { for (unsigned j = 0; j < c; j++) { if (j) d += " "; if (i == 1 && j == c - 1) d += (char)dg; else d += std::to_string(i * 1000 + j * 7); } d += "\n"; }
    d += "\n@string t " + std::to_string(n) + "\n"; for (unsigned i = 0; i < n; i++) { if (i) d += " "; d += std::to_string(33 + i * 5 % 90); } d += "\n\n@matrix z 1 1\n4\n";
    put_file(FN[fmt], d); SFile *s = open_(SFILE_MODE_READ); sfilesize_t q[2]; double **a = s->GetDoubles("m", q); bool ok = true;
    SYM_ASSERT(q[0] == r && q[1] == c, "a matrix of a text file has the given size");
    for (unsigned i = 0; i < r; i++) for (unsigned j = 0; j < c; j++) if (i == 1 && j == c - 1) SYM_EQ(a[i][j], dg - '0', "an element of a text file has the written value"); else ok &= a[i][j] == i * 1000 + j * 7;
    SYM_ASSERT(ok, "a matrix of a text file has the given elements"); string t = s->GetString("t"); ok = t.size() == n;
    for (unsigned i = 0; ok && i < n; i++) ok = t[i] == (char)(33 + i * 5 % 90);
    SYM_ASSERT(ok, "a text of a text file is decoded"); SYM_ASSERT(s->GetScalar("z") == 4, "the last variable of a text file is read"); done(s); sym_reach("end");
}
