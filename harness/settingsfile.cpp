/* Typed settings (the ones of file-based configurations). */
#include <cstdint>
#include <string>
#include <vector>
#include <softlib/Configuration.h>
#include <softlib/ConfigurationException.h>
#include <softlib/Configuration/ConfigurationSFile.h>
#include <softlib/Configuration/ConfigurationScript.h>
#include "sym.h"
using std::string; using std::vector;
static const unsigned N = 2;
static bool B[2]; static int32_t I[2]; static int64_t L[2]; static uint32_t U[2]; static uint64_t V[2]; static double R[2]; static string S[2];
static SettingSFile *make(unsigned t) {
    switch (t) {
        case 0: { auto v = new vector<bool>; for (auto &x : B) { x = sym_bool("b"); v->push_back(x); } return new SettingSFile(v); }
        case 1: { auto v = new vector<int32_t>; for (auto &x : I) { x = sym_i32("i"); v->push_back(x); } return new SettingSFile(v); }
        case 2: { auto v = new vector<int64_t>; for (auto &x : L) { x = sym_i64("l"); v->push_back(x); } return new SettingSFile(v); }
        case 3: { auto v = new vector<uint32_t>; for (auto &x : U) { x = sym_u32("u"); v->push_back(x); } return new SettingSFile(v); }
        case 4: { auto v = new vector<uint64_t>; for (auto &x : V) { x = sym_u64("v"); v->push_back(x); } return new SettingSFile(v); }
        case 5: { auto v = new vector<double>; for (auto &x : R) { x = sym_real("r"); v->push_back(x); } return new SettingSFile(v); }
        default: { auto v = new vector<string>; for (auto &x : S) { x = "s"; x += (char)sym_u8("s"); v->push_back(x); } return new SettingSFile(v); }
    }
}
static void same(const Setting *s, unsigned t) {
    SYM_ASSERT(s->GetNumberOfValues() == N, "a setting has as many values as it was given");
    bool num = t >= 1 && t <= 5;
    SYM_ASSERT(s->IsBool() == (t == 0) && s->IsBool(1) == (t == 0), "only truth values are truth values");
    SYM_ASSERT(s->IsInteger() == num && s->IsNumericVector() == num, "numbers are numbers, nothing else is");
    SYM_ASSERT(!s->IsScalar(), "two values are not a scalar");
    for (unsigned i = 0; i < N; i++) {
        if (t == 0) SYM_ASSERT(s->GetBool(i) == B[i], "a truth value is the one given");
        if (t == 1) SYM_ASSERT(s->GetInteger(i) == I[i] && s->GetInteger32(i) == I[i] && s->GetInteger64(i) == I[i] && s->GetScalar(i) == (double)I[i], "a value is the one given");
        if (t == 2) SYM_ASSERT(s->GetInteger(i) == L[i] && s->GetInteger64(i) == L[i], "a value is the one given");
        if (t == 3) SYM_ASSERT(s->GetInteger(i) == U[i] && s->GetUnsignedInteger32(i) == U[i] && s->GetScalar(i) == (double)U[i], "a value is the one given");
        if (t == 4) SYM_ASSERT(s->GetUnsignedInteger64(i) == V[i], "a value is the one given");
        if (t == 5) SYM_ASSERT(s->GetScalar(i) == R[i], "a value is the one given");
        if (t == 6) SYM_ASSERT(s->GetString(i) == S[i], "a text is the one given");
        /* ranges */
        bool i32 = t == 1 || (t == 2 && L[i] >= -2147483648L && L[i] <= 2147483647L) || (t == 3 && U[i] <= 2147483647u) || (t == 4 && V[i] <= 2147483647u);
        bool u64 = t == 3 || t == 4 || (t == 1 && I[i] >= 0) || (t == 2 && L[i] >= 0);
        bool u32 = u64 && (t == 3 || t == 1 || (t == 2 && L[i] <= 4294967295L) || (t == 4 && V[i] <= 4294967295ul));
        if (t != 5) { SYM_ASSERT(s->IsInteger32(i) == i32, "a value is a 32 bit integer exactly when it fits"); SYM_ASSERT(s->IsUnsignedInteger32(i) == u32, "a value is an unsigned 32 bit integer exactly when it fits"); SYM_ASSERT(s->IsUnsignedInteger64(i) == u64, "a value is unsigned exactly when it is not negative"); }
        if (i32) SYM_ASSERT(s->GetInteger32(i) == (t == 1 ? I[i] : t == 2 ? (int32_t)L[i] : t == 3 ? (int32_t)U[i] : (int32_t)V[i]), "a value that fits is given exactly");
        if (u32) SYM_ASSERT(s->GetUnsignedInteger32(i) == (t == 1 ? (uint32_t)I[i] : t == 2 ? (uint32_t)L[i] : t == 3 ? U[i] : (uint32_t)V[i]), "a value that fits is given exactly");
    }
    /* without an index: the first value */
    if (t == 0) SYM_ASSERT(s->GetBool() == B[0], "the first value is given if none is named");
    if (t == 1) SYM_ASSERT(s->GetInteger() == I[0] && s->GetInteger32() == I[0], "the first value is given if none is named");
    if (t == 2) SYM_ASSERT(s->GetInteger64() == L[0], "the first value is given if none is named");
    if (t == 3) SYM_ASSERT(s->GetUnsignedInteger32() == U[0], "the first value is given if none is named");
    if (t == 4) SYM_ASSERT(s->GetUnsignedInteger64() == V[0], "the first value is given if none is named");
    if (t == 5) SYM_ASSERT(s->GetScalar() == R[0], "the first value is given if none is named");
    if (t == 6) SYM_ASSERT(s->GetString() == S[0], "the first value is given if none is named");
    bool ex = false; try {
        vector<slibreal_t> v = s->GetNumericVector(); SYM_ASSERT(v.size() == N, "a vector has as many elements as the setting has values");
        for (unsigned i = 0; i < N; i++) SYM_ASSERT(v[i] == (t == 1 ? (double)I[i] : t == 2 ? (double)L[i] : t == 3 ? (double)U[i] : t == 4 ? (double)V[i] : R[i]), "the elements of a vector are the values");
    } catch (ConfigurationException &) { ex = true; } SYM_ASSERT(ex == !num, "only numbers are a vector");
    ex = false; try { vector<string> v = s->GetTextVector(); SYM_ASSERT(v.size() == N && v[0] == S[0] && v[1] == S[1], "a list of texts is the one given"); } catch (ConfigurationException &) { ex = true; } SYM_ASSERT(ex == (t != 6), "only texts are texts");
    if (t != 0) { ex = false; try { s->GetBool(0); } catch (ConfigurationException &) { ex = true; } SYM_ASSERT(ex, "a number or text is not a truth value"); }
    if (!num) { for (unsigned k = 0; k < 2; k++) { ex = false; try { if (k) s->GetScalar(0); else s->GetInteger(0); } catch (ConfigurationException &) { ex = true; } SYM_ASSERT(ex, "a truth value or text is not a number"); } }
    if (t != 6) { ex = false; try { s->GetString(0); } catch (ConfigurationException &) { ex = true; } SYM_ASSERT(ex, "a number or truth value is not a text"); }
    if (num && t != 5) { ex = false; try { s->GetInteger(N); } catch (std::exception &) { ex = true; } SYM_ASSERT(ex, "there is no value beyond the last"); }
}
extern "C" void h_typed() { unsigned t = sym_choice("type", 7); SettingSFile *s = make(t); same(s, t); delete s; sym_reach("end"); }
extern "C" void h_typedcopy() {
    unsigned t = sym_choice("type", 7); SettingSFile *s = make(t); Setting *c = s->Copy();
    SYM_ASSERT(c != s && c->GetName() == s->GetName(), "a copy has the name of the original"); same(c, t);
    SettingSFile other(new vector<int32_t>(3, 1)); s->OverwriteValues(&other); same(c, t); delete s; same(c, t); delete c; sym_reach("end");
}
extern "C" void h_typedover() {
    unsigned t = sym_choice("type", 7); SettingSFile *s = make(t); unsigned q = sym_choice("old", 3);
    SettingSFile *d = q == 0 ? new SettingSFile(new vector<double>(3, 1.0)) : q == 1 ? new SettingSFile(new vector<string>(1, "x")) : new SettingSFile(new vector<bool>(2, true));
    d->OverwriteValues(s); same(d, t); same(s, t); s->OverwriteValues(s); same(s, t); delete s; same(d, t); delete d; sym_reach("end");
}
/* values from a script */
extern "C" void h_typedscript() {
    unsigned k = sym_choice("k", 5); unsigned char a = sym_u8("a"), b = sym_u8("b"); sym_assume(a >= '0' && a <= '9' && b >= '0' && b <= '9');
    vector<string> v; SettingSFile d(new vector<int32_t>(3, 1));
    if (k == 0) { v.push_back(string(1, (char)a) + (char)b); } else if (k == 1) { v.push_back(string("1.") + (char)a); v.push_back(string(1, (char)b)); } else if (k == 2) { v.push_back(sym_choice("yes", 2) ? "yes" : "no"); }
    else if (k == 3) { v.push_back("text"); v.push_back(string("q") + (char)a); } else { v.push_back(string("300000000") + (char)a); }
    SettingScript s("name", v); d.OverwriteValues(&s); SYM_ASSERT(d.GetNumberOfValues() == v.size(), "a setting takes over as many values as there are");
    double x = a - '0', y = b - '0';
    if (k == 0) { SYM_ASSERT(d.IsInteger() && d.GetInteger(0) == (a - '0') * 10 + (b - '0'), "an integer is taken over"); }
    if (k == 1) { SYM_EQ(d.GetScalar(0), 1 + x / 10, "a number is taken over"); SYM_EQ(d.GetScalar(1), y, "a number is taken over"); }
    if (k == 2) SYM_ASSERT(d.IsBool() && d.GetBool(0) == (v[0] == "yes"), "a truth value is taken over");
    if (k == 3) SYM_ASSERT(d.GetString(0) == "text" && d.GetString(1) == v[1], "texts are taken over");
    if (k == 4) SYM_ASSERT(d.GetInteger64(0) == 3000000000L + (a - '0'), "a large integer is taken over");
    sym_reach("end");
}

/* values from a setting of another kind: which answers "yes" to exactly one of the questions about its type (and only its own readers answer) */
struct OtherSetting : public Setting {
    unsigned t; bool b[2]; int64_t n[2]; double r[2]; string s[2];
    OtherSetting(unsigned t) : t(t) {}
    Setting *Copy() { return nullptr; }
    void OverwriteValues(const Setting*) {}
    size_t GetNumberOfValues() const { return 2; }
    void need(bool ok) const { if (!ok) throw ConfigurationException("not of this type"); }
    bool GetBool(unsigned i = 0) const { need(t == 0); return b[i]; }
    int64_t GetInteger(unsigned i = 0) const { need(t >= 1 && t <= 4); return n[i]; }
    int32_t GetInteger32(unsigned i = 0) const { need(t == 1); return (int32_t)n[i]; }
    int64_t GetInteger64(unsigned i = 0) const { need(t == 1 || t == 2); return n[i]; }
    uint32_t GetUnsignedInteger32(unsigned i = 0) const { need(t == 3); return (uint32_t)n[i]; }
    uint64_t GetUnsignedInteger64(unsigned i = 0) const { need(t == 3 || t == 4); return (uint64_t)n[i]; }
    slibreal_t GetScalar(unsigned i = 0) const { need(t == 5); return r[i]; }
    string GetString(unsigned i = 0) const { need(t == 6); return s[i]; }
    vector<slibreal_t> GetNumericVector() const { need(t == 5); return vector<slibreal_t>(r, r + 2); }
    const vector<string> GetTextVector() const { need(t == 6); return vector<string>(s, s + 2); }
    bool IsBool() const { return t == 0; } bool IsBool(unsigned) const { return t == 0; }
    bool IsInteger() const { return t >= 1 && t <= 4; } bool IsInteger(unsigned) const { return IsInteger(); }
    bool IsInteger32() const { return t == 1; } bool IsInteger32(unsigned) const { return t == 1; }
    bool IsInteger64() const { return t == 2; } bool IsInteger64(unsigned) const { return t == 2; }
    bool IsUnsignedInteger32() const { return t == 3; } bool IsUnsignedInteger32(unsigned) const { return t == 3; }
    bool IsUnsignedInteger64() const { return t == 4; } bool IsUnsignedInteger64(unsigned) const { return t == 4; }
    bool IsScalar() const { return false; } bool IsScalar(unsigned) const { return t == 5; }
    bool IsNumericVector() const { return t == 5; } bool IsNumericVector(unsigned) const { return t == 5; }
};
extern "C" void h_typedother() {
    unsigned t = sym_choice("type", 7); OtherSetting o(t); SettingSFile d(new vector<string>(3, "x"));
    for (int i = 0; i < 2; i++) switch (t) {
        case 0: o.b[i] = sym_bool("b"); break;
        case 1: o.n[i] = sym_i32("i"); break;
        case 2: o.n[i] = sym_i64("l"); break;
        case 3: o.n[i] = sym_u32("u"); break;
        case 4: o.n[i] = (int64_t)sym_u64("v"); break;
        case 5: o.r[i] = sym_real("r"); break;
        default: o.s[i] = "s"; o.s[i] += (char)sym_u8("s");
    }
    d.OverwriteValues(&o); SYM_ASSERT(d.GetNumberOfValues() == 2, "a setting takes over as many values as there are");
    for (unsigned i = 0; i < 2; i++) switch (t) {
        case 0: SYM_ASSERT(d.IsBool() && d.GetBool(i) == o.b[i], "a truth value is taken over"); break;
        case 1: SYM_ASSERT(d.GetInteger32(i) == (int32_t)o.n[i], "a value is taken over"); break;
        case 2: SYM_ASSERT(d.GetInteger64(i) == o.n[i], "a value is taken over"); break;
        case 3: SYM_ASSERT(d.GetUnsignedInteger32(i) == (uint32_t)o.n[i], "a value is taken over"); break;
        case 4: SYM_ASSERT(d.GetUnsignedInteger64(i) == (uint64_t)o.n[i], "a value is taken over"); break;
        case 5: SYM_ASSERT(d.GetScalar(i) == o.r[i], "a number is taken over"); break;
        default: SYM_ASSERT(d.GetString(i) == o.s[i], "a text is taken over");
    }
    sym_reach("end");
}

/* many values */
extern "C" void h_typedmany() {
    unsigned t = sym_choice("type", 4), n = 50; int64_t z = sym_i64("z"); double x = sym_real("x"); string q = "t"; q += (char)sym_u8("q"); bool b = sym_bool("b"), ok = true;
    auto vl = new vector<int64_t>; auto vr = new vector<double>; auto vs = new vector<string>; auto vb = new vector<bool>;
    for (unsigned i = 0; i < n; i++) { bool at = i == 37 || i == n - 1; vl->push_back(at ? z : (int64_t)i * 7 - 100); vr->push_back(at ? x : i * 0.5); vs->push_back(at ? q : "w" + std::to_string(i)); vb->push_back(at ? b : i % 3 == 0); }
    Setting *s = t == 0 ? new SettingSFile(vl) : t == 1 ? new SettingSFile(vr) : t == 2 ? new SettingSFile(vs) : new SettingSFile(vb);
    if (sym_choice("copy", 2)) s = s->Copy();
    SYM_ASSERT(s->GetNumberOfValues() == n, "a setting has as many values as it was given");
    for (unsigned i = 0; i < n; i++) {
        bool at = i == 37 || i == n - 1;
        if (t == 0) { if (at) SYM_ASSERT(s->GetInteger64(i) == z, "a value is the one given"); else ok &= s->GetInteger64(i) == (int64_t)i * 7 - 100; }
        if (t == 1) { if (at) SYM_ASSERT(s->GetScalar(i) == x, "a value is the one given"); else ok &= s->GetScalar(i) == i * 0.5; }
        if (t == 2) { if (at) SYM_ASSERT(s->GetString(i) == q, "a text is the one given"); else ok &= s->GetString(i) == "w" + std::to_string(i); }
        if (t == 3) { if (at) SYM_ASSERT(s->GetBool(i) == b, "a truth value is the one given"); else ok &= s->GetBool(i) == (i % 3 == 0); }
    }
    if (t < 2) { vector<slibreal_t> v = s->GetNumericVector(); ok &= v.size() == n && v[36] == (t ? 18 : 152); if (t) SYM_ASSERT(v[37] == x && v[n - 1] == x, "the elements of a vector are the values"); }
    if (t == 2) { vector<string> v = s->GetTextVector(); ok &= v.size() == n && v[36] == "w36"; SYM_ASSERT(v[n - 1] == q, "a list of texts is the one given"); }
    SYM_ASSERT(ok, "each of many values is the one given"); sym_reach("end");
}
