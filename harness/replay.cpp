/* Native side of sym.h: feeds the values of a counterexample, in call order,
 * to the harness compiled against the real code.
 *   replay ENTRY VALUES.txt
 * VALUES: one "name value" per line (value: integer or p/q).
 * exit 0: every assertion held; exit 1: an assertion failed; 77: the values do
 * not follow this path (an assumption failed). */
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
#include "sym.h"

static std::map<std::string, std::vector<std::string>> vals;
static std::map<std::string, size_t> used;

static const std::string *next(const char *name) {
    size_t i = used[name]++;
    std::string k = i == 0 ? std::string(name) : std::string(name) + "#" + std::to_string(i);
    auto it = vals.find(k);
    if (it == vals.end() || it->second.empty()) return nullptr;
    return &it->second[0];
}
static double num(const std::string &s) {
    size_t p = s.find('/');
    if (p == std::string::npos) return strtod(s.c_str(), nullptr);
    long double a = strtold(s.substr(0, p).c_str(), nullptr), b = strtold(s.substr(p + 1).c_str(), nullptr);
    if (std::isinf(a) || std::isinf(b)) {
        /* huge numerator and denominator: scale by dropping digits */
        std::string n = s.substr(0, p), d = s.substr(p + 1);
        bool neg = n[0] == '-'; if (neg) n = n.substr(1);
        int e = (int)n.size() - (int)d.size();
        long double x = strtold(("0." + n).c_str(), nullptr) / strtold(("0." + d).c_str(), nullptr);
        x *= powl(10.0L, e);
        return (double)(neg ? -x : x);
    }
    return (double)(a / b);
}
extern "C" {
unsigned long sym_u64(const char *n) { auto s = next(n); return s ? strtoull(s->c_str(), nullptr, 10) : 0; }
unsigned char sym_u8(const char *n) { return (unsigned char)sym_u64(n); }
unsigned int sym_u32(const char *n) { return (unsigned int)sym_u64(n); }
int sym_i32(const char *n) { return (int)sym_u64(n); }
long sym_i64(const char *n) { auto s = next(n); if (!s) return 0; return (*s)[0] == '-' ? strtoll(s->c_str(), nullptr, 10) : (long)strtoull(s->c_str(), nullptr, 10); }
bool sym_bool(const char *n) { return sym_u64(n) != 0; }
double sym_real(const char *n) { auto s = next(n); return s ? num(*s) : 0; }
long sym_zint(const char *n, long lo, long hi) { auto s = next(n); return s ? strtoll(s->c_str(), nullptr, 10) : lo; }
unsigned int sym_choice(const char *n, unsigned int) { return (unsigned int)sym_u64(n); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-FAILED\n"); fflush(stdout); _Exit(77); } }
void sym_assert_(bool c, const char *l) { if (!c) { printf("ASSERT-FAILED %s\n", l); fflush(stdout); _Exit(1); } }
void sym_eq_(double a, double b, const char *l) {
    bool ok = (std::isnan(a) && std::isnan(b)) || a == b || fabs(a - b) <= 1e-7 * (1e-3 + fabs(a) + fabs(b));
    if (!ok) { printf("ASSERT-FAILED %s (%.17g != %.17g)\n", l, a, b); fflush(stdout); _Exit(1); }
}
void sym_reach(const char *) {}
void sym_note(const char *) {}
bool sym_is_symbolic() { return false; }
long sym_concrete_i64(long v) { return v; }
bool sym_finite(double x) { return std::isfinite(x); }
bool sym_valid(const void *p, unsigned long) { return p != nullptr; }
unsigned long sym_live_heap() { return 0; }
/* derivative of the harness' quantity: supplied by the harness through finite differences */
double sym_deriv(double, double) { printf("NO-DERIV\n"); _Exit(78); }
static std::map<std::string, double> uft;
double sym_uf(const char *n, long key, double x, double y) {
    /* a smooth stand-in: value depends on key and position */
    unsigned h = 0; for (const char *p = n; *p; p++) h = h * 31 + (unsigned char)*p;
    double a = 1 + ((h + key * 7) % 13) * 0.1;
    return a + 0.3 * a * x - 0.2 * (key + 1) * y + 0.05 * x * y;
}
}
#ifdef REPLAY_CLOCK
#endif
int main(int argc, char **argv) {
    if (argc < 3) return 99;
    FILE *f = fopen(argv[2], "r");
    if (!f) return 99;
    static char name[4096], v[1 << 20];
    while (fscanf(f, "%4095s %1048575s", name, v) == 2) vals[name].push_back(v);
    fclose(f);
    void *h = dlopen(nullptr, RTLD_NOW);
    void (*fn)() = (void (*)())dlsym(h, argv[1]);
    if (!fn) { printf("no entry %s\n", argv[1]); return 99; }
    fn();
    printf("REPLAY-OK\n");
    return 0;
}
