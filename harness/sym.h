/* API between a harness and the symbolic executor (or the native replayer). */
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
extern "C" {
unsigned char sym_u8(const char *name);
unsigned int sym_u32(const char *name);
int sym_i32(const char *name);
unsigned long sym_u64(const char *name);
long sym_i64(const char *name);
bool sym_bool(const char *name);
double sym_real(const char *name);
long sym_zint(const char *name, long lo, long hi);      /* mathematical integer in [lo,hi] */
unsigned int sym_choice(const char *name, unsigned int n); /* 0..n-1, one path per value */
void sym_assume(bool c);
void sym_assert_(bool c, const char *label);
void sym_eq_(double a, double b, const char *label);
void sym_reach(const char *label);
void sym_note(const char *label);
bool sym_is_symbolic();
long sym_concrete_i64(long v);
double sym_deriv(double e, double x);
double sym_uf(const char *name, long key, double x, double y);
bool sym_finite(double x);
bool sym_valid(const void *p, unsigned long n);
unsigned long sym_live_heap();
}
#define SYM_ASSERT(c, label) sym_assert_((c), (label))
#define SYM_EQ(a, b, label) sym_eq_((a), (b), (label))
/* a real in [lo,hi] */
static inline double sym_real_in(const char *name, double lo, double hi) {
    double x = sym_real(name);
    sym_assume(x >= lo);
    sym_assume(x <= hi);
    return x;
}
#endif
