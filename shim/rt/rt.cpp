/* Runtime support compiled to IR together with the analysed code: red-black
 * tree and list primitives of libstdc++, number parsing of libc, file table. */
#include <map>
#include <list>
#include <string>
#include <vector>
#include <cerrno>
#include <iostream>
#include <cstdarg>
#include <cstring>
#include <ctime>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <unordered_map>

__attribute__((weak)) unsigned char *verif_block(const char *, unsigned long *) { return nullptr; }
__attribute__((weak)) void verif_block_spoil(const char *) {}

namespace std {
ostream cout(verif_stdout()), cerr, clog;
istream cin;

/* an unbalanced search tree honours the same ordering contract */
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right != 0) {
        x = x->_M_right;
        while (x->_M_left != 0) x = x->_M_left;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() {
    return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0) {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right != 0) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() {
    return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x));
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p,
                                   _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent;
    auto replace = [&](_Rb_tree_node_base *a, _Rb_tree_node_base *b) {
        if (a == root) root = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (z->_M_left == 0) replace(z, z->_M_right);
    else if (z->_M_right == 0) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base *y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (root == 0) { h._M_left = &h; h._M_right = &h; }
    else {
        _Rb_tree_node_base *m = root;
        while (m->_M_left) m = m->_M_left;
        h._M_left = m;
        m = root;
        while (m->_M_right) m = m->_M_right;
        h._M_right = m;
    }
    return z;
}
namespace __detail {
/* any bucket count is a valid one */
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
    n = n < 3 ? 3 : (n | 1);
    _M_next_resize = n;
    return n;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni <= nb) return {false, 0};
    size_t want = ne + ni;
    return {true, _M_next_bkt(want > 2 * nb ? want : 2 * nb)};
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    bool ex = x._M_next == &x, ey = y._M_next == &y;
    _List_node_base a = x, b = y;
    if (ey) { x._M_next = x._M_prev = &x; }
    else { x._M_next = b._M_next; x._M_prev = b._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
    if (ex) { y._M_next = y._M_prev = &y; }
    else { y._M_next = a._M_next; y._M_prev = a._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
void _List_node_base::_M_reverse() noexcept {
    _List_node_base *t = this;
    do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept {
    this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
    this->_M_prev->_M_next = this->_M_next; this->_M_next->_M_prev = this->_M_prev;
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base *const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
}

/* ------------------------------------------------ file table */
struct verif_entry { std::string name; std::string data; };
static std::vector<verif_entry *> *verif_files = nullptr;
std::string *verif_file_find(const std::string &name) {
    if (!verif_files) return nullptr;
    for (auto *e : *verif_files) if (e->name == name) return &e->data;
    return nullptr;
}
std::string *verif_file_create(const std::string &name) {
    if (!verif_files) verif_files = new std::vector<verif_entry *>();
    std::string *s = verif_file_find(name);
    if (s) { s->clear(); return s; }
    verif_entry *e = new verif_entry();
    ::verif_block_spoil(name.c_str());
    e->name = name;
    verif_files->push_back(e);
    return &e->data;
}
/* an HDF5 file: only its user block can be seen; it is written back when the file is closed */
std::string *verif_open_existing(const std::string &name) {
    std::string *s = verif_file_find(name);
    if (s) return s;
    unsigned long cap = 0;
    unsigned char *b = ::verif_block(name.c_str(), &cap);
    if (!b) return nullptr;
    s = new std::string();
    for (unsigned long i = 0; i < cap; i++) s->push_back((char)b[i]);
    return s;
}
void verif_closed(const std::string &name, std::string *s) {
    if (verif_file_find(name)) return;
    unsigned long cap = 0;
    unsigned char *b = ::verif_block(name.c_str(), &cap);
    if (!b || !s) return;
    if (s->size() != cap) { ::verif_block_spoil(name.c_str()); return; }
    for (unsigned long i = 0; i < cap; i++) b[i] = (unsigned char)(*s)[i];
}
bool verif_file_remove(const std::string &name) {
    if (!verif_files) return false;
    for (size_t i = 0; i < verif_files->size(); i++)
        if ((*verif_files)[i]->name == name) { verif_files->erase(verif_files->begin() + (long)i); return true; }
    return false;
}
std::string *verif_file(const char *name) { return verif_file_create(std::string(name)); }
}

/* ------------------------------------------------ number parsing */
static bool v_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }

static const char *v_digits(const char *s, bool *neg, unsigned long *u, bool *ovf, int base, bool *any) {
    while (v_space(*s)) s++;
    *neg = false;
    if (*s == '-') { *neg = true; s++; } else if (*s == '+') s++;
    *u = 0; *ovf = false; *any = false;
    if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s += 2;
    while (true) {
        unsigned long d;
        if (*s >= '0' && *s <= '9') d = (unsigned long)(*s - '0');
        else if (base == 16 && *s >= 'a' && *s <= 'f') d = (unsigned long)(*s - 'a' + 10);
        else if (base == 16 && *s >= 'A' && *s <= 'F') d = (unsigned long)(*s - 'A' + 10);
        else break;
        *any = true;
        if (*u > (0xfffffffffffffffful - d) / (unsigned long)base) *ovf = true;
        else *u = *u * (unsigned long)base + d;
        s++;
    }
    return s;
}

/* a printed symbolic number (see verif_streams.h) at the start of s */
static const char *v_token(const char *s, long *id) {
    while (sym_isconc_i64(*s) && v_space(*s)) s++;
    if (!sym_isconc_i64(s[0]) || s[0] != 1) return nullptr;
    *id = (long)((unsigned char)s[1] - 0x40) | ((long)((unsigned char)s[2] - 0x40) << 6);
    return s + 3;
}

extern "C" {
long strtol(const char *s, char **end, int base) {
    long id;
    if (const char *t = v_token(s, &id)) { if (end) *end = (char *)t; return sym_num_geti(id); }
    bool neg, ovf, any; unsigned long u;
    const char *e = v_digits(s, &neg, &u, &ovf, base, &any);
    if (end) *end = (char *)(any ? e : s);
    if (!any) return 0;
    if (ovf || (!neg && u > 9223372036854775807ul) || (neg && u > 9223372036854775808ul)) {
        errno = ERANGE;
        return neg ? (-9223372036854775807l - 1) : 9223372036854775807l;
    }
    return neg ? (long)(0ul - u) : (long)u;
}
unsigned long strtoul(const char *s, char **end, int base) {
    long id;
    if (const char *t = v_token(s, &id)) { if (end) *end = (char *)t; return (unsigned long)sym_num_geti(id); }
    bool neg, ovf, any; unsigned long u;
    const char *e = v_digits(s, &neg, &u, &ovf, base, &any);
    if (end) *end = (char *)(any ? e : s);
    if (!any) return 0;
    if (ovf) { errno = ERANGE; return 0xfffffffffffffffful; }
    return neg ? 0ul - u : u;
}
long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }

static bool v_word(const char *s, const char *w, int n) {
    for (int i = 0; i < n; i++) {
        char c = s[i];
        if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
        if (c != w[i]) return false;
    }
    return true;
}

double strtod(const char *s0, char **end) {
    long id;
    if (const char *t = v_token(s0, &id)) { if (end) *end = (char *)t; return sym_num_get(id); }
    const char *s = s0;
    while (v_space(*s)) s++;
    bool neg = false;
    if (*s == '-') { neg = true; s++; } else if (*s == '+') s++;
    if (v_word(s, "inf", 3)) { if (end) *end = (char *)(v_word(s, "infinity", 8) ? s + 8 : s + 3); return neg ? -__builtin_inf() : __builtin_inf(); }
    if (v_word(s, "nan", 3)) { if (end) *end = (char *)(s + 3); return __builtin_nan(""); }
    double v = 0; bool any = false;
    while (*s >= '0' && *s <= '9') { v = v * 10 + (double)(*s - '0'); s++; any = true; }
    if (*s == '.') {
        const char *t = s + 1; double p = 1; bool fr = false;
        while (*t >= '0' && *t <= '9') { p = p / 10; v = v + p * (double)(*t - '0'); t++; fr = true; }
        if (any || fr) { s = t; any = true; }
    }
    if (!any) { if (end) *end = (char *)s0; return 0; }
    if (*s == 'e' || *s == 'E') {
        const char *t = s + 1; bool en = false; int x = 0; bool ed = false;
        if (*t == '-') { en = true; t++; } else if (*t == '+') t++;
        while (*t >= '0' && *t <= '9') { if (x < 10000) x = x * 10 + (*t - '0'); t++; ed = true; }
        if (ed) {
            s = t;
            if (v != 0 && x > 400) { errno = ERANGE; v = en ? 0 : __builtin_inf(); }
            else for (int i = 0; i < x; i++) v = en ? v / 10 : v * 10;
        }
    }
    if (end) *end = (char *)s;
    return neg ? -v : v;
}
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
long double strtold(const char *s, char **e) { return (long double)strtod(s, e); }
long atol(const char *s) { return strtol(s, 0, 10); }
long long atoll(const char *s) { return strtol(s, 0, 10); }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
double atof(const char *s) { return strtod(s, 0); }
}

/* ------------------------------------------------ one thread unless the harness says otherwise */
extern "C" {
__attribute__((weak)) void __kmpc_critical(void *, int, void *) {}
__attribute__((weak)) void __kmpc_end_critical(void *, int, void *) {}
__attribute__((weak)) int __kmpc_global_thread_num(void *) { return 0; }
}
/* type identities of the fundamental types (libsupc++ holds these) */
struct verif_ti { const void *vptr; const char *name; };
static const void *verif_tivt[4];
extern "C" {
#define VTI(S) extern __attribute__((weak)) const verif_ti _ZTI##S; const verif_ti _ZTI##S = { &verif_tivt[2], #S };
VTI(d) VTI(f) VTI(i) VTI(j) VTI(l) VTI(m) VTI(s) VTI(t) VTI(c) VTI(h) VTI(a) VTI(b) VTI(x) VTI(y)
}

/* ------------------------------------------------ hashing: one bucket is a valid hash */
namespace std {
size_t _Hash_bytes(const void *, size_t n, size_t) { return n; }

/* ------------------------------------------------ exceptions of <stdexcept> */
__cow_string::__cow_string() { _M_p = nullptr; }
static char *verif_dup(const char *s, size_t n) { char *p = new char[n + 1]; for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
__cow_string::__cow_string(const std::string &s) { _M_p = verif_dup(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = verif_dup(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p ? verif_dup(o._M_p, strlen(o._M_p)) : nullptr; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept {
    if (this != &o) { delete[] const_cast<char *>(_M_p); _M_p = o._M_p ? verif_dup(o._M_p, strlen(o._M_p)) : nullptr; }
    return *this;
}
__cow_string::~__cow_string() { delete[] const_cast<char *>(_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = nullptr; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define VROOT(N) \
    N::N(const string &s) : exception(), _M_msg(s) {} \
    N::N(const char *s) : exception(), _M_msg(s, strlen(s)) {} \
    N::N(N &&o) noexcept : exception(), _M_msg(static_cast<__cow_string &&>(o._M_msg)) {} \
    N &N::operator=(N &&o) noexcept { _M_msg = static_cast<__cow_string &&>(o._M_msg); return *this; } \
    N::N(const N &o) noexcept : exception(), _M_msg(o._M_msg) {} \
    N &N::operator=(const N &o) noexcept { _M_msg = o._M_msg; return *this; } \
    N::~N() noexcept {} \
    const char *N::what() const noexcept { return _M_msg._M_p; }
#define VLEAF(N, B) N::N(const string &s) : B(s) {} N::N(const char *s) : B(s) {} N::~N() noexcept {}
VROOT(logic_error)
VROOT(runtime_error)
VLEAF(domain_error, logic_error)
VLEAF(invalid_argument, logic_error)
VLEAF(length_error, logic_error)
VLEAF(out_of_range, logic_error)
VLEAF(range_error, runtime_error)
VLEAF(overflow_error, runtime_error)
VLEAF(underflow_error, runtime_error)
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
}

/* ------------------------------------------------ C strings */
extern "C" {
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) { while ((*d = *s++)) d++; return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { char *e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
size_t strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
size_t strcspn(const char *s, const char *r) { size_t i = 0; for (; s[i]; i++) for (const char *p = r; *p; p++) if (*p == s[i]) return i; return i; }
size_t strspn(const char *s, const char *a) {
    size_t i = 0;
    for (; s[i]; i++) { const char *p = a; while (*p && *p != s[i]) p++; if (!*p) return i; }
    return i;
}
char *strdup(const char *s) { size_t n = strlen(s); char *p = (char *)malloc(n + 1); for (size_t i = 0; i <= n; i++) p[i] = s[i]; return p; }
char *strndup(const char *s, size_t k) { size_t n = strnlen(s, k); char *p = (char *)malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
static int v_low(char c) { return (c >= 'A' && c <= 'Z') ? c + 32 : (unsigned char)c; }
int strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int d = v_low(*a) - v_low(*b); if (d || !*a) return d; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int d = v_low(*a) - v_low(*b); if (d || !*a) return d; } return 0; }
int strcoll(const char *a, const char *b) { return strcmp(a, b); }
static char *v_tok = nullptr;
char *strtok_r(char *s, const char *d, char **save) {
    if (!s) s = *save;
    if (!s) return nullptr;
    s += strspn(s, d);
    if (!*s) { *save = nullptr; return nullptr; }
    char *e = s + strcspn(s, d);
    if (*e) { *e = 0; *save = e + 1; } else *save = nullptr;
    return s;
}
char *strtok(char *s, const char *d) { return strtok_r(s, d, &v_tok); }
char *strerror(int) { return (char *)"error"; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *b = (char *)base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
            for (size_t k = 0; k < sz; k++) { char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; }
}
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    size_t lo = 0, hi = n;
    while (lo < hi) {
        size_t m = (lo + hi) / 2; const char *p = (const char *)base + m * sz; int c = cmp(key, p);
        if (c == 0) return (void *)p;
        if (c < 0) hi = m; else lo = m + 1;
    }
    return nullptr;
}
div_t div(int a, int b) { div_t r; r.quot = a / b; r.rem = a % b; return r; }
ldiv_t ldiv(long a, long b) { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
char *getenv(const char *) { return nullptr; }
char *setlocale(int, const char *) { return (char *)"C"; }
char __libc_single_threaded = 1;
}
extern "C" {
char *strstr_v(const char *, const char *) __asm__("strstr");
char *strrchr_v(const char *, int) __asm__("strrchr");
char *strpbrk_v(const char *, const char *) __asm__("strpbrk");
}
char *strstr_v(const char *h, const char *n) {
    for (;; h++) { const char *a = h, *b = n; while (*b && *a == *b) { a++; b++; } if (!*b) return (char *)h; if (!*h) return nullptr; }
}
char *strrchr_v(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strpbrk_v(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : nullptr; }

/* ------------------------------------------------ stdio: files of the table above, standard output */
extern "C" void sym_unsupported(const char *);
extern "C" void sym_stdout_put(const char *p, long n);
struct verif_FILE { std::string *s; size_t pos; bool app, eof, err; int kind; std::string *name; };   /* kind 0: file, 1: stdout, 2: stderr, 3: stdin */
__attribute__((weak)) void verif_on_fclose(FILE *) {}
static verif_FILE verif_std[3] = { { nullptr, 0, false, false, false, 3, nullptr }, { nullptr, 0, false, false, false, 1, nullptr }, { nullptr, 0, false, false, false, 2, nullptr } };
extern "C" {
FILE *stdin = (FILE *)&verif_std[0];
FILE *stdout = (FILE *)&verif_std[1];
FILE *stderr = (FILE *)&verif_std[2];
}
static void v_fput(verif_FILE *f, const char *p, size_t n) {
    if (f->kind == 1) { sym_stdout_put(p, (long)n); return; }
    if (f->kind != 0) return;
    if (f->app) f->pos = f->s->size();
    for (size_t i = 0; i < n; i++) { if (f->pos < f->s->size()) (*f->s)[f->pos] = p[i]; else f->s->push_back(p[i]); f->pos++; }
}
extern "C" {
FILE *fopen(const char *name, const char *mode) {
    std::string n(name), *s = std::verif_open_existing(n);
    if (mode[0] == 'r') { if (!s) { errno = ENOENT; return nullptr; } }
    else if (mode[0] == 'w') s = std::verif_file_create(n);
    else if (!s) s = std::verif_file_create(n);
    verif_FILE *f = new verif_FILE;
    f->s = s; f->pos = 0; f->app = mode[0] == 'a'; f->eof = f->err = false; f->kind = 0;
    f->name = new std::string(n);
    return (FILE *)f;
}
int fclose(FILE *f) {
    verif_FILE *v = (verif_FILE *)f;
    verif_on_fclose(f);
    if (v->kind == 0) { std::verif_closed(*v->name, v->s); delete v->name; delete v; }
    return 0;
}
int fflush(FILE *) { return 0; }
void setbuf(FILE *, char *) {}
int setvbuf(FILE *, char *, int, size_t) { return 0; }
size_t fwrite(const void *p, size_t sz, size_t n, FILE *f) { v_fput((verif_FILE *)f, (const char *)p, sz * n); return n; }
int fputs(const char *s, FILE *f) { v_fput((verif_FILE *)f, s, strlen(s)); return 1; }
int fputc(int c, FILE *f) { char b = (char)c; v_fput((verif_FILE *)f, &b, 1); return (unsigned char)b; }
int putc(int c, FILE *f) { return fputc(c, f); }
int fgetc(FILE *f) {
    verif_FILE *v = (verif_FILE *)f;
    if (v->kind != 0 || v->pos >= v->s->size()) { v->eof = true; return -1; }
    return (unsigned char)(*v->s)[v->pos++];
}
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *f) { verif_FILE *v = (verif_FILE *)f; if (c == -1) return -1; if (v->pos > 0) v->pos--; v->eof = false; return c; }
size_t fread(void *p, size_t sz, size_t n, FILE *f) {
    size_t k = 0; char *q = (char *)p;
    while (k < sz * n) { int c = fgetc(f); if (c == -1) break; q[k++] = (char)c; }
    return sz ? k / sz : 0;
}
char *fgets(char *b, int n, FILE *f) {
    int k = 0;
    while (k + 1 < n) { int c = fgetc(f); if (c == -1) break; b[k++] = (char)c; if (c == '\n') break; }
    if (k == 0) return nullptr;
    b[k] = 0;
    return b;
}
int feof(FILE *f) { return ((verif_FILE *)f)->eof; }
int ferror(FILE *f) { return ((verif_FILE *)f)->err; }
void clearerr(FILE *f) { ((verif_FILE *)f)->eof = ((verif_FILE *)f)->err = false; }
int fseek(FILE *f, long o, int w) {
    verif_FILE *v = (verif_FILE *)f;
    v->pos = (w == 0 ? 0 : w == 1 ? v->pos : v->s->size()) + (size_t)o; v->eof = false;
    return 0;
}
int fseeko(FILE *f, long o, int w) { return fseek(f, o, w); }
long ftell(FILE *f) { return (long)((verif_FILE *)f)->pos; }
long ftello(FILE *f) { return ftell(f); }
void rewind(FILE *f) { fseek(f, 0, 0); }
int vfprintf(FILE *f, const char *fmt, va_list a) {
    va_list b;
    va_copy(b, a);
    char small[1];
    int n = vsnprintf(small, 1, fmt, b);
    va_end(b);
    char *t = new char[(size_t)n + 1];
    vsnprintf(t, (size_t)n + 1, fmt, a);
    v_fput((verif_FILE *)f, t, (size_t)n);
    delete[] t;
    return n;
}
int fprintf(FILE *f, const char *fmt, ...) {
    if (((verif_FILE *)f)->kind == 2) return 0;
    va_list a;
    va_start(a, fmt);
    int n = vfprintf(f, fmt, a);
    va_end(a);
    return n;
}
int vprintf(const char *fmt, va_list a) { return vfprintf(stdout, fmt, a); }
int vsscanf(const char *s, const char *f, va_list a) {
    int n = 0;
    const char *s0 = s;
    for (; *f; f++) {
        if (v_space(*f)) { while (v_space(*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return n; s++; continue; }
        f++;
        if (*f == '%') { if (*s != '%') return n; s++; continue; }
        bool skip = false; int w = 0, l = 0;
        if (*f == '*') { skip = true; f++; }
        while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { l += *f == 'h' ? -1 : 1; f++; }
        if (*f == 'n') { *va_arg(a, int *) = (int)(s - s0); continue; }
        char *e;
        if (*f == 'd' || *f == 'i' || *f == 'u') {
            long v = *f == 'u' ? (long)strtoul(s, &e, 10) : strtol(s, &e, 10);
            if (e == s) return n ? n : (*s ? 0 : -1);
            if (!skip) { if (l > 0) *va_arg(a, long *) = v; else if (l < 0) *va_arg(a, short *) = (short)v; else *va_arg(a, int *) = (int)v; n++; }
            s = e;
        } else if (*f == 'f' || *f == 'g' || *f == 'e') {
            double v = strtod(s, &e);
            if (e == s) return n ? n : (*s ? 0 : -1);
            if (!skip) { if (l > 0) *va_arg(a, double *) = v; else *va_arg(a, float *) = (float)v; n++; }
            s = e;
        } else if (*f == 's') {
            while (v_space(*s)) s++;
            if (!*s) return n ? n : -1;
            char *d = skip ? nullptr : va_arg(a, char *);
            for (int k = 0; *s && !v_space(*s) && (!w || k < w); k++) { if (d) *d++ = *s; s++; }
            if (d) { *d = 0; n++; }
        } else if (*f == 'c') {
            if (!*s) return n ? n : -1;
            if (!skip) { *va_arg(a, char *) = *s; n++; }
            s++;
        } else { sym_unsupported("scanf conversion"); }
    }
    return n;
}
int sscanf(const char *s, const char *f, ...) { va_list a; va_start(a, f); int n = vsscanf(s, f, a); va_end(a); return n; }
void perror(const char *) {}
int remove(const char *n) { return std::verif_file_remove(std::string(n)) ? 0 : -1; }
int unlink(const char *n) { return remove(n); }
int rename(const char *a, const char *b) {
    std::string *s = std::verif_file_find(std::string(a));
    if (!s) return -1;
    std::string t(*s);
    *std::verif_file_create(std::string(b)) = t;
    std::verif_file_remove(std::string(a));
    return 0;
}
int access(const char *n, int) { return std::verif_file_find(std::string(n)) ? 0 : -1; }
/* one thread */
int pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int pthread_mutex_trylock(pthread_mutex_t *) { return 0; }
int pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
int pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int pthread_once(pthread_once_t *o, void (*f)(void)) { if (*o == 0) { *o = 2; f(); } return 0; }
}
