/* In-memory model of the part of <iostream> the analysed code uses.
 *
 * Files live in a table (name -> bytes).  Numbers that are symbolic are put in
 * the text as a token (byte 1, two id bytes) that stands for the printed
 * number; reading the token back as a number gives the printed value, rounded
 * to the stream's precision when that is below 17 digits.  Concrete integers
 * are printed as digits.
 */
#ifndef VERIF_STREAMS_H
#define VERIF_STREAMS_H
#include <bits/c++config.h>
#include <iosfwd>
#include <string>
#include <cstdlib>
#include <cstdio>
#include <cctype>
#include <cwchar>
#include <clocale>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <string_view>

extern "C" {
bool sym_isconc_i64(long v);
bool sym_isconc_real(double v);
long sym_num_put(double v, long prec, long kind);   /* kind 0: real, 1: integer */
double sym_num_get(long id);
double sym_num_get_fmt(double v, long prec);
long sym_num_geti(long id);
long sym_num_puti(long v);
long sym_num_kind(long id);
/* text of a concrete real in the given format; returns length */
long sym_fmt_real(double v, long prec, char *buf);
void sym_stdout_put(const char *p, long n);
}

namespace std {
typedef long streamsize;

class locale {
public:
    locale() {}
    explicit locale(const char *) {}
    static const locale &classic() { static locale l; return l; }
    static locale global(const locale &) { return locale(); }
    std::string name() const { return "C"; }
};
inline bool isspace(char c, const locale &) { return ::isspace((unsigned char)c) != 0; }
inline bool isdigit(char c, const locale &) { return ::isdigit((unsigned char)c) != 0; }
inline bool isalpha(char c, const locale &) { return ::isalpha((unsigned char)c) != 0; }
inline bool isalnum(char c, const locale &) { return ::isalnum((unsigned char)c) != 0; }
inline bool isupper(char c, const locale &) { return ::isupper((unsigned char)c) != 0; }
inline bool islower(char c, const locale &) { return ::islower((unsigned char)c) != 0; }
inline char tolower(char c, const locale &) { return (char)::tolower((unsigned char)c); }
inline char toupper(char c, const locale &) { return (char)::toupper((unsigned char)c); }

class ios_base {
public:
    locale getloc() const { return locale(); }
    locale imbue(const locale &) { return locale(); }
    typedef unsigned int openmode;
    typedef unsigned int iostate;
    typedef unsigned int fmtflags;
    typedef int seekdir;
    static constexpr openmode app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr fmtflags fixed = 1, scientific = 2, dec = 4, hex = 8, left = 16, right = 32, showpoint = 64,
        floatfield = 3, oct = 512, basefield = 12 | 512, boolalpha = 128, skipws = 256, internal = 1024,
        adjustfield = 16 | 32 | 1024, showpos = 2048, showbase = 4096, uppercase = 8192, unitbuf = 16384;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    class failure : public std::runtime_error { public: using std::runtime_error::runtime_error; };
    unsigned int v_state = 0;
    long v_prec = 6;
    long v_width = 0;
    unsigned int v_flags = 0;
    char v_fill = ' ';
    long precision() const { return v_prec; }
    long precision(long p) { long o = v_prec; v_prec = p; return o; }
    long width() const { return v_width; }
    long width(long w) { long o = v_width; v_width = w; return o; }
    fmtflags flags() const { return v_flags; }
    fmtflags flags(fmtflags f) { fmtflags o = v_flags; v_flags = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = v_flags; v_flags |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { fmtflags o = v_flags; v_flags = (v_flags & ~m) | (f & m); return o; }
    void unsetf(fmtflags f) { v_flags &= ~f; }
    static bool sync_with_stdio(bool = true) { return true; }
};
typedef ios_base::openmode _Ios_Openmode_v;

template<> class basic_streambuf<char, char_traits<char> > {
public:
    std::string *s = nullptr;   /* content */
    size_t gpos = 0;
    bool discard = false;
    bool tostd = false;         /* standard output */
    bool joint = false;         /* a file opened for reading and writing: one position for both */
    int sgetc() { return (s && gpos < s->size()) ? (unsigned char)(*s)[gpos] : -1; }
    int sbumpc() { int c = sgetc(); if (c != -1) gpos++; return c; }
    int snextc() { if (sbumpc() == -1) return -1; return sgetc(); }
    int sputc(char c) { sputn(&c, 1); return (unsigned char)c; }
    long sputn(const char *p, long n) {
        if (tostd) { sym_stdout_put(p, n); return n; }
        if (discard || !s) return n;
        if (!joint) { s->append(p, n); return n; }
        for (long i = 0; i < n; i++) { if (gpos < s->size()) (*s)[gpos] = p[i]; else s->push_back(p[i]); gpos++; }
        return n;
    }
    long sgetn(char *p, long n) { long k = 0; while (k < n && s && gpos < s->size()) p[k++] = (*s)[gpos++]; return k; }
    long in_avail() { return s ? (long)(s->size() - gpos) : 0; }
};

inline basic_streambuf<char> *verif_stdout() { static basic_streambuf<char> b; b.tostd = true; return &b; }

template<> class basic_ios<char, char_traits<char> > : public ios_base {
public:
    typedef char char_type;
    typedef char_traits<char> traits_type;
    basic_streambuf<char> v_buf;
    basic_ios() {}
    basic_ios(const basic_ios&) = delete;
    bool good() const { return v_state == 0; }
    bool eof() const { return (v_state & eofbit) != 0; }
    bool fail() const { return (v_state & (failbit | badbit)) != 0; }
    bool bad() const { return (v_state & badbit) != 0; }
    iostate rdstate() const { return v_state; }
    void clear(iostate s = 0) { v_state = s; }
    void setstate(iostate s) { v_state |= s; }
    void exceptions(iostate) {}
    iostate exceptions() const { return 0; }
    basic_ios &copyfmt(const basic_ios &o) { v_prec = o.v_prec; v_width = o.v_width; v_flags = o.v_flags; v_fill = o.v_fill; return *this; }
    basic_ostream<char> *tie() const { return nullptr; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    char fill() const { return v_fill; }
    char fill(char c) { char o = v_fill; v_fill = c; return o; }
    basic_streambuf<char> *rdbuf() const { return const_cast<basic_streambuf<char>*>(&v_buf); }
};
typedef basic_ios<char> ios;

template<> class basic_ostream<char, char_traits<char> > : virtual public basic_ios<char> {
public:
    basic_ostream() {}
    explicit basic_ostream(basic_streambuf<char> *b) { v_buf = *b; }
    virtual ~basic_ostream() {}
    void v_put(const char *p, size_t n) { if (!fail()) v_buf.sputn(p, (long)n); }
    void v_padded(const char *p, size_t n) {
        while ((size_t)v_width > n && !(v_flags & left)) { v_put(&v_fill, 1); v_width--; }
        v_put(p, n);
        while ((size_t)v_width > n) { v_put(&v_fill, 1); v_width--; }
        v_width = 0;
    }
    void v_token(long id) {
        char t[3] = { 1, (char)(0x40 + (id & 0x3f)), (char)(0x40 + ((id >> 6) & 0x3f)) };
        v_put(t, 3);
        v_width = 0;
    }
    void v_int(long v, bool uns) {
        if (!sym_isconc_i64(v)) {
            if (v_width <= 1) { v_token(sym_num_puti(v)); return; }
            /* the padding depends on the number of characters */
            bool ng = !uns && v < 0;
            long n = ng ? 2 : 1;
            for (unsigned long u = ng ? 0ul - (unsigned long)v : (unsigned long)v, p = 10; n < v_width && u >= p; p *= 10) n++;
            std::string pad((size_t)(v_width - n), v_fill);
            bool lf = (v_flags & left) != 0;
            if (!lf) v_put(pad.data(), pad.size());
            v_token(sym_num_puti(v));
            if (lf) v_put(pad.data(), pad.size());
            return;
        }
        char b[24]; int i = 24; bool neg = !uns && v < 0;
        unsigned long u = neg ? 0ul - (unsigned long)v : (unsigned long)v;
        if (v_flags & (hex | oct)) {
            unsigned long base = (v_flags & hex) ? 16 : 8;
            if (neg) { u = (unsigned long)v; neg = false; }
            do { unsigned long d = u % base; b[--i] = (char)(d < 10 ? '0' + d : ((v_flags & uppercase) ? 'A' : 'a') + d - 10); u /= base; } while (u);
        } else {
            do { b[--i] = (char)('0' + u % 10); u /= 10; } while (u);
        }
        if (neg) b[--i] = '-'; else if ((v_flags & showpos) && !uns) b[--i] = '+';
        v_padded(b + i, 24 - i);
    }
    basic_ostream &operator<<(int v) { v_int(v, false); return *this; }
    basic_ostream &operator<<(unsigned int v) { v_int((long)v, true); return *this; }
    basic_ostream &operator<<(short v) { v_int(v, false); return *this; }
    basic_ostream &operator<<(unsigned short v) { v_int(v, true); return *this; }
    basic_ostream &operator<<(long v) { v_int(v, false); return *this; }
    basic_ostream &operator<<(unsigned long v) { v_int((long)v, true); return *this; }
    basic_ostream &operator<<(long long v) { v_int((long)v, false); return *this; }
    basic_ostream &operator<<(unsigned long long v) { v_int((long)v, true); return *this; }
    basic_ostream &operator<<(bool v) {
        if (v_flags & boolalpha) { if (v) v_padded("true", 4); else v_padded("false", 5); }
        else v_int(v, false);
        return *this;
    }
    basic_ostream &operator<<(double v) {
        v_token(sym_num_put(v, (v_flags & scientific) ? v_prec + 1 : v_prec, 0));
        return *this;
    }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(long double v) { return *this << (double)v; }
    basic_ostream &operator<<(nullptr_t) { v_padded("nullptr", 7); return *this; }
    basic_ostream &operator<<(const void *p) { v_padded(p ? "0x1" : "0", p ? 3 : 1); return *this; }
    basic_ostream &operator<<(basic_streambuf<char> *b) {
        if (!b->s || b->gpos >= b->s->size()) { v_state |= failbit; return *this; }
        v_put(b->s->data() + b->gpos, b->s->size() - b->gpos);
        b->gpos = b->s->size();
        return *this;
    }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &operator<<(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; }
    basic_ostream &operator<<(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_ostream &put(char c) { v_put(&c, 1); return *this; }
    basic_ostream &write(const char *p, long n) { v_put(p, n); return *this; }
    basic_ostream &flush() { return *this; }
    long tellp() { return v_buf.s ? (v_buf.joint ? (long)v_buf.gpos : (long)v_buf.s->size()) : -1; }
    basic_ostream &seekp(long p) { if (!v_buf.joint) { v_buf.joint = true; } v_buf.gpos = (size_t)p; return *this; }
    basic_ostream &seekp(long p, int dir) {
        size_t base = dir == 0 ? 0 : dir == 1 ? (size_t)tellp() : (v_buf.s ? v_buf.s->size() : 0);
        return seekp((long)base + p);
    }
    basic_ostream &operator<<(const std::basic_string_view<char> &s) { v_padded(s.data(), s.size()); return *this; }
};
inline ostream &operator<<(ostream &o, const std::string &s) { o.v_padded(s.data(), s.size()); return o; }
inline ostream &operator<<(ostream &o, const char *s) { o.v_padded(s, __builtin_strlen(s)); return o; }
inline ostream &operator<<(ostream &o, char c) { o.v_padded(&c, 1); return o; }
inline ostream &operator<<(ostream &o, unsigned char c) { o.v_padded((char*)&c, 1); return o; }
inline ostream &endl(ostream &o) { return o.put('\n'); }
inline ostream &ends(ostream &o) { return o.put('\0'); }
inline ostream &flush(ostream &o) { return o; }

template<> class basic_istream<char, char_traits<char> > : virtual public basic_ios<char> {
public:
    long v_gcount = 0;
    basic_istream() {}
    explicit basic_istream(basic_streambuf<char> *b) { v_buf = *b; }
    virtual ~basic_istream() {}
    class sentry { bool v_ok; public: explicit sentry(basic_istream &i, bool n = false) { v_ok = n ? i.good() : i.v_prep(); } explicit operator bool() const { return v_ok; } };
    static bool v_isws(int c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
    int v_peek() { return v_buf.sgetc(); }
    void v_skip() { while (v_isws(v_peek())) v_buf.gpos++; }
    void v_skipf() { if (!(v_flags & skipws)) v_skip(); }
    bool v_prep() {
        if (v_state != 0) { v_state |= failbit; return false; }
        v_skipf();
        if (v_peek() == -1) { v_state |= eofbit | failbit; return false; }
        return true;
    }
    /* extract the characters that can belong to a number */
    bool v_numtext(std::string &t, bool real) {
        int c;
        while ((c = v_peek()) != -1) {
            bool ok = (c >= '0' && c <= '9') || ((c == '+' || c == '-') && (t.empty() || (real && (t.back() == 'e' || t.back() == 'E'))));
            if (!ok && real) ok = (c == '.' && t.find('.') == std::string::npos && t.find('e') == std::string::npos) ||
                ((c == 'e' || c == 'E') && !t.empty() && t.find('e') == std::string::npos && t.find('E') == std::string::npos);
            if (!ok) break;
            t.push_back((char)c);
            v_buf.gpos++;
        }
        if (v_peek() == -1) v_state |= eofbit;
        return !t.empty();
    }
    long v_tokid() {
        /* at byte 1 */
        long a = (unsigned char)(*v_buf.s)[v_buf.gpos + 1], b = (unsigned char)(*v_buf.s)[v_buf.gpos + 2];
        v_buf.gpos += 3;
        if (v_peek() == -1) v_state |= eofbit;
        return (a - 0x40) | ((b - 0x40) << 6);
    }
    bool v_getint(long &v, long lo, unsigned long hi) {
        if (!v_prep()) { v = 0; return false; }
        if (v_peek() == 1) {
            v = sym_num_geti(v_tokid());
            if (lo < 0 ? (v < lo || v > (long)hi) : ((unsigned long)v > hi)) { v_state |= failbit; v = lo < 0 && v < lo ? lo : (long)hi; }
            return true;
        }
        std::string t;
        if (!v_numtext(t, false)) { v_state |= failbit; v = 0; return false; }
        bool neg = t[0] == '-';
        size_t i = (t[0] == '-' || t[0] == '+') ? 1 : 0;
        if (i == t.size()) { v_state |= failbit; v = 0; return false; }
        unsigned long u = 0; bool ovf = false;
        for (; i < t.size(); i++) {
            unsigned long d = (unsigned long)(t[i] - '0');
            if (u > (0xfffffffffffffffful - d) / 10) ovf = true;
            u = u * 10 + d;
        }
        if (lo < 0) {
            if (ovf || (!neg && u > hi) || (neg && u > 0ul - (unsigned long)lo)) {
                v_state |= failbit; v = neg ? lo : (long)hi; return true;
            }
            v = neg ? (long)(0ul - u) : (long)u;
        } else {
            if (ovf || u > hi) { v_state |= failbit; v = (long)hi; return true; }
            v = neg ? (long)(0ul - u) : (long)u;
        }
        return true;
    }
    basic_istream &operator>>(int &v) { long x; v_getint(x, -2147483648l, 2147483647ul); v = (int)x; return *this; }
    basic_istream &operator>>(short &v) { long x; v_getint(x, -32768l, 32767ul); v = (short)x; return *this; }
    basic_istream &operator>>(unsigned short &v) { long x; v_getint(x, 0, 65535ul); v = (unsigned short)x; return *this; }
    basic_istream &operator>>(unsigned int &v) { long x; v_getint(x, 0, 4294967295ul); v = (unsigned int)x; return *this; }
    basic_istream &operator>>(long &v) { long x; v_getint(x, -9223372036854775807l - 1, 9223372036854775807ul); v = x; return *this; }
    basic_istream &operator>>(long long &v) { long x; v_getint(x, -9223372036854775807l - 1, 9223372036854775807ul); v = x; return *this; }
    basic_istream &operator>>(unsigned long &v) { long x; v_getint(x, 0, 18446744073709551615ul); v = (unsigned long)x; return *this; }
    basic_istream &operator>>(unsigned long long &v) { long x; v_getint(x, 0, 18446744073709551615ul); v = (unsigned long)x; return *this; }
    basic_istream &operator>>(bool &v) { long x; v_getint(x, 0, 1); v = x != 0; return *this; }
    basic_istream &operator>>(double &v) {
        if (!v_prep()) { v = 0; return *this; }
        if (v_peek() == 1) {
            long id = v_tokid();
            v = sym_num_get(id);
            if (v_peek() != -1 && !v_isws(v_peek())) { /* number followed by other text */ }
            return *this;
        }
        std::string t;
        if (!v_numtext(t, true)) { v_state |= failbit; v = 0; return *this; }
        char *end; v = strtod(t.c_str(), &end);
        if (*end || end == t.c_str()) { v_state |= failbit; v = 0; }
        return *this;
    }
    basic_istream &operator>>(float &v) { double d; *this >> d; v = (float)d; return *this; }
    basic_istream &operator>>(long double &v) { double d; *this >> d; v = d; return *this; }
    basic_istream &operator>>(basic_ios<char> &(*f)(basic_ios<char> &)) { f(*this); return *this; }
    basic_istream &operator>>(ios_base &(*f)(ios_base &)) { f(*this); return *this; }
    basic_istream &operator>>(basic_istream &(*f)(basic_istream &)) { return f(*this); }
    int get() {
        v_gcount = 0;
        if (v_state) { v_state |= failbit; return -1; }
        int c = v_buf.sbumpc();
        if (c == -1) v_state |= eofbit | failbit; else v_gcount = 1;
        return c;
    }
    basic_istream &getline(char *p, long n, char delim = '\n') {
        long k = 0; bool any = false;
        v_gcount = 0;
        if (v_state) { v_state |= failbit; if (n > 0) p[0] = 0; return *this; }
        while (true) {
            int c = v_peek();
            if (c == -1) { v_state |= eofbit; if (!any) v_state |= failbit; break; }
            if ((char)c == delim) { v_buf.gpos++; v_gcount++; break; }
            if (k + 1 >= n) { v_state |= failbit; break; }
            any = true;
            p[k++] = (char)c; v_buf.gpos++; v_gcount++;
        }
        if (n > 0) p[k] = 0;
        return *this;
    }
    long readsome(char *p, long n) { v_gcount = v_buf.sgetn(p, n); return v_gcount; }
    basic_istream &get(char &c) { int x = get(); if (x != -1) c = (char)x; return *this; }
    int peek() { if (v_state) return -1; int c = v_peek(); if (c == -1) v_state |= eofbit; return c; }
    basic_istream &unget() { if (v_buf.gpos > 0) v_buf.gpos--; return *this; }
    basic_istream &putback(char) { return unget(); }
    basic_istream &read(char *p, long n) {
        v_gcount = 0;
        if (v_state) { v_state |= failbit; return *this; }
        v_gcount = v_buf.sgetn(p, n);
        if (v_gcount < n) v_state |= eofbit | failbit;
        return *this;
    }
    long gcount() const { return v_gcount; }
    basic_istream &ignore(long n = 1, int delim = -1) {
        for (long i = 0; i < n; i++) { int c = v_buf.sbumpc(); if (c == -1) { v_state |= eofbit; break; } if (c == delim) break; }
        return *this;
    }
    long tellg() { return (long)v_buf.gpos; }
    basic_istream &seekg(long p) { v_state &= ~eofbit; v_buf.gpos = (size_t)p; return *this; }
    basic_istream &seekg(long p, int dir) {
        v_state &= ~eofbit;
        size_t base = dir == 0 ? 0 : dir == 1 ? v_buf.gpos : (v_buf.s ? v_buf.s->size() : 0);
        v_buf.gpos = base + (size_t)p;
        return *this;
    }
};
inline istream &operator>>(istream &i, std::string &s) {
    if (!i.v_prep()) return i;
    s.clear();
    int c;
    while ((c = i.v_peek()) != -1 && !istream::v_isws(c)) { s.push_back((char)c); i.v_buf.gpos++; }
    if (c == -1) i.v_state |= ios_base::eofbit;
    return i;
}
inline istream &operator>>(istream &i, char &ch) {
    if (!i.v_prep()) return i;
    ch = (char)i.v_buf.sbumpc();
    return i;
}
inline istream &ws(istream &i) { i.v_skip(); return i; }
inline istream &getline(istream &i, std::string &s, char delim) {
    s.clear();
    if (i.v_state != 0) { i.v_state |= ios_base::failbit; return i; }
    bool any = false;
    while (true) {
        int c = i.v_buf.sbumpc();
        if (c == -1) { i.v_state |= ios_base::eofbit; if (!any) i.v_state |= ios_base::failbit; break; }
        any = true;
        if ((char)c == delim) break;
        s.push_back((char)c);
    }
    return i;
}
inline istream &getline(istream &i, std::string &s) { return getline(i, s, '\n'); }

template<> class basic_iostream<char, char_traits<char> > : public basic_istream<char>, public basic_ostream<char> {
public:
    basic_iostream() {}
    virtual ~basic_iostream() {}
    basic_ostream<char> &seekp(long p) { v_buf.gpos = (size_t)p; return *this; }
    basic_ostream<char> &seekp(long p, int dir) { seekg(p, dir); return *this; }
    typedef char char_type;
    typedef char_traits<char> traits_type;
};

namespace __cxx11 {
template<> class basic_stringstream<char, char_traits<char>, allocator<char> > : public basic_iostream<char> {
    std::string v_s;
public:
    basic_stringstream() { v_buf.s = &v_s; }
    explicit basic_stringstream(ios_base::openmode) { v_buf.s = &v_s; }
    explicit basic_stringstream(const std::string &x, ios_base::openmode = 0) : v_s(x) { v_buf.s = &v_s; }
    std::string str() const { return v_s; }
    void str(const std::string &x) { v_s = x; v_buf.gpos = 0; }
};
template<> class basic_ostringstream<char, char_traits<char>, allocator<char> > : public basic_ostream<char> {
    std::string v_s;
public:
    basic_ostringstream() { v_buf.s = &v_s; }
    explicit basic_ostringstream(ios_base::openmode) { v_buf.s = &v_s; }
    explicit basic_ostringstream(const std::string &x, ios_base::openmode = 0) : v_s(x) { v_buf.s = &v_s; }
    std::string str() const { return v_s; }
    void str(const std::string &x) { v_s = x; }
};
template<> class basic_istringstream<char, char_traits<char>, allocator<char> > : public basic_istream<char> {
    std::string v_s;
public:
    basic_istringstream() { v_buf.s = &v_s; }
    explicit basic_istringstream(const std::string &x, ios_base::openmode = 0) : v_s(x) { v_buf.s = &v_s; }
    std::string str() const { return v_s; }
    void str(const std::string &x) { v_s = x; v_buf.gpos = 0; }
};
}

extern "C++" std::string *verif_file_find(const std::string &name);
std::string *verif_file_create(const std::string &name);
std::string *verif_file(const char *name);
std::string *verif_open_existing(const std::string &name);
void verif_closed(const std::string &name, std::string *s);

struct verif_filebase {
    bool v_open = false;
    std::string v_name;
    void v_openfile(basic_ios<char> &io, const std::string &name, ios_base::openmode m) {
        std::string *s = (m & ios_base::trunc) ? nullptr : verif_open_existing(name);
        if (v_open) { io.v_state |= ios_base::failbit; return; }
        if (m & ios_base::trunc) { if (!(m & ios_base::out)) { io.v_state |= ios_base::failbit; return; } s = verif_file_create(name); }
        else if ((m & ios_base::out) && !(m & ios_base::in)) {
            if (m & ios_base::app) { if (!s) s = verif_file_create(name); } else s = verif_file_create(name);
        }
        else if ((m & ios_base::app) && !s) s = verif_file_create(name);
        if (!s) { io.v_state |= ios_base::failbit; return; }
        io.v_state = 0;
        v_open = true;
        v_name = name;
        io.v_buf.s = s;
        io.v_buf.joint = (m & ios_base::in) && (m & ios_base::out) && !(m & ios_base::app);
        io.v_buf.gpos = (m & ios_base::ate) ? s->size() : 0;
    }
    void v_takefile(basic_ios<char> &io, basic_ios<char> &from, verif_filebase &fb) {
        io.v_buf = from.v_buf; io.v_state = from.v_state; io.copyfmt(from);
        v_open = fb.v_open; v_name = fb.v_name; fb.v_open = false; from.v_buf = basic_streambuf<char>();
    }
    void v_closefile(basic_ios<char> &io) {
        if (!v_open) { io.v_state |= ios_base::failbit; return; }
        v_open = false;
        verif_closed(v_name, io.v_buf.s);
        io.v_buf.s = nullptr;
    }
};
template<> class basic_ifstream<char, char_traits<char> > : public basic_istream<char>, verif_filebase {
public:
    basic_ifstream() {}
    ~basic_ifstream() { if (v_open) close(); }
    explicit basic_ifstream(const std::string &n, ios_base::openmode m = ios_base::in) { open(n, m); }
    explicit basic_ifstream(const char *n, ios_base::openmode m = ios_base::in) { open(std::string(n), m); }
    basic_ifstream(basic_ifstream &&o) { v_takefile(*this, o, o); v_gcount = o.v_gcount; }
    void open(const std::string &n, ios_base::openmode m = ios_base::in) { v_openfile(*this, n, m | ios_base::in); }
    bool is_open() const { return v_open; }
    void close() { v_closefile(*this); }
};
template<> class basic_ofstream<char, char_traits<char> > : public basic_ostream<char>, verif_filebase {
public:
    basic_ofstream() {}
    ~basic_ofstream() { if (v_open) close(); }
    explicit basic_ofstream(const std::string &n, ios_base::openmode m = ios_base::out) { open(n, m); }
    explicit basic_ofstream(const char *n, ios_base::openmode m = ios_base::out) { open(std::string(n), m); }
    basic_ofstream(basic_ofstream &&o) { v_takefile(*this, o, o); }
    basic_streambuf<char> *rdbuf() const { return const_cast<basic_streambuf<char>*>(&v_buf); }
    void open(const std::string &n, ios_base::openmode m = ios_base::out) { v_openfile(*this, n, m | ios_base::out); }
    bool is_open() const { return v_open; }
    void close() { v_closefile(*this); }
};
template<> class basic_fstream<char, char_traits<char> > : public basic_iostream<char>, verif_filebase {
public:
    basic_fstream() {}
    ~basic_fstream() { if (v_open) close(); }
    explicit basic_fstream(const std::string &n, ios_base::openmode m = ios_base::in | ios_base::out) { open(n, m); }
    explicit basic_fstream(const char *n, ios_base::openmode m = ios_base::in | ios_base::out) { open(std::string(n), m); }
    basic_fstream(basic_fstream &&o) { v_takefile(*this, o, o); }
    void open(const std::string &n, ios_base::openmode m = ios_base::in | ios_base::out) { v_openfile(*this, n, m); }
    bool is_open() const { return v_open; }
    void close() { v_closefile(*this); }
};

struct verif_setw { long n; };
inline verif_setw setw(int n) { return verif_setw{n}; }
inline ostream &operator<<(ostream &o, verif_setw w) { o.v_width = w.n; return o; }
inline istream &operator>>(istream &o, verif_setw w) { o.v_width = w.n; return o; }
struct verif_setprec { long n; };
inline verif_setprec setprecision(int n) { return verif_setprec{n}; }
inline ostream &operator<<(ostream &o, verif_setprec w) { o.v_prec = w.n; return o; }
struct verif_setfill { char c; };
inline verif_setfill setfill(char c) { return verif_setfill{c}; }
inline ostream &operator<<(ostream &o, verif_setfill w) { o.v_fill = w.c; return o; }
inline ios_base &scientific(ios_base &b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base &fixed(ios_base &b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base &defaultfloat(ios_base &b) { b.setf(0, ios_base::floatfield); return b; }
inline ios_base &dec(ios_base &b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base &hex(ios_base &b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base &oct(ios_base &b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base &left(ios_base &b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base &right(ios_base &b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base &internal(ios_base &b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base &boolalpha(ios_base &b) { b.v_flags |= ios_base::boolalpha; return b; }
inline ios_base &noboolalpha(ios_base &b) { b.v_flags &= ~ios_base::boolalpha; return b; }
inline ios_base &showpos(ios_base &b) { b.v_flags |= ios_base::showpos; return b; }
inline ios_base &noshowpos(ios_base &b) { b.v_flags &= ~ios_base::showpos; return b; }
inline ios_base &showpoint(ios_base &b) { b.v_flags |= ios_base::showpoint; return b; }
inline ios_base &noshowpoint(ios_base &b) { b.v_flags &= ~ios_base::showpoint; return b; }
inline ios_base &uppercase(ios_base &b) { b.v_flags |= ios_base::uppercase; return b; }
inline ios_base &nouppercase(ios_base &b) { b.v_flags &= ~ios_base::uppercase; return b; }
inline ios_base &skipws(ios_base &b) { b.v_flags &= ~ios_base::skipws; return b; }
inline ios_base &noskipws(ios_base &b) { b.v_flags |= ios_base::skipws; return b; }   /* here the flag means: do not skip */
inline ios_base &unitbuf(ios_base &b) { return b; }
inline ios_base &nounitbuf(ios_base &b) { return b; }
inline istream &operator>>(istream &o, verif_setprec w) { o.v_prec = w.n; return o; }
struct verif_setbase { int n; };
inline verif_setbase setbase(int n) { return verif_setbase{n}; }
inline ostream &operator<<(ostream &o, verif_setbase w) { o.setf(w.n == 16 ? ios_base::hex : w.n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return o; }
struct verif_setflags { ios_base::fmtflags f; bool on; };
inline verif_setflags setiosflags(ios_base::fmtflags f) { return verif_setflags{f, true}; }
inline verif_setflags resetiosflags(ios_base::fmtflags f) { return verif_setflags{f, false}; }
inline ostream &operator<<(ostream &o, verif_setflags w) { if (w.on) o.setf(w.f); else o.unsetf(w.f); return o; }
struct verif_quoted { std::string s; };
inline verif_quoted quoted(const std::string &s, char d = '"', char e = '\\') {
    std::string t(1, d);
    for (char c : s) { if (c == d || c == e) t += e; t += c; }
    return verif_quoted{t + d};
}
inline ostream &operator<<(ostream &o, const verif_quoted &q) { return o << q.s; }

extern ostream cout, cerr, clog;
extern istream cin;
}
#endif
