"""Models of the functions that lie outside the analysed code: the harness
API, the allocator, C library string/maths routines, the C++ runtime."""
import math
import re
from fractions import Fraction
import z3

from . import irparse
from .irparse import INT, F64, PTR
from .engine import (Unsupported, Violation, PathEnd, Budget, UNDEF, RB, NORETURN, is_sym, toz, rv, bv, iv, sgn,
                     ratconst, INF, NAN, BIAS, tobool, sign_of, Obj)

I8 = INT(8)
I32 = INT(32)
I64 = INT(64)
MODELS = {}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def install(E):
    E.models.update(MODELS)


# ------------------------------------------------------------ harness API
def _name(E, st, p):
    return E.pystr(st, p)


def _new_input(E, st, name, sort, e):
    assert ' ' not in name, name
    st.inputs.append((name, sort, e))
    return e


def _uniq(st, name):
    k = 'n:' + name
    i = st.aux.get(k, 0)
    st.aux[k] = i + 1
    return name if i == 0 else '%s#%d' % (name, i)


def _mk_bv(w, tag):
    def f(E, st, a, ins):
        n = _uniq(st, _name(E, st, a[0]))
        v = z3.BitVec(n, w)
        return _new_input(E, st, n, tag, v)
    return f


MODELS['sym_u8'] = _mk_bv(8, 'u8')
MODELS['sym_u32'] = _mk_bv(32, 'u32')
MODELS['sym_i32'] = _mk_bv(32, 'i32')
MODELS['sym_u64'] = _mk_bv(64, 'u64')
MODELS['sym_i64'] = _mk_bv(64, 'i64')


@model('sym_bool')
def m_bool(E, st, a, ins):
    n = _uniq(st, _name(E, st, a[0]))
    return _new_input(E, st, n, 'bool', z3.Bool(n))


@model('sym_real')
def m_real(E, st, a, ins):
    n = _uniq(st, _name(E, st, a[0]))
    return _new_input(E, st, n, 'real', z3.Real(n))


@model('sym_zint')
def m_zint(E, st, a, ins):
    lo = sgn(E.concretize(st, a[1]), 64)
    hi = sgn(E.concretize(st, a[2]), 64)
    n = _uniq(st, _name(E, st, a[0]))
    v = z3.Int(n)
    E.add_pc(st, z3.And(v >= lo, v <= hi))
    return _new_input(E, st, n, 'i64', v)


@model('sym_choice')
def m_choice(E, st, a, ins):
    """A concrete value 0..n-1; one path each (the value is an input)."""
    n = E.concretize(st, a[1])
    nm = _name(E, st, a[0])
    k = 'n:' + nm
    i = st.aux.get(k, 0)
    full = nm if i == 0 else '%s#%d' % (nm, i)
    v = z3.BitVec(full, 32)
    fx = E.opts.get('fix')
    if fx and i == 0 and nm in fx:
        if fx[nm] >= n:
            raise Unsupported('split beyond the choice')
        st.aux[k] = i + 1
        _new_input(E, st, full, 'u32', z3.BitVecVal(fx[nm], 32))
        return fx[nm]
    c = z3.ULT(v, n)
    if c.get_id() not in st.known:
        E.add_pc(st, c)
    x = E.concretize(st, v, 'choice', limit=max(n + 1, 64))
    st.aux[k] = i + 1
    _new_input(E, st, full, 'u32', v)
    return x


@model('sym_assume')
def m_assume(E, st, a, ins):
    if a[0] is UNDEF:
        raise Unsupported('assume(undef)')
    E.assume(st, a[0])
    return None


@model('sym_assert_')
def m_assert(E, st, a, ins):
    _assert(E, st, a[0], _name(E, st, a[1]))
    return None


def _assert(E, st, cond, label):
    n = len(E.violations)
    E.check_assert(st, cond, label)
    if len(E.violations) > n:
        raise PathEnd('done')


@model('sym_eq_')
def m_eq(E, st, a, ins):
    x, y = a[0], a[1]
    lab = _name(E, st, a[2])
    if x is UNDEF or y is UNDEF:
        _assert(E, st, UNDEF, lab)
        return None
    if not is_sym(x) and not is_sym(y):
        if type(x) is float or type(y) is float:
            same = (x != x and y != y) or x == y
        else:
            same = x == y or abs(x - y) <= Fraction(1, 10**9) * (1 + abs(x))
        _assert(E, st, 1 if same else 0, lab)
        return None
    if type(x) is float or type(y) is float:
        _assert(E, st, 0, lab)
        return None
    x, y = toz(x), toz(y)
    tol = E.opts.get('eq_tol')
    if not x.eq(y):
        from . import realalg
        import os
        if os.environ.get('VERIF_NF'):
            import time
            t0 = time.time()
            r = realalg.identical(E, x, y)
            N = realalg.Norm(E)
            try:
                a, b = N.conv(x), N.conv(y)
                sz = [len(a[0]), len(a[1]), len(b[0]), len(b[1])]
            except Exception as ex:
                sz = repr(ex)
            print('NF', lab, r, sz, '%.1f' % (time.time() - t0), flush=True)
        if realalg.identical(E, x, y):
            # the normal forms coincide: what is left is a trivial query
            y = x
            E.stats['asserts_normal_form'] = E.stats.get('asserts_normal_form', 0) + 1
            E.query([z3.Not(z3.Real('nf') == z3.Real('nf'))], 1000)
    if tol is None:
        _assert(E, st, x == y, lab)
        return None
    # exact identity first; where that fails, only a difference above the
    # tolerance counts (rounding is outside the claim)
    rec = E.labels.setdefault(lab, [0, 0, 0.0])
    c = z3.simplify(x == y)
    if z3.is_true(c):
        rec[0] += 1
        E.stats['asserts'] += 1
        E.stats['asserts_trivial'] += 1
        return None
    n = z3.Not(c)
    r, m = E.query(E.slice(st, n) + [n], E.lim['atimeout'])
    if r == 'unsat':
        rec[0] += 1
        rec[1] += 1
        E.stats['asserts'] += 1
        return None
    t = toz(tol)
    _assert(E, st, z3.And(x - y <= t, y - x <= t), lab)
    return None


@model('sym_reach')
def m_reach(E, st, a, ins):
    E.reach.add(_name(E, st, a[0]))
    return None


@model('sym_note')
def m_note(E, st, a, ins):
    st.notes.append(_name(E, st, a[0]))
    return None


@model('sym_is_symbolic')
def m_issym(E, st, a, ins):
    return 1


@model('sym_concrete_i64')
def m_conc(E, st, a, ins):
    return E.concretize(st, a[0], 'sym_concrete') & (2**64 - 1)


@model('sym_deriv')
def m_deriv(E, st, a, ins):
    from . import realalg
    e, x = a
    if not is_sym(e):
        return Fraction(0)
    return realalg.deriv(E, e, x)


@model('sym_uf')
def m_uf(E, st, a, ins):
    """Arbitrary real function #key of (x,y): sym_uf(name, key, x, y)"""
    nm = _name(E, st, a[0])
    key = E.concretize(st, a[1], 'key')
    x, y = a[2], a[3]
    for v in (x, y):
        if v is UNDEF:
            raise Violation('memory', 'uninitialised value passed to ' + nm)
        if type(v) is float:
            raise Violation('nonfinite', 'inf/nan passed to ' + nm)
    f = z3.Function('%s_%d' % (nm, sgn(key, 64)), z3.RealSort(), z3.RealSort(), z3.RealSort())
    return f(toz(x), toz(y))


@model('sym_finite')
def m_finite(E, st, a, ins):
    if a[0] is UNDEF:
        return UNDEF
    return int(type(a[0]) is not float)


@model('sym_initialised')
def m_initd(E, st, a, ins):
    return int(a[0] is not UNDEF)


@model('sym_valid')
def m_valid(E, st, a, ins):
    """Whether [p, p+n) lies in one live object."""
    p = E.concretize(st, a[0], 'pointer')
    n = E.concretize(st, a[1], 'size')
    if p is UNDEF:
        return 0
    o = st.mem.get(p >> 32)
    if o is None or not o.alive:
        return 0
    off = (p & 0xffffffff) - BIAS
    return int(0 <= off and off + n <= o.size)


@model('sym_live_heap')
def m_live(E, st, a, ins):
    return sum(1 for o in st.mem.values() if o.alive and o.kind in ('new', 'new[]', 'malloc'))


# ------------------------------------------------------------ allocation
def _alloc(kind):
    def f(E, st, a, ins):
        n = E.concretize(st, a[0], 'allocation size')
        if n > (1 << 31):
            return throw_std(E, st, '_ZTISt9bad_alloc')
        return E.alloc(st, n, kind)
    return f


for _n in ('_Znwm', '_ZnwmRKSt9nothrow_t'):
    MODELS[_n] = _alloc('new')
for _n in ('_Znam', '_ZnamRKSt9nothrow_t'):
    MODELS[_n] = _alloc('new[]')
MODELS['malloc'] = _alloc('malloc')


@model('_ZdlPv', '_ZdlPvm')
def m_del(E, st, a, ins):
    E.free(st, a[0], 'new')


@model('_ZdaPv', '_ZdaPvm')
def m_dela(E, st, a, ins):
    E.free(st, a[0], 'new[]')


@model('free')
def m_free(E, st, a, ins):
    E.free(st, a[0], 'malloc')


@model('calloc')
def m_calloc(E, st, a, ins):
    n = E.concretize(st, a[0], 'size') * E.concretize(st, a[1], 'size')
    return E.alloc(st, n, 'malloc', 0)


@model('realloc')
def m_realloc(E, st, a, ins):
    p = E.concretize(st, a[0], 'pointer')
    n = E.concretize(st, a[1], 'size')
    if p is UNDEF:
        raise Violation('memory', 'realloc of an uninitialised pointer')
    q = E.alloc(st, n, 'malloc')
    if p:
        o = st.mem.get(p >> 32)
        if o is None or not o.alive or o.kind != 'malloc':
            raise Violation('memory', 'realloc of a pointer that was not malloc-ed')
        E.memcpy(st, q, p, min(n, o.size))
        E.free(st, p, 'malloc')
    return q


# ------------------------------------------------------------ memory / strings
def _memcpy(E, st, a, ins):
    n = E.concretize(st, a[2], 'copy length')
    d = E.concretize(st, a[0], 'pointer')
    s = E.concretize(st, a[1], 'pointer')
    if n:
        E.memcpy(st, d, s, n)
    return a[0]


for _n in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64', 'llvm.memcpy.inline.p0.p0.i64'):
    MODELS[_n] = _memcpy


@model('memset', 'llvm.memset.p0.i64')
def m_memset(E, st, a, ins):
    n = E.concretize(st, a[2], 'length')
    b = a[1]
    if isinstance(b, int):
        b &= 0xff
    elif is_sym(b) and b.size() > 8:
        b = z3.Extract(7, 0, b)
    E.memset(st, E.concretize(st, a[0], 'pointer'), b, n)
    return a[0]


def _bytes(E, st, p, n, what='read'):
    if n == 0:
        return []
    o, off = E.resolve(st, p, n, what)
    return [E.get_byte(o, off + i) for i in range(n)]


def _cmp(E, st, xs, ys):
    """memcmp of two byte lists -> i32"""
    for x, y in zip(xs, ys):
        if x is UNDEF or y is UNDEF:
            raise Violation('memory', 'comparison of uninitialised bytes')
    pairs = list(zip(xs, ys))
    if all(isinstance(x, int) and isinstance(y, int) for x, y in pairs):
        for x, y in pairs:
            if x != y:
                return 1 if x > y else 0xffffffff
        return 0
    r = z3.BitVecVal(0, 32)
    for x, y in reversed(pairs):
        if isinstance(x, int) and isinstance(y, int):
            if x == y:
                continue
            r = z3.BitVecVal(1 if x > y else 0xffffffff, 32)
            continue
        x, y = bv(x, 8), bv(y, 8)
        r = z3.If(x == y, r, z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))
    return z3.simplify(r)


@model('memcmp', 'bcmp')
def m_memcmp(E, st, a, ins):
    n = E.concretize(st, a[2], 'length')
    if n == 0:
        return 0
    p = E.concretize(st, a[0])
    q = E.concretize(st, a[1])
    return _cmp(E, st, _bytes(E, st, p, n), _bytes(E, st, q, n))


@model('strlen')
def m_strlen(E, st, a, ins):
    return len(E.cstring(st, a[0]))


@model('strcmp')
def m_strcmp(E, st, a, ins):
    x = E.cstring(st, a[0]) + [0]
    y = E.cstring(st, a[1]) + [0]
    return _cmp(E, st, x, y)


@model('strncmp')
def m_strncmp(E, st, a, ins):
    n = E.concretize(st, a[2])
    x = (E.cstring(st, a[0]) + [0])[:n]
    y = (E.cstring(st, a[1]) + [0])[:n]
    return _cmp(E, st, x, y)


@model('memchr')
def m_memchr(E, st, a, ins):
    n = E.concretize(st, a[2], 'length')
    p = E.concretize(st, a[0])
    c = a[1]
    c = c & 0xff if isinstance(c, int) else z3.Extract(7, 0, c)
    for i, b in enumerate(_bytes(E, st, p, n)):
        if b is UNDEF:
            raise Violation('memory', 'memchr on uninitialised bytes')
        if isinstance(b, int) and isinstance(c, int):
            if b == c:
                return p + i
        elif E.decide(st, bv(b, 8) == bv(c, 8)):
            return p + i
    return 0


@model('strchr')
def m_strchr(E, st, a, ins):
    p = E.concretize(st, a[0])
    c = a[1]
    if c is UNDEF:
        raise Violation('memory', 'strchr with an uninitialised character')
    c = c & 0xff if isinstance(c, int) else z3.simplify(z3.Extract(7, 0, c))
    bs = E.cstring(st, p)
    for i, b in enumerate(list(bs) + [0]):
        if isinstance(b, int) and isinstance(c, int):
            if b == c:
                return p + i
        elif E.decide(st, bv(b, 8) == bv(c, 8)):
            return p + i
    return 0


def _ctype(fn):
    def f(E, st, a, ins):
        c = a[0]
        if isinstance(c, int):
            return int(bool(fn(c)))
        if c is UNDEF:
            raise Violation('memory', 'character class of an uninitialised byte')
        return z3.If(z3.Or([bv(c, 32) == i for i in range(128) if fn(i)]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    return f


MODELS['isspace'] = _ctype(lambda c: c in (32, 9, 10, 11, 12, 13))
MODELS['isdigit'] = _ctype(lambda c: 48 <= c <= 57)
MODELS['isalpha'] = _ctype(lambda c: 65 <= c <= 90 or 97 <= c <= 122)
MODELS['isupper'] = _ctype(lambda c: 65 <= c <= 90)
MODELS['islower'] = _ctype(lambda c: 97 <= c <= 122)
MODELS['isxdigit'] = _ctype(lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102)
MODELS['ispunct'] = _ctype(lambda c: 33 <= c <= 126 and not chr(c).isalnum())
MODELS['isprint'] = _ctype(lambda c: 32 <= c <= 126)
MODELS['isgraph'] = _ctype(lambda c: 33 <= c <= 126)
MODELS['iscntrl'] = _ctype(lambda c: 0 <= c <= 31 or c == 127)
MODELS['isblank'] = _ctype(lambda c: c in (32, 9))
MODELS['isalnum'] = _ctype(lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57)


def _case(lo, hi, d):
    def f(E, st, a, ins):
        c = a[0]
        if isinstance(c, int):
            return c + d if lo <= c <= hi else c
        c = bv(c, 32)
        return z3.If(z3.And(c >= lo, c <= hi), c + d, c)
    return f


MODELS['tolower'] = _case(65, 90, 32)
MODELS['toupper'] = _case(97, 122, -32)


# ------------------------------------------------------------ stdio
def _noop0(E, st, a, ins):
    return 0


for _n in ('__cxa_atexit', 'atexit', 'sched_yield'):
    MODELS[_n] = _noop0

FMT = re.compile(r'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn%])')


def _token(E, st, v, prec, kind):
    tab = st.aux.get('nums', ())
    if len(tab) >= 4096:
        raise Budget('number tokens')
    st.aux['nums'] = tab + ((v, prec, kind),)
    i = len(tab)
    return [1, 0x40 + (i & 63), 0x40 + (i >> 6)]


def sext64(v, t, uns=False):
    if z3.is_int(v) or t.w >= 64:
        return v
    return z3.ZeroExt(64 - t.w, v) if uns else z3.SignExt(64 - t.w, v)


def format_bytes(E, st, fmt, args):
    """printf formatting; args: iterator of (type, value). Returns list of bytes."""
    out = []
    pos = 0
    args = iter(args)
    for m in FMT.finditer(fmt):
        out += [ord(c) for c in fmt[pos:m.start()]]
        pos = m.end()
        conv = m.group(5)
        if conv == '%':
            out.append(37)
            continue
        prec = m.group(3)
        width = m.group(2)
        if width == '*':
            t, v = next(args)
            width = str(sgn(E.concretize(st, v), 32))
        if prec == '*':
            t, v = next(args)
            prec = str(sgn(E.concretize(st, v), 32))
        t, v = next(args)
        if v is UNDEF:
            raise Violation('memory', 'uninitialised value printed')
        if conv == 's':
            bs = E.cstring(st, v)
            if prec is not None:
                bs = list(bs)[:int(prec)]
            pad = [32] * (int(width or 0) - len(bs))
            out += list(bs) + pad if '-' in m.group(1) else pad + list(bs)
            continue
        if conv in 'di':
            if is_sym(v):
                out += _token(E, st, sext64(v, t), 99, 1)
                continue
            s = ('%' + m.group(1) + (width or '') + ('.' + prec if prec else '') + 'd') % sgn(v, t.w)
        elif conv in 'uxXo':
            if is_sym(v):
                out += _token(E, st, sext64(v, t, conv == 'u'), 99, 1) if conv == 'u' else [63]
                continue
            s = ('%' + m.group(1) + (width or '') + ('.' + prec if prec else '') + {'u': 'd'}.get(conv, conv)) % v
        elif conv == 'c':
            if is_sym(v):
                out.append(z3.Extract(7, 0, v))
                continue
            out.append(v & 0xff)
            continue
        elif conv == 'p':
            s = '0x0'
        else:
            if is_sym(v):
                n = 6 if prec is None else int(prec)
                out += _token(E, st, v, n + 1 if conv in 'eE' else 99 if conv in 'aA' else max(n, 1), 0)
                continue
            s = ('%' + m.group(1) + (width or '') + ('.' + prec if prec else '') + conv) % float(v)
        out += [ord(c) for c in s]
    out += [ord(c) for c in fmt[pos:]]
    return out


def write_bounded(E, st, dst, size, bs):
    if size > 0:
        k = min(len(bs), size - 1)
        E.resolve(st, dst, k + 1, 'write', True)
        for i in range(k):
            E.store(st, dst + i, bs[i], I8)
        E.store(st, dst + k, 0, I8)
    return len(bs)


@model('snprintf')
def m_snprintf(E, st, a, ins):
    n = E.concretize(st, a[1], 'size')
    fmt = E.pystr(st, a[2])
    bs = format_bytes(E, st, fmt, zip(ins.extra['tys'][3:], a[3:]))
    return write_bounded(E, st, E.concretize(st, a[0]), n, bs)


@model('sprintf')
def m_sprintf(E, st, a, ins):
    fmt = E.pystr(st, a[1])
    bs = format_bytes(E, st, fmt, zip(ins.extra['tys'][2:], a[2:]))
    return write_bounded(E, st, E.concretize(st, a[0]), len(bs) + 1, bs)


@model('printf')
def m_printf(E, st, a, ins):
    bs = format_bytes(E, st, E.pystr(st, a[0]), zip(ins.extra['tys'][1:], a[1:]))
    st.aux['stdout'] = st.aux.get('stdout', ()) + tuple(bs)
    return len(bs)


@model('puts')
def m_puts(E, st, a, ins):
    st.aux['stdout'] = st.aux.get('stdout', ()) + tuple(E.cstring(st, a[0])) + (10,)
    return 1


@model('putchar')
def m_putchar(E, st, a, ins):
    st.aux['stdout'] = st.aux.get('stdout', ()) + (a[0] & 255 if isinstance(a[0], int) else z3.Extract(7, 0, a[0]),)
    return 1


@model('sym_unsupported')
def m_unsup(E, st, a, ins):
    raise Unsupported(E.pystr(st, a[0]))


@model('sym_stdout_put')
def m_stdoutput(E, st, a, ins):
    p, n = E.concretize(st, a[0]), E.concretize(st, a[1])
    st.aux['stdout'] = st.aux.get('stdout', ()) + tuple(E.load(st, p + i, I8) for i in range(n))


@model('sym_stdout')
def m_stdout(E, st, a, ins):
    """sym_stdout(buf, size): what was printed since the last call"""
    bs = list(st.aux.get('stdout', ()))
    st.aux['stdout'] = ()
    return write_bounded(E, st, E.concretize(st, a[0]), E.concretize(st, a[1]), bs)


@model('vsnprintf')
def m_vsnprintf(E, st, a, ins):
    n = E.concretize(st, a[1], 'size')
    fmt = E.pystr(st, a[2])
    va = E.concretize(st, a[3])
    area = E.load(st, va + 8, PTR)

    def gen():
        p = area
        o = st.mem[p >> 32]
        for t in o.info:
            yield t, E.load(st, p, t if t.k != 'int' or t.w >= 32 else I32)
            p += 8
    bs = format_bytes(E, st, fmt, gen())
    return write_bounded(E, st, E.concretize(st, a[0]), n, bs)


@model('llvm.va_start', 'llvm.va_start.p0')
def m_vastart(E, st, a, ins):
    fr = st.frames[-1]
    va = fr.varargs or []
    p = E.alloc(st, 8 * max(1, len(va)), 'stack')
    o = st.mem[p >> 32]
    o.info = [t for t, _ in va]
    for i, (t, v) in enumerate(va):
        E.store(st, p + 8 * i, v, t)
    q = E.concretize(st, a[0])
    E.store(st, q, 48, I32)
    E.store(st, q + 4, 176, I32)
    E.store(st, q + 8, p, PTR)
    E.store(st, q + 16, 0, PTR)


@model('llvm.va_end', 'llvm.va_end.p0')
def m_vaend(E, st, a, ins):
    return None


@model('llvm.va_copy', 'llvm.va_copy.p0')
def m_vacopy(E, st, a, ins):
    E.memcpy(st, E.concretize(st, a[0]), E.concretize(st, a[1]), 24)


@model('__errno_location')
def m_errno(E, st, a, ins):
    if 'errno' not in st.aux:
        p = E.alloc(st, 4, 'global')
        st.aux['errno'] = p
        E.store(st, p, 0, I32)
    return st.aux['errno']


@model('abort', '_ZSt9terminatev', 'exit', '_exit')
def m_abort(E, st, a, ins):
    raise Violation('abort', 'abort/terminate/exit called')


@model('__assert_fail')
def m_af(E, st, a, ins):
    raise Violation('abort', 'assert() fails')


@model('__cxa_pure_virtual')
def m_pv(E, st, a, ins):
    raise Violation('memory', 'pure virtual call')


# ------------------------------------------------------------ clock
@model('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv')
def m_now(E, st, a, ins):
    if st.aux.get('clockheld'):
        return st.aux['lastnow']
    k = st.aux.get('clock', 0)
    st.aux['clock'] = k + 1
    nm = 'now#%d' % k if k else 'now'
    v = z3.Int(nm)
    prev = st.aux.get('lastnow')
    lo = prev if prev is not None else z3.IntVal(0)
    E.add_pc(st, z3.And(v >= lo, v <= E.opts.get('clock_max', 10**18)))
    st.aux['lastnow'] = v
    st.inputs.append((nm, 'i64', v))
    return v


@model('time')
def m_time(E, st, a, ins):
    t = MODELS['_ZNSt6chrono3_V212system_clock3nowEv'](E, st, [], ins)
    t = t / 10 ** 9 if z3.is_expr(t) else t // 10 ** 9
    if isinstance(a[0], int) and a[0] == 0:
        return t
    E.store(st, E.concretize(st, a[0]), t, I64)
    return t


@model('clock')
def m_clock(E, st, a, ins):
    t = MODELS['_ZNSt6chrono3_V212system_clock3nowEv'](E, st, [], ins)
    return t / 1000 if z3.is_expr(t) else t // 1000


@model('vclock_last')
def m_clast(E, st, a, ins):
    v = st.aux.get('lastnow')
    return 0 if v is None else v


@model('vclock_hold')
def m_chold(E, st, a, ins):
    st.aux['clockheld'] = bool(E.concretize(st, a[0]) if z3.is_expr(a[0]) else a[0])


@model('vclock_reads')
def m_creads(E, st, a, ins):
    return st.aux.get('clock', 0)


# ------------------------------------------------------------ C++ runtime
@model('__cxa_allocate_exception')
def m_allocexc(E, st, a, ins):
    return E.alloc(st, E.concretize(st, a[0]), 'exc')


@model('__cxa_free_exception')
def m_freeexc(E, st, a, ins):
    E.free(st, a[0], 'exc')


@model('__cxa_throw')
def m_throw(E, st, a, ins):
    p = E.concretize(st, a[0])
    ti = E.concretize(st, a[1])
    o = E.wobj(st, p >> 32)
    o.info = ti
    E.unwind(st, p, ti)
    return NORETURN


def throw_std(E, st, tiname):
    ti = E.ext_global(st, tiname)
    p = E.alloc(st, 16, 'exc')
    st.mem[p >> 32].info = ti
    E.unwind(st, p, ti)
    return NORETURN


def _thrower(ti):
    return lambda E, st, a, ins: throw_std(E, st, ti)


for _n, _t in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('__cxa_throw_bad_array_new_length', '_ZTISt20bad_array_new_length'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call')):
    MODELS[_n] = _thrower(_t)


@model('__cxa_begin_catch')
def m_begin(E, st, a, ins):
    st.caught.append((a[0], st.mem[a[0] >> 32].info))
    return a[0]


@model('__cxa_end_catch')
def m_end(E, st, a, ins):
    if st.caught:
        st.caught.pop()


@model('__cxa_rethrow')
def m_rethrow(E, st, a, ins):
    if not st.caught:
        raise Violation('abort', 'rethrow without exception')
    p, ti = st.caught.pop()
    E.unwind(st, p, ti)
    return NORETURN


@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def m_typeid(E, st, a, ins):
    return E.sel_id(a[0])


@model('__clang_call_terminate')
def m_cct(E, st, a, ins):
    raise Violation('abort', 'exception escapes a noexcept function')


@model('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt9exceptionC2Ev')
def m_excd(E, st, a, ins):
    return None


@model('_ZNKSt9exception4whatEv')
def m_what(E, st, a, ins):
    if 'what' not in st.aux:
        p = E.alloc(st, 2, 'global')
        E.store(st, p, 63, I8)
        E.store(st, p + 1, 0, I8)
        st.aux['what'] = p
    return st.aux['what']


@model('__cxa_guard_acquire')
def m_ga(E, st, a, ins):
    p = E.concretize(st, a[0])
    return 0 if E.load(st, p, I8) else 1


@model('__cxa_guard_release')
def m_gr(E, st, a, ins):
    E.store(st, E.concretize(st, a[0]), 1, I8)


@model('__cxa_guard_abort')
def m_gab(E, st, a, ins):
    return None


@model('__dynamic_cast')
def m_dyncast(E, st, a, ins):
    p = E.concretize(st, a[0])
    vp = E.load(st, p, PTR)
    top = sgn(E.load(st, vp - 16, I64), 64)
    ti = E.load(st, vp - 8, PTR)
    if top != 0:
        raise Unsupported('dynamic_cast with offset')
    return p if E.derives(st, ti, E.concretize(st, a[2])) else 0


@model('_ZNKSt9type_info4nameEv')
def m_tiname(E, st, a, ins):
    return E.load(st, E.concretize(st, a[0]) + 8, PTR)


# ------------------------------------------------------------ intrinsics
def intrinsic(E, name):
    base = name
    if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.donothing',
                        'llvm.stackrestore', 'llvm.prefetch', 'llvm.invariant')):
        return lambda E, st, a, ins: None
    if name.startswith('llvm.stacksave'):
        return lambda E, st, a, ins: 0
    if name.startswith('llvm.trap') or name.startswith('llvm.ubsantrap'):
        return MODELS['abort']
    if name.startswith('llvm.expect'):
        return lambda E, st, a, ins: a[0]
    if name.startswith('llvm.is.constant'):
        return lambda E, st, a, ins: 0
    m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
    if m:
        sg, op, w = m.group(1), m.group(2), int(m.group(3))

        def f(E, st, a, ins):
            x, y = a
            if x is UNDEF or y is UNDEF:
                return [UNDEF, UNDEF]
            if is_sym(x):
                x = E.concretize(st, x, 'overflow operand')
            if is_sym(y):
                y = E.concretize(st, y, 'overflow operand')
            if sg == 's':
                x, y = sgn(x, w), sgn(y, w)
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            lo, hi = (0, 1 << w) if sg == 'u' else (-(1 << (w - 1)), 1 << (w - 1))
            return [r & ((1 << w) - 1), int(not lo <= r < hi)]
        return f
    m = re.match(r'llvm\.([us])(max|min)\.i(\d+)', name)
    if m:
        sg, op, w = m.group(1), m.group(2), int(m.group(3))

        def f(E, st, a, ins):
            p = {'max': 'gt', 'min': 'lt'}[op]
            c = E.icmp(st, sg + p, a[0], a[1], INT(w))
            if is_sym(c):
                return z3.If(c, bv(a[0], w), bv(a[1], w))
            if c is UNDEF:
                return UNDEF
            return a[0] if c else a[1]
        return f
    m = re.match(r'llvm\.abs\.i(\d+)', name)
    if m:
        w = int(m.group(1))

        def f(E, st, a, ins):
            x = a[0]
            if isinstance(x, int):
                return abs(sgn(x, w)) & ((1 << w) - 1)
            if z3.is_int(x):
                return z3.If(x >= 0, x, -x)
            return z3.If(x >= 0, x, -x)
        return f
    m = re.match(r'llvm\.(fabs|sqrt|floor|ceil|fmuladd|fma|copysign|minnum|maxnum|pow|powi|exp|log|sin|cos|round|trunc|rint|nearbyint|exp2|log2|log10|is\.fpclass)\.f(?:64|32|80)', name)
    if m:
        op = m.group(1)
        return {'fabs': MODELS['fabs'], 'sqrt': MODELS['sqrt'], 'floor': MODELS['floor'], 'ceil': MODELS['ceil'],
                'pow': MODELS['pow'], 'exp': MODELS['exp'], 'log': MODELS['log'], 'sin': MODELS['sin'],
                'cos': MODELS['cos'], 'minnum': MODELS['fmin'], 'maxnum': MODELS['fmax'],
                'fmuladd': lambda E, st, a, ins: E.fop(st, 'fadd', E.fop(st, 'fmul', a[0], a[1]), a[2]),
                'fma': lambda E, st, a, ins: E.fop(st, 'fadd', E.fop(st, 'fmul', a[0], a[1]), a[2]),
                'copysign': MODELS['copysign'], 'round': MODELS['round'], 'trunc': MODELS['trunc'],
                'rint': MODELS['rint'], 'nearbyint': MODELS['nearbyint'], 'exp2': MODELS['exp2'],
                'log2': MODELS['log2'], 'log10': MODELS['log10'],
                'powi': lambda E, st, a, ins: MODELS['pow'](E, st, [a[0], Fraction(sgn(E.concretize(st, a[1]), 32))], ins),
                'is.fpclass': m_fpclass}.get(op)
    m = re.match(r'llvm\.(ctpop|ctlz|cttz|bswap)\.i(\d+)', name)
    if m:
        op, w = m.group(1), int(m.group(2))

        def f(E, st, a, ins):
            x = a[0]
            if x is UNDEF:
                return UNDEF
            x = E.concretize(st, x)
            if op == 'ctpop':
                return bin(x).count('1')
            if op == 'bswap':
                return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            if op == 'ctlz':
                return w - x.bit_length()
            return w if x == 0 else (x & -x).bit_length() - 1
        return f
    if name.startswith('llvm.threadlocal.address'):
        return lambda E, st, a, ins: a[0]
    if name.startswith('llvm.objectsize'):
        return lambda E, st, a, ins: 0xffffffffffffffff
    return None


# ------------------------------------------------------------ maths
def _chk(x):
    if x is UNDEF:
        return True
    return False


def m_fpclass(E, st, a, ins):
    x, m = a
    if x is UNDEF:
        return UNDEF
    if type(x) is float:
        if x != x:
            return int(bool(m & 3))
        return int(bool(m & (512 if x > 0 else 4)))
    if m & 3 == m or (m & ~(3 | 4 | 512)) == 0:
        return 0
    if m in (264, 504):
        return 1
    raise Unsupported('is.fpclass %d' % m)


@model('fabs')
def m_fabs(E, st, a, ins):
    x = a[0]
    if x is UNDEF:
        return x
    if is_sym(x):
        if E.opts.get('fabs_fork', True):
            return x if E.decide(st, x >= 0) else -x
        return z3.If(x >= 0, x, -x)
    return abs(x)


@model('fmin')
def m_fmin(E, st, a, ins):
    return _minmax(E, st, a, 'olt')


@model('fmax')
def m_fmax(E, st, a, ins):
    return _minmax(E, st, a, 'ogt')


def _minmax(E, st, a, p):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is float and x != x:
        return y
    if type(y) is float and y != y:
        return x
    c = E.fcmp(st, p, x, y)
    return x if E.decide(st, c) else y


@model('copysign')
def m_copysign(E, st, a, ins):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    ax = m_fabs(E, st, [x], ins)
    s = sign_of(E, st, y)
    return -ax if s < 0 else ax


def sqrt_real(E, st, x):
    """sqrt of a symbolic non-negative real: a fresh y >= 0 with y*y = x."""
    from . import realalg
    key, sx = realalg.canon(E, x)
    if z3.is_rational_value(sx):
        return sqrt_const(Fraction(sx.numerator_as_long(), sx.denominator_as_long()))
    v = E.sqrt_tab.get(key)
    if v is None and key[0] != 'raw':
        for k2, v2 in E.sqrt_tab.items():
            if k2[0] != 'raw' and len(E.sqrt_tab) < 60 and E._norm.same(
                    (dict(key[0]), dict(key[1])), (dict(k2[0]), dict(k2[1]))):
                v = v2
                sx = E.sqrt_def[v.get_id()][1]
                E.sqrt_tab[key] = v
                break
    if v is None:
        v = z3.Real('sqrt!%d' % len(E.sqrt_tab))
        E.sqrt_tab[key] = v
        E.sqrt_def[v.get_id()] = ('sqrt', sx, v)
        E.keep.append(v)
    k = ('sqrt', v.get_id())
    if k not in st.aux:
        st.aux[k] = True
        E.add_pc(st, z3.And(v >= 0, v * v == sx))
    return v


def sqrt_const(x):
    n = math.isqrt(x.numerator)
    d = math.isqrt(x.denominator)
    if n * n == x.numerator and d * d == x.denominator:
        return Fraction(n, d)
    return Fraction(math.sqrt(x))


@model('sqrt')
def m_sqrt(E, st, a, ins):
    x = a[0]
    if x is UNDEF:
        return x
    if type(x) is float:
        return INF if x == INF else NAN
    if is_sym(x):
        if E.decide(st, x < 0):
            return NAN
        return sqrt_real(E, st, x)
    if x < 0:
        return NAN
    return sqrt_const(x)


@model('hypot')
def m_hypot(E, st, a, ins):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is float or type(y) is float:
        return INF if INF in (abs(x) if type(x) is float else 0, abs(y) if type(y) is float else 0) else NAN
    if is_sym(x) or is_sym(y):
        x, y = toz(x), toz(y)
        return sqrt_real(E, st, x * x + y * y)
    return sqrt_const(x * x + y * y)


@model('pow')
def m_pow(E, st, a, ins):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is float or type(y) is float:
        if is_sym(x) or is_sym(y):
            raise Unsupported('pow special')
        return math.pow(float(x), float(y))
    if isinstance(y, Fraction) and y.denominator == 1 and abs(y.numerator) <= 24:
        n = y.numerator
        if not is_sym(x):
            if x == 0 and n < 0:
                return INF
            return x ** n
        r = Fraction(1)
        for _ in range(abs(n)):
            r = E.fop(st, 'fmul', r, x)
        if n < 0:
            r = E.fop(st, 'fdiv', Fraction(1), r)
        return r
    if isinstance(y, Fraction) and y.denominator == 2:
        s = m_sqrt(E, st, [x], ins)
        return m_pow(E, st, [s, y * 2], ins)
    if not is_sym(x) and not is_sym(y):
        return ratconst(math.pow(float(x), float(y)))
    if isinstance(y, Fraction) and y < 0:
        return E.fop(st, 'fdiv', Fraction(1), uf(E, st, 'pow', x, -y))
    return uf(E, st, 'pow', x, y)


def uf(E, st, name, *args):
    f = z3.Function('m_' + name, *([z3.RealSort()] * (len(args) + 1)))
    zs = [z3.simplify(toz(a)) for a in args]
    t = f(*zs)
    k = ('uf', t.get_id())
    if k not in st.aux:
        st.aux[k] = t
        ax = axiom(name, t, zs)
        for c in ax:
            E.add_pc(st, c)
    return t


def axiom(name, t, zs):
    if name == 'exp':
        x = zs[0]
        return [t > 0, z3.Implies(x < 0, t < 1), z3.Implies(x > 0, t > 1), z3.Implies(x == 0, t == 1), t >= 1 + x]
    if name in ('sin', 'cos'):
        other = z3.Function('m_' + ('cos' if name == 'sin' else 'sin'), z3.RealSort(), z3.RealSort())(*zs)
        return [t * t + other * other == 1, t <= 1, t >= -1]
    if name == 'log':
        x = zs[0]
        return [z3.Implies(x >= 1, t >= 0), z3.Implies(x <= 1, t <= 0)]
    if name == 'pow':
        r = [z3.Implies(zs[0] > 0, t > 0), z3.Implies(zs[0] >= 0, t >= 0)]
        if z3.is_rational_value(zs[1]):
            r.append(z3.Implies(zs[0] == 0, t == 0))    # (negative exponents are not given to this function)
        return r
    if name == 'atan2':
        return []
    return []


def _math1(name, fn):
    def f(E, st, a, ins):
        x = a[0]
        if x is UNDEF:
            return x
        if type(x) is float:
            try:
                r = fn(x)
            except (ValueError, OverflowError):
                r = NAN
            return ratconst(r)
        if is_sym(x):
            if name == 'log':
                if E.decide(st, x <= 0):
                    return -INF if E.decide(st, x == 0) else NAN
            if name == 'exp':
                y = z3.simplify(toz(x))
                if z3.is_app(y) and y.decl().name() == 'm_log':
                    return y.arg(0)     # the logarithm is only taken of positive numbers
            return uf(E, st, name, x)
        if name == 'log' and x <= 0:
            return -INF if x == 0 else NAN
        if x == 0 and name in ('exp', 'cos'):
            return Fraction(1)
        if x == 0:
            return Fraction(0) if name != 'log' else -INF
        try:
            return ratconst(fn(float(x)))
        except OverflowError:
            return INF
    MODELS[name] = f


_math1('exp', math.exp)
_math1('log', math.log)
_math1('sin', math.sin)
_math1('cos', math.cos)
_math1('tan', math.tan)
_math1('atan', math.atan)
_math1('log10', math.log10)
_math1('tanh', math.tanh)
_math1('acos', math.acos)
_math1('asin', math.asin)
_math1('gsl_sf_bessel_J0', lambda x: _j0(x))


def _j0(x):
    s, t = 0.0, 1.0
    for k in range(60):
        s += t
        t *= -(x * x / 4) / ((k + 1) ** 2)
    return s


@model('atan2')
def m_atan2(E, st, a, ins):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if not is_sym(x) and not is_sym(y):
        return ratconst(math.atan2(float(x), float(y)))
    return uf(E, st, 'atan2', x, y)


def _rounder(name, fn, zf):
    def f(E, st, a, ins):
        x = a[0]
        if x is UNDEF or type(x) is float:
            return x
        if is_sym(x):
            return zf(E, st, x)
        return Fraction(fn(x))
    MODELS[name] = f


_rounder('floor', math.floor, lambda E, st, x: z3.ToReal(z3.ToInt(x)))
_rounder('ceil', math.ceil, lambda E, st, x: -z3.ToReal(z3.ToInt(-x)))
_rounder('trunc', math.trunc, lambda E, st, x: z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x))))
_rounder('round', lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)),
         lambda E, st, x: z3.If(x >= 0, z3.ToReal(z3.ToInt(x + rv(Fraction(1, 2)))),
                                -z3.ToReal(z3.ToInt(-x + rv(Fraction(1, 2))))))


def _roundeven(E, st, x):
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    h = rv(Fraction(1, 2))
    return z3.ToReal(z3.If(z3.Or(d < h, z3.And(d == h, f % 2 == 0)), f, f + 1))


_rounder('rint', round, _roundeven)
_rounder('nearbyint', round, _roundeven)


def _toint(base):
    def f(E, st, a, ins):
        x = MODELS[base](E, st, a, ins)
        if x is UNDEF:
            return x
        return E.cast(st, 'fptosi', x, F64, I64)
    return f


for _n in ('lround', 'llround'):
    MODELS[_n] = _toint('round')
for _n in ('lrint', 'llrint'):
    MODELS[_n] = _toint('rint')


@model('modf')
def m_modf(E, st, a, ins):
    t = MODELS['trunc'](E, st, [a[0]], ins)
    E.store(st, E.concretize(st, a[1]), t, F64)
    return E.fop(st, 'fsub', a[0], t)


@model('fmod')
def m_fmod(E, st, a, ins):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is float or type(y) is float:
        return x if type(y) is float and abs(y) == INF and type(x) is not float else NAN
    if E.decide(st, E.fcmp(st, 'oeq', y, Fraction(0))):
        return NAN
    q = MODELS['trunc'](E, st, [E.fop(st, 'fdiv', x, y)], ins)
    return E.fop(st, 'fsub', x, E.fop(st, 'fmul', q, y))


@model('remainder')
def m_remainder(E, st, a, ins):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is float or type(y) is float:
        return NAN
    if E.decide(st, E.fcmp(st, 'oeq', y, Fraction(0))):
        return NAN
    q = MODELS['rint'](E, st, [E.fop(st, 'fdiv', x, y)], ins)
    return E.fop(st, 'fsub', x, E.fop(st, 'fmul', q, y))


@model('fdim')
def m_fdim(E, st, a, ins):
    if UNDEF in (a[0], a[1]):
        return UNDEF
    if E.decide(st, E.fcmp(st, 'ogt', a[0], a[1])):
        return E.fop(st, 'fsub', a[0], a[1])
    return Fraction(0)


@model('fma')
def m_fma(E, st, a, ins):
    return E.fop(st, 'fadd', E.fop(st, 'fmul', a[0], a[1]), a[2])


def _derived(name, fn):
    def f(E, st, a, ins):
        x = a[0]
        if x is UNDEF:
            return x
        return fn(E, st, x, ins)
    MODELS[name] = f


_H = Fraction(1, 2)
_F = lambda E, st, op, x, y: E.fop(st, op, x, y)
_exp = lambda E, st, x: MODELS['exp'](E, st, [x], None)
_log = lambda E, st, x: MODELS['log'](E, st, [x], None)
_neg = lambda E, st, x: E.fop(st, 'fsub', Fraction(0), x)
_derived('expm1', lambda E, st, x, i: _F(E, st, 'fsub', _exp(E, st, x), Fraction(1)))
_derived('log1p', lambda E, st, x, i: _log(E, st, _F(E, st, 'fadd', x, Fraction(1))))
_derived('sinh', lambda E, st, x, i: _F(E, st, 'fmul', _H, _F(E, st, 'fsub', _exp(E, st, x), _exp(E, st, _neg(E, st, x)))))
_derived('cosh', lambda E, st, x, i: _F(E, st, 'fmul', _H, _F(E, st, 'fadd', _exp(E, st, x), _exp(E, st, _neg(E, st, x)))))
_derived('log2', lambda E, st, x, i: _F(E, st, 'fdiv', _log(E, st, x), ratconst(math.log(2))))
_derived('exp2', lambda E, st, x, i: m_pow(E, st, [Fraction(2), x], i))


@model('cbrt')
def m_cbrt(E, st, a, ins):
    x = a[0]
    if x is UNDEF or type(x) is float:
        return x
    if not is_sym(x):
        return ratconst(math.copysign(abs(float(x)) ** (1 / 3), float(x)))
    v = z3.FreshReal('cbrt')
    E.keep.append(v)
    E.add_pc(st, v * v * v == toz(x))
    return v


for _n, _f in (('erf', math.erf), ('erfc', math.erfc), ('tgamma', math.gamma), ('lgamma', math.lgamma),
               ('asinh', math.asinh), ('acosh', math.acosh), ('atanh', math.atanh)):
    _math1(_n, _f)


@model('frexp')
def m_frexp(E, st, a, ins):
    if is_sym(a[0]) or a[0] is UNDEF:
        raise Unsupported('frexp of a symbolic number')
    m, e = math.frexp(float(a[0]))
    E.store(st, E.concretize(st, a[1]), e & 0xffffffff, I32)
    return ratconst(m)


@model('ldexp', 'scalbn', 'scalbln')
def m_ldexp(E, st, a, ins):
    n = sgn(E.concretize(st, a[1]), 32)
    return E.fop(st, 'fmul', a[0], Fraction(2) ** n)


@model('nextafter')
def m_nextafter(E, st, a, ins):
    if is_sym(a[0]) or is_sym(a[1]) or UNDEF in (a[0], a[1]):
        raise Unsupported('nextafter of a symbolic number')
    return ratconst(math.nextafter(float(a[0]), float(a[1])))


@model('nan')
def m_nan(E, st, a, ins):
    return NAN


for _n in ('fabs', 'sqrt', 'floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'exp', 'log', 'log10', 'log2', 'sin',
           'cos', 'tan', 'atan', 'asin', 'acos', 'tanh', 'sinh', 'cosh', 'hypot', 'pow', 'atan2', 'fmin', 'fmax', 'fmod',
           'copysign', 'lround', 'cbrt', 'expm1', 'log1p'):
    for _s in 'fl':
        MODELS.setdefault(_n + _s, MODELS[_n])


# ------------------------------------------------------------ numbers in text
@model('sym_isconc_i64')
def m_ici(E, st, a, ins):
    return int(isinstance(a[0], int))


@model('sym_isconc_real')
def m_icr(E, st, a, ins):
    return int(not is_sym(a[0]))


@model('sym_num_put', 'sym_num_puti')
def m_nput(E, st, a, ins):
    if a[0] is UNDEF:
        raise Violation('memory', 'uninitialised value written to a stream')
    tab = st.aux.get('nums', ())
    isint = len(a) == 1
    prec = 99 if isint else E.concretize(st, a[1])
    st.aux['nums'] = tab + ((a[0], prec, 1 if isint else 0),)
    if len(tab) >= 4096:
        raise Budget('number tokens')
    return len(tab)


def _printed(E, st, v, prec):
    """value of v after printing with `prec` significant digits"""
    if not is_sym(v):
        if type(v) is float:
            return v
        if prec >= 17:
            return v
        return ratconst(float('%.*g' % (prec, float(v))))
    if prec >= 17:
        return v
    f = z3.Function('printed_%d' % prec, z3.RealSort(), z3.RealSort())
    t = f(v)
    k = ('prn', t.get_id())
    if k not in st.aux:
        st.aux[k] = t
        eps = rv(Fraction(1, 2 * 10 ** (prec - 1)))
        av = z3.If(v >= 0, v, -v)
        E.add_pc(st, z3.And(t - v <= eps * av, v - t <= eps * av))
    return t


@model('sym_num_get')
def m_nget(E, st, a, ins):
    i = E.concretize(st, a[0])
    v, prec, kind = st.aux.get('nums', ())[i]
    if kind == 1:
        return E.cast(st, 'sitofp', v, I64, F64)
    return _printed(E, st, v, prec)


@model('sym_num_geti')
def m_ngeti(E, st, a, ins):
    i = E.concretize(st, a[0])
    v, prec, kind = st.aux.get('nums', ())[i]
    if kind == 1:
        return v
    return E.cast(st, 'fptosi', v, F64, I64)


@model('sym_num_kind')
def m_nkind(E, st, a, ins):
    i = E.concretize(st, a[0])
    return st.aux.get('nums', ())[i][2]
