"""Interval propagation over real terms, used before the solver to settle
comparisons that follow from the bounds of the path condition alone
(denominators that cannot vanish, sums of positive terms, ...).

An interval is (lo, lo_open, hi, hi_open) with Fractions or None for infinity.
"""
from fractions import Fraction
import z3

ALL = (None, True, None, True)
F0, F1 = Fraction(0), Fraction(1)
LE, LT, GE, GT, EQ, NOT = z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_NOT


def num(e):
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    return None


def meet(a, b):
    lo, lop, hi, hop = a
    if b[0] is not None and (lo is None or b[0] > lo or (b[0] == lo and b[1])):
        lo, lop = b[0], b[1]
    if b[2] is not None and (hi is None or b[2] < hi or (b[2] == hi and b[3])):
        hi, hop = b[2], b[3]
    return lo, lop, hi, hop


def neg(a):
    return (None if a[2] is None else -a[2], a[3], None if a[0] is None else -a[0], a[1])


def add(a, b):
    lo = None if a[0] is None or b[0] is None else a[0] + b[0]
    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
    return lo, lo is None or a[1] or b[1], hi, hi is None or a[3] or b[3]


def _ends(a):
    return ((a[0], a[1], -1), (a[2], a[3], 1))


def mul(a, b):
    # candidates: products of end points; infinite end points by sign
    lo = hi = None
    lop = hop = True
    lo_inf = hi_inf = False
    first = True
    for x, xo, sx in _ends(a):
        for y, yo, sy in _ends(b):
            if x is None or y is None:
                # sign of the other end point
                px = sx if x is None else (x > 0) - (x < 0)
                py = sy if y is None else (y > 0) - (y < 0)
                s = px * py
                if s > 0:
                    hi_inf = True
                elif s < 0:
                    lo_inf = True
                else:
                    v = F0
                    # 0 * inf: 0 attained only if the zero end is closed
                    o = (xo if x is not None else yo) if not (x is None and y is None) else True
                    if first or v < lo or (v == lo and lop and not o):
                        lo, lop = v, o
                    if first or v > hi or (v == hi and hop and not o):
                        hi, hop = v, o
                    first = False
                continue
            v = x * y
            if v == 0:
                # attained when one of the zero ends is closed
                o = not ((x == 0 and not xo) or (y == 0 and not yo))
            else:
                o = xo or yo
            if first or v < lo or (v == lo and lop and not o):
                lo, lop = v, o
            if first or v > hi or (v == hi and hop and not o):
                hi, hop = v, o
            first = False
    if lo_inf or first:
        lo, lop = None, True
    if hi_inf or first:
        hi, hop = None, True
    return lo, lop, hi, hop


def inv(b):
    """1/b for an interval that excludes zero, else None"""
    lo, lop, hi, hop = b
    if lo is not None and (lo > 0 or (lo == 0 and lop)):
        return (F0, True) if hi is None else (1 / hi, hop), ((None, True) if lo == 0 else (1 / lo, lop))
    if hi is not None and (hi < 0 or (hi == 0 and hop)):
        return ((None, True) if hi == 0 else (1 / hi, hop)), ((F0, True) if lo is None else (1 / lo, lop))
    return None


def sqr(a):
    lo, lop, hi, hop = a
    if lo is not None and lo >= 0:
        return lo * lo, lop, None if hi is None else hi * hi, hi is None or hop
    if hi is not None and hi <= 0:
        return sqr(neg(a))
    m = None
    o = True
    if lo is not None and hi is not None:
        if -lo > hi:
            m, o = lo * lo, lop
        elif -lo < hi:
            m, o = hi * hi, hop
        else:
            m, o = hi * hi, lop and hop
    return F0, False, m, o


def isqrt_lo(x):
    import math
    n = math.isqrt(x.numerator * x.denominator)
    return Fraction(n, x.denominator)


class Env:
    def __init__(self, E, bounds):
        self.E = E
        self.b = bounds
        self.memo = {}

    def iv(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self._iv(e)
            k = self.b.get(i)
            if k is not None:
                r = meet(r, k)
            self.memo[i] = r
            self.E.keep.append(e)
        return r

    def _iv(self, e):
        v = num(e)
        if v is not None:
            return v, False, v, False
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = self.iv(ch[0])
            for c in ch[1:]:
                r = add(r, self.iv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.iv(ch[0])
            for c in ch[1:]:
                r = add(r, neg(self.iv(c)))
            return r
        if k == z3.Z3_OP_UMINUS:
            return neg(self.iv(ch[0]))
        if k == z3.Z3_OP_MUL:
            # pair up equal factors as squares
            fs = {}
            for c in ch:
                fs.setdefault(c.get_id(), [c, 0])[1] += 1
            r = (F1, False, F1, False)
            for c, n in fs.values():
                a = self.iv(c)
                for _ in range(n // 2):
                    r = mul(r, sqr(a))
                if n % 2:
                    r = mul(r, a)
            return r
        if k == z3.Z3_OP_POWER:
            n = num(ch[1])
            if n is not None and n.denominator == 1 and 0 < n <= 20:
                a = self.iv(ch[0])
                r = (F1, False, F1, False)
                n = int(n)
                for _ in range(n // 2):
                    r = mul(r, sqr(a))
                return mul(r, a) if n % 2 else r
            return ALL
        if k == z3.Z3_OP_DIV:
            d = inv(self.iv(ch[1]))
            if d is None:
                return ALL
            (lo, lop), (hi, hop) = d
            return mul(self.iv(ch[0]), (lo, lop, hi, hop))
        if k == z3.Z3_OP_ITE:
            a, b = self.iv(ch[1]), self.iv(ch[2])
            if a[0] is None or b[0] is None:
                lo, lop = None, True
            else:
                lo, lop = min((a[0], a[1]), (b[0], b[1]))
            if a[2] is None or b[2] is None:
                hi, hop = None, True
            else:
                hi, hop = max((a[2], not a[3]), (b[2], not b[3]))
                hop = not hop
            return lo, lop, hi, hop
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                d = self.E.sqrt_def.get(e.get_id())
                if d is not None:
                    a = self.iv(d[1])
                    if a[0] is not None and a[0] >= 0:
                        lo = isqrt_lo(a[0])
                        return lo, (a[1] if lo * lo == a[0] else False), None, True
                    return F0, False, None, True
                return ALL
            nm = e.decl().name()
            if nm == 'm_exp':
                a = self.iv(ch[0])
                lo, lop, hi, hop = F0, True, None, True
                if a[0] is not None and a[0] >= 0:
                    lo, lop = 1 + a[0], a[0] > 0 or a[1]
                if a[2] is not None and a[2] <= 0:
                    hi, hop = F1, a[2] < 0 or a[3]
                return lo, lop, hi, hop
            if nm in ('m_sin', 'm_cos'):
                return -F1, False, F1, False
        return ALL


def learn(b, c, keep):
    """bounds from one conjunct of the path condition"""
    k = c.decl().kind()
    if k == z3.Z3_OP_AND:
        for x in c.children():
            learn(b, x, keep)
        return
    flip = False
    if k == NOT:
        c = c.arg(0)
        k = c.decl().kind()
        flip = True
    if k not in (LE, LT, GE, GT, EQ) or not z3.is_real(c.arg(0)):
        return
    x, y = c.arg(0), c.arg(1)
    v = num(y)
    if v is None:
        v = num(x)
        if v is None:
            return
        x = y
        k = {LE: GE, LT: GT, GE: LE, GT: LT, EQ: EQ}[k]
    if flip:
        if k == EQ:
            # x != v at a known end point opens it
            o = b.get(x.get_id())
            if o is not None:
                lo, lop, hi, hop = o
                b[x.get_id()] = (lo, lop or lo == v, hi, hop or hi == v)
            return
        k = {LE: GT, LT: GE, GE: LT, GT: LE}[k]
    r = {LE: (None, True, v, False), LT: (None, True, v, True), GE: (v, False, None, True), GT: (v, True, None, True),
         EQ: (v, False, v, False)}[k]
    i = x.get_id()
    keep.append(x)
    b[i] = meet(b.get(i, ALL), r)


def decide(E, st, c):
    """True / False when the comparison follows from bounds, else None"""
    flip = False
    e = c
    if e.decl().kind() == NOT:
        e = e.arg(0)
        flip = True
    k = e.decl().kind()
    if k not in (LE, LT, GE, GT, EQ) or not z3.is_real(e.arg(0)):
        return None
    n, b = st.aux.get('bnd', (0, {}))
    if n < len(st.pc):
        b = dict(b)
        for x in st.pc[n:]:
            learn(b, x, E.keep)
        st.aux['bnd'] = (len(st.pc), b)
    env = Env(E, b)
    a = add(env.iv(e.arg(0)), neg(env.iv(e.arg(1))))
    lo, lop, hi, hop = a
    r = None
    neg_, nonpos = hi is not None and (hi < 0 or (hi == 0 and hop)), hi is not None and hi <= 0
    pos, nonneg = lo is not None and (lo > 0 or (lo == 0 and lop)), lo is not None and lo >= 0
    if k == LE:
        r = True if nonpos else False if pos else None
    elif k == LT:
        r = True if neg_ else False if nonneg else None
    elif k == GE:
        r = True if nonneg else False if neg_ else None
    elif k == GT:
        r = True if pos else False if nonpos else None
    else:
        r = False if (pos or neg_) else None
    if r is None:
        return None
    return r != flip
