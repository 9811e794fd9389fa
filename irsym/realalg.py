"""Algebra on real terms: symbolic differentiation and normal forms.

Terms are z3 Real expressions over base variables, square-root variables
(y >= 0, y*y = x) and applications of uninterpreted functions.  The normal
form is a quotient of two sparse polynomials over Q; it only rewrites a query,
the verdict stays with the solver.
"""
from fractions import Fraction
import z3


class NotRational(Exception):
    pass


class TooBig(Exception):
    pass


LIMIT = 60000


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for v, e in m2:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    if len(a) * len(b) > 4000000:
        raise TooBig()
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


ONE = {(): Fraction(1)}


def is_const(p):
    return len(p) == 0 or (len(p) == 1 and () in p)


class Norm:
    def __init__(self, E, reduce_sqrt=True, split_exp=False):
        self.E = E
        self.split_exp = split_exp
        self.ab = E.opts.get('coef_abs')
        self.apps = {}       # function name -> [(args as (num, den), atom)]
        self.atoms = {}      # id -> z3 expr
        self.cache = {}
        self.reduce_sqrt = reduce_sqrt
        self.sq = {}         # atom id -> (num, den) of its square

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = e
            d = self.E.sqrt_def.get(i)
            if d is not None and self.reduce_sqrt:
                self.sq[i] = None
                self.sq[i] = self.conv(d[1])
        return {((i, 1),): Fraction(1)}, ONE

    def conv(self, e):
        """z3 real term -> (num, den) polynomials"""
        i = e.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self._conv(e)
            self.cache[i] = r
            self.E.keep.append(e)
        return r

    def squares(self, n, d):
        """sqrt^2 whose definition is a quotient: clear it from n, pay in d"""
        for v, q in self.sq.items():
            if q is None or is_const(q[1]):
                continue
            k = 0
            for m in n:
                for a, e in m:
                    if a == v and e // 2 > k:
                        k = e // 2
            if not k:
                continue
            pn, pd = [ONE], [ONE]
            for _ in range(k):
                pn.append(self.reduce(pmul(pn[-1], q[0])))
                pd.append(self.reduce(pmul(pd[-1], q[1])))
            out = {}
            groups = {}
            for m, c in n.items():
                e = dict(m).get(v, 0)
                rest = tuple((a, b) for a, b in m if a != v)
                if e % 2:
                    rest = mmul(rest, ((v, 1),))
                groups.setdefault(e // 2, {})[rest] = groups.get(e // 2, {}).get(rest, 0) + c
            for h, pl in groups.items():
                out = padd(out, self.reduce(pmul(self.reduce(pmul(pl, pn[h])), pd[k - h])))
            n, d = out, self.reduce(pmul(d, pd[k]))
        return n, d

    def simp(self, nd):
        n, d = nd
        if self.sq and n:
            n, d = self.squares(n, d)
            if n:
                d, n = self.squares(d, n)
        if not n:
            return {}, ONE
        if is_const(d):
            c = d[()]
            if c != 1:
                n = {m: v / c for m, v in n.items()}
            return n, ONE
        # common monomial factor
        if len(d) == 1:
            (dm, dc), = d.items()
            common = dict(dm)
            for m in n:
                md = dict(m)
                for v in list(common):
                    common[v] = min(common[v], md.get(v, 0))
                    if common[v] == 0:
                        del common[v]
                if not common:
                    break
            if common:
                n = {self.mdiv(m, common): c / dc for m, c in n.items()}
                d = {self.mdiv(dm, common): Fraction(1)}
                if is_const(d):
                    return n, ONE
        if n == d:
            return ONE, ONE
        return n, d

    @staticmethod
    def mdiv(m, common):
        return tuple((v, e - common.get(v, 0)) for v, e in m if e - common.get(v, 0) > 0)

    def reduce(self, p):
        """replace sqrt^2 by its definition where that is polynomial"""
        if not self.sq:
            return p
        changed = True
        while changed:
            changed = False
            out = {}
            for m, c in p.items():
                hit = None
                for v, e in m:
                    if e >= 2 and self.sq.get(v) is not None and is_const(self.sq[v][1]):
                        hit = (v, e)
                        break
                if hit is None:
                    x = out.get(m, 0) + c
                    if x:
                        out[m] = x
                    else:
                        out.pop(m, None)
                    continue
                changed = True
                v, e = hit
                rest = tuple((a, b) for a, b in m if a != v)
                if e % 2:
                    rest = mmul(rest, ((v, 1),))
                t = {rest: c}
                for _ in range(e // 2):
                    t = pmul(t, self.sq[v][0])
                for mm, cc in t.items():
                    x = out.get(mm, 0) + cc
                    if x:
                        out[mm] = x
                    else:
                        out.pop(mm, None)
            p = out
        return p

    def mul(self, a, b):
        return self.reduce(pmul(a, b))

    def add2(self, x, y, s=1):
        if x[1] == y[1]:
            return self.simp((padd(x[0], y[0], s), x[1]))
        if is_const(x[1]) or is_const(y[1]):
            return self.simp((padd(self.mul(x[0], y[1]), self.mul(y[0], x[1]), s), self.mul(x[1], y[1])))
        # try one denominator dividing the other as monomials
        if len(x[1]) == 1 and len(y[1]) == 1:
            (mx, cx), = x[1].items()
            (my, cy), = y[1].items()
            dx, dy = dict(mx), dict(my)
            l = {v: max(dx.get(v, 0), dy.get(v, 0)) for v in set(dx) | set(dy)}
            lm = tuple(sorted(l.items()))
            fx = {self.mdiv(lm, dx): 1 / cx}
            fy = {self.mdiv(lm, dy): 1 / cy}
            return self.simp((padd(self.mul(x[0], fx), self.mul(y[0], fy), s), {lm: Fraction(1)}))
        return self.simp((padd(self.mul(x[0], y[1]), self.mul(y[0], x[1]), s), self.mul(x[1], y[1])))

    def _conv(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): v} if v else {}), ONE
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return ({(): v} if v else {}), ONE
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            r = ({}, ONE)
            for c in e.children():
                r = self.add2(r, self.conv(c))
            return r
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.add2(r, self.conv(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(e.arg(0))
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            n, d = ONE, ONE
            for c in e.children():
                n1, d1 = self.conv(c)
                n, d = self.simp((self.mul(n, n1), self.mul(d, d1)))
            return n, d
        if k == z3.Z3_OP_DIV:
            n1, d1 = self.conv(e.arg(0))
            n2, d2 = self.conv(e.arg(1))
            if not n2:
                raise NotRational()
            return self.simp((self.mul(n1, d2), self.mul(d1, n2)))
        if k == z3.Z3_OP_POWER:
            ex = e.arg(1)
            if z3.is_rational_value(ex) and ex.denominator_as_long() == 1 and 0 <= ex.numerator_as_long() <= 40:
                n, d = self.conv(e.arg(0))
                rn, rd = ONE, ONE
                for _ in range(ex.numerator_as_long()):
                    rn, rd = self.mul(rn, n), self.mul(rd, d)
                return self.simp((rn, rd))
            return self.atom(e)
        if k == z3.Z3_OP_UNINTERPRETED:
            if e.num_args():
                return self.application(e)
            return self.atom(e)
        if k == z3.Z3_OP_TO_REAL:
            return self.atom(e)
        raise NotRational(str(e.decl()))

    def application(self, e):
        """Applications with provably equal arguments become one atom."""
        try:
            nds = [self.conv(c) for c in e.children()]
        except (NotRational, TooBig):
            return self.atom(e)
        name = e.decl().name()
        if self.split_exp and name == 'm_exp':
            n, d = nds[0]
            if n and is_const(d):
                d = ONE
            if len(n) > 1 or any(c < 0 for c in n.values()):
                rn, rd = ONE, ONE
                for m, c in sorted(n.items(), key=lambda x: str(x[0])):
                    a, _ = self.app_atom(name, e.decl(), [self.simp(({m: abs(c)}, d))])
                    if c > 0:
                        rn = self.mul(rn, a)
                    else:
                        rd = self.mul(rd, a)
                return self.simp((rn, rd))
        return self.app_atom(name, e.decl(), nds)

    def same(self, x, y):
        if x[1] == y[1]:
            return x[0] == y[0] or close(x[0], y[0], self.ab)
        try:
            a, b = self.mul(x[0], y[1]), self.mul(y[0], x[1])
        except TooBig:
            return False
        return a == b or close(a, b, self.ab)

    def app_atom(self, name, decl, nds):
        tab = self.apps.setdefault((name, len(nds)), [])
        for old, at in tab:
            if all(self.same(a, b) for a, b in zip(old, nds)):
                return at
        t = decl(*[self.toz3(nd) for nd in nds])
        self.E.keep.append(t)
        at = self.atom(t)
        tab.append((nds, at))
        return at

    def poly_z3(self, p):
        if not p:
            return z3.RealVal(0)
        ts = []
        for m, c in sorted(p.items(), key=lambda x: str(x[0])):
            fs = []
            for v, ex in m:
                a = self.atoms[v]
                fs += [a] * ex
            cv = z3.RealVal('%d/%d' % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)
            if not fs:
                ts.append(cv)
            elif c == 1:
                ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
            else:
                ts.append(z3.Product(cv, *fs))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def toz3(self, nd):
        n, d = nd
        if is_const(d):
            return self.poly_z3({m: c / d[()] for m, c in n.items()})
        return self.poly_z3(n) / self.poly_z3(d)


TOL = Fraction(1, 10 ** 10)


def close(a, b, ab=None):
    """Same monomials, coefficients equal up to the rounding of constants.
    With ab, a coefficient that small (against the largest) counts as zero:
    what rounded constants leave behind where they should cancel."""
    if ab:
        big = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [1])
        return all(abs(a.get(m, 0) - b.get(m, 0)) <= ab * big for m in set(a) | set(b))
    if len(a) != len(b):
        return False
    for m, c in a.items():
        d = b.get(m)
        if d is None or (c != d and abs(c - d) > TOL * abs(c)):
            return False
    return True


class Fac:
    """Quotients with factored denominators; square roots stay unreduced
    until two numerators are compared."""

    def __init__(self, E):
        self.E = E
        self.ab = E.opts.get('coef_abs')
        self.cache = {}
        self.atoms = {}
        self.order = []
        self.sq = {}
        self.apps = {}
        self.pows = {}

    def atom(self, e):
        i = e.get_id()
        if i not in self.atoms:
            self.atoms[i] = e
            d = self.E.sqrt_def.get(i)
            if d is not None:
                self.sq[i] = self.conv(d[1])
                self.order.append(i)
        return {((i, 1),): Fraction(1)}, {}

    def conv(self, e):
        i = e.get_id()
        r = self.cache.get(i)
        if r is None:
            r = self._conv(e)
            self.cache[i] = r
            self.E.keep.append(e)
        return r

    def power(self, key, k):
        r = self.pows.get((key, k))
        if r is None:
            if key[0] == 'a':
                r = {((key[1], k),): Fraction(1)}
            else:
                p = dict(key[1])
                r = p if k == 1 else pmul(self.power(key, k - 1), p)
            self.pows[(key, k)] = r
        return r

    def cancel(self, n, d):
        if not n:
            return {}, {}
        for key in [k for k in d if k[0] == 'a']:
            v = key[1]
            c = d[key]
            for m in n:
                e = 0
                for a, b in m:
                    if a == v:
                        e = b
                        break
                if e < c:
                    c = e
                    if not c:
                        break
            if c:
                n = {Norm.mdiv(m, {v: c}): x for m, x in n.items()}
                d = dict(d)
                d[key] -= c
                if not d[key]:
                    del d[key]
        return n, d

    def mul(self, x, y):
        if not x[0] or not y[0]:
            return {}, {}
        d = dict(x[1])
        for k, e in y[1].items():
            d[k] = d.get(k, 0) + e
        return self.cancel(pmul(x[0], y[0]), d)

    def common(self, x, y):
        l = dict(x[1])
        for k, e in y[1].items():
            if l.get(k, 0) < e:
                l[k] = e
        out = []
        for n, d in (x, y):
            for k, e in l.items():
                m = e - d.get(k, 0)
                if m:
                    n = pmul(n, self.power(k, m))
            out.append(n)
        return out[0], out[1], l

    def add(self, x, y, s=1):
        if not y[0]:
            return x
        if not x[0]:
            return ({m: s * c for m, c in y[0].items()}, y[1])
        a, b, l = self.common(x, y)
        return self.cancel(padd(a, b, s), l)

    def inv(self, x):
        n, d = x
        if not n:
            raise NotRational()
        num = ONE
        for k, e in d.items():
            num = pmul(num, self.power(k, e))
        # monomial content
        it = iter(n)
        com = dict(next(it))
        for m in it:
            md = dict(m)
            com = {v: min(e, md.get(v, 0)) for v, e in com.items() if md.get(v, 0)}
            if not com:
                break
        rest = {Norm.mdiv(m, com): c for m, c in n.items()} if com else n
        lead = rest[min(rest)]
        rest = {m: c / lead for m, c in rest.items()}
        den = {('a', v): e for v, e in com.items()}
        if not is_const(rest):
            den[('p', frozenset(rest.items()))] = 1
        return self.cancel({m: c / lead for m, c in num.items()}, den)

    def _conv(self, e):
        if z3.is_rational_value(e):
            v = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return ({(): v} if v else {}), {}
        if z3.is_int_value(e):
            v = Fraction(e.as_long())
            return ({(): v} if v else {}), {}
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            r = ({}, {})
            for c in ch:
                r = self.add(r, self.conv(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.conv(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            n, d = self.conv(ch[0])
            return {m: -c for m, c in n.items()}, d
        if k == z3.Z3_OP_MUL:
            r = (ONE, {})
            for c in ch:
                r = self.mul(r, self.conv(c))
            return r
        if k == z3.Z3_OP_DIV:
            return self.mul(self.conv(ch[0]), self.inv(self.conv(ch[1])))
        if k == z3.Z3_OP_POWER:
            ex = ch[1]
            if z3.is_rational_value(ex) and ex.denominator_as_long() == 1 and 0 <= ex.numerator_as_long() <= 40:
                b = self.conv(ch[0])
                r = (ONE, {})
                for _ in range(ex.numerator_as_long()):
                    r = self.mul(r, b)
                return r
            return self.atom(e)
        if k == z3.Z3_OP_UNINTERPRETED:
            if ch:
                nds = [self.conv(c) for c in ch]
                tab = self.apps.setdefault((e.decl().name(), len(ch)), [])
                for old, at in tab:
                    if all(self.same(a, b) for a, b in zip(old, nds)):
                        return at
                at = self.atom(e)
                tab.append((nds, at))
                return at
            return self.atom(e)
        if k == z3.Z3_OP_TO_REAL:
            return self.atom(e)
        raise NotRational(str(e.decl()))

    def clear(self, a, b):
        """replace even powers of square roots, outermost first, in both"""
        for v in reversed(self.order):
            k = 0
            for p in (a, b):
                for m in p:
                    for x, e in m:
                        if x == v and e // 2 > k:
                            k = e // 2
            if not k:
                continue
            sn, sd = self.sq[v]
            den = ONE
            for key, e in sd.items():
                den = pmul(den, self.power(key, e))
            pn, pd = [ONE], [ONE]
            for _ in range(k):
                pn.append(pmul(pn[-1], sn))
                pd.append(pmul(pd[-1], den))
            out = []
            for p in (a, b):
                groups = {}
                for m, c in p.items():
                    e = dict(m).get(v, 0)
                    rest = tuple(x for x in m if x[0] != v)
                    if e % 2:
                        rest = mmul(rest, ((v, 1),))
                    g = groups.setdefault(e // 2, {})
                    g[rest] = g.get(rest, 0) + c
                r = {}
                for h, pl in groups.items():
                    r = padd(r, pmul(pmul(pl, pn[h]), pd[k - h]))
                out.append(r)
            a, b = out
        return a, b

    def same(self, x, y):
        if x == y:
            return True
        a, b, _ = self.common(x, y)
        # what is equal need not be expanded
        if not self.ab:
            eq = [m for m in a if b.get(m) == a[m]]
            if eq:
                a, b = dict(a), dict(b)
                for m in eq:
                    del a[m], b[m]
        if a == b or close(a, b, self.ab):
            return True
        a, b = self.clear(a, b)
        return a == b or close(a, b, self.ab)


def identical(E, x, y):
    """Whether x and y have one normal form (constants up to rounding)."""
    try:
        F = Fac(E)
        if F.same(F.conv(x), F.conv(y)):
            return True
    except (NotRational, TooBig):
        pass
    for split in (False, True):
        N = Norm(E, split_exp=split)
        try:
            a, b = N.conv(x), N.conv(y)
            if N.same(a, b):
                return True
        except (NotRational, TooBig):
            return False
        if not any(n == 'm_exp' for n, _ in N.apps):
            return False
    return same_exponentials(E, x, y)


def same_exponentials(E, x, y):
    """Whether x and y agree once products of exponentials are collected
    into exponentials of sums."""
    try:
        N = Norm(E)
        a, b = N.conv(x), N.conv(y)
        args = {}
        for nds, at in N.apps.get(('m_exp', 1), []):
            (m,) = at[0]
            ((v, _),) = m
            args[v] = nds[0]
        groups = []
        for side, p in enumerate((N.mul(a[0], b[1]), N.mul(b[0], a[1]))):
            for m, c in p.items():
                arg = ({}, ONE)
                rest = ()
                for v, k in m:
                    if v in args:
                        n, d = args[v]
                        arg = N.add2(arg, ({q: w * k for q, w in n.items()},
                                           d))
                    else:
                        rest = mmul(rest, ((v, k),))
                for g in groups:
                    if N.same(g[0], arg):
                        break
                else:
                    g = (arg, ({}, {}))
                    groups.append(g)
                g[1][side][rest] = g[1][side].get(rest, 0) + c
        return all(N.same((p, ONE), (q, ONE)) for _, (p, q) in groups)
    except (NotRational, TooBig):
        return False


def canon(E, x):
    """(hashable key, canonical z3 term) of a real term."""
    N = getattr(E, '_norm', None)
    if N is None:
        N = E._norm = Norm(E)
    try:
        nd = N.conv(x)
        # normalise the sign/scale of the denominator
        n, d = nd
        lead = d[min(d)]
        if lead != 1:
            n = {m: c / lead for m, c in n.items()}
            d = {m: c / lead for m, c in d.items()}
        key = (frozenset(n.items()), frozenset(d.items()))
        t = N.toz3((n, d))
        E.keep.append(t)
        return key, t
    except (NotRational, TooBig):
        t = z3.simplify(x)
        E.keep.append(t)
        return ('raw', t.get_id()), t


def deriv(E, e, x, memo=None):
    """d e / d x for a base variable x."""
    if memo is None:
        memo = {}
    i = e.get_id()
    r = memo.get(i)
    if r is None:
        r = _deriv(E, e, x, memo)
        memo[i] = r
        E.keep.append((e, r))
    return r


Z = z3.RealVal(0)


def is0(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0


def is1(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 1 and e.denominator_as_long() == 1


def mul(a, b):
    if is0(a) or is0(b):
        return Z
    if is1(a):
        return b
    if is1(b):
        return a
    return a * b


def add(a, b):
    if is0(a):
        return b
    if is0(b):
        return a
    return a + b


def _deriv(E, e, x, memo):
    if e.eq(x):
        return z3.RealVal(1)
    if z3.is_rational_value(e):
        return Z
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_UNINTERPRETED:
        if not ch:
            d = E.sqrt_def.get(e.get_id())
            if d is not None:
                da = deriv(E, d[1], x, memo)
                return Z if is0(da) else da / (2 * e)
            return Z
        das = [deriv(E, c, x, memo) for c in ch]
        if all(is0(d) for d in das):
            return Z
        name = e.decl().name()
        if name == 'm_sin':
            return mul(z3.Function('m_cos', z3.RealSort(), z3.RealSort())(ch[0]), das[0])
        if name == 'm_cos':
            return mul(-z3.Function('m_sin', z3.RealSort(), z3.RealSort())(ch[0]), das[0])
        if name == 'm_exp':
            return mul(e, das[0])
        if name == 'm_log':
            return das[0] / ch[0]
        rule = E.deriv_rules.get(name)
        if rule is None and '@' not in name and len(ch) == 2:
            # arbitrary smooth function: partial derivatives are functions of their own
            r = Z
            for j, d in enumerate(das):
                if not is0(d):
                    f = z3.Function(name + ('_dx' if j == 0 else '_dy'), z3.RealSort(), z3.RealSort(), z3.RealSort())
                    r = add(r, mul(f(*ch), d))
            return r
        if rule is None:
            raise Exception('no derivative for ' + name)
        return rule(e, ch, das)
    if k == z3.Z3_OP_ADD:
        r = Z
        for c in ch:
            r = add(r, deriv(E, c, x, memo))
        return r
    if k == z3.Z3_OP_SUB:
        r = deriv(E, ch[0], x, memo)
        for c in ch[1:]:
            d = deriv(E, c, x, memo)
            if not is0(d):
                r = r - d
        return r
    if k == z3.Z3_OP_UMINUS:
        d = deriv(E, ch[0], x, memo)
        return Z if is0(d) else -d
    if k == z3.Z3_OP_MUL:
        r = Z
        for j, c in enumerate(ch):
            d = deriv(E, c, x, memo)
            if is0(d):
                continue
            t = d
            for l, o in enumerate(ch):
                if l != j:
                    t = mul(t, o)
            r = add(r, t)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch
        da, db = deriv(E, a, x, memo), deriv(E, b, x, memo)
        if is0(db):
            return Z if is0(da) else da / b
        if is0(da):
            return -(a * db) / (b * b)
        return (da * b - a * db) / (b * b)
    if k == z3.Z3_OP_ITE:
        da, db = deriv(E, ch[1], x, memo), deriv(E, ch[2], x, memo)
        if is0(da) and is0(db):
            return Z
        return z3.If(ch[0], da, db)
    if k == z3.Z3_OP_TO_REAL:
        return Z
    raise Exception('no derivative for ' + str(e.decl()))
