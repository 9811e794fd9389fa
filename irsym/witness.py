"""Numeric search for a counterexample where the solver does not find one.

Only ever turns "unknown" into "sat": the inputs found are replayed against
the real code like every other counterexample."""
import math
import random
from fractions import Fraction
import z3

UF = {'m_exp': math.exp, 'm_log': math.log, 'm_sin': math.sin, 'm_cos': math.cos, 'm_atan2': math.atan2,
      'm_pow': math.pow, 'm_tan': math.tan, 'm_acos': math.acos, 'm_asin': math.asin, 'm_atan': math.atan}
POOL = [Fraction(n, d) for d in (1, 2, 4) for n in range(-12, 13)]


class No(Exception):
    pass


class Ev:
    def __init__(self, E, env):
        self.E, self.env, self.memo = E, env, {}

    def num(self, e):
        i = e.get_id()
        r = self.memo.get(i)
        if r is None:
            r = self.memo[i] = self._num(e)
        return r

    def _num(self, e):
        if z3.is_rational_value(e):
            return e.numerator_as_long() / e.denominator_as_long()
        if z3.is_int_value(e):
            return float(e.as_long())
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                d = self.E.sqrt_def.get(e.get_id())
                if d is not None:
                    v = self.num(d[1])
                    if v < 0:
                        raise No()
                    return math.sqrt(v)
                return float(self.env[e.get_id()])
            f = UF.get(e.decl().name())
            if f is None:
                raise KeyError(e.decl().name())
            try:
                return f(*[self.num(c) for c in ch])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise No()
        if k == z3.Z3_OP_ADD:
            return sum(self.num(c) for c in ch)
        if k == z3.Z3_OP_SUB:
            r = self.num(ch[0])
            for c in ch[1:]:
                r -= self.num(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.num(ch[0])
        if k == z3.Z3_OP_MUL:
            r = 1.0
            for c in ch:
                r *= self.num(c)
            return r
        if k == z3.Z3_OP_DIV:
            d = self.num(ch[1])
            if d == 0:
                raise No()
            return self.num(ch[0]) / d
        if k == z3.Z3_OP_POWER:
            try:
                return self.num(ch[0]) ** self.num(ch[1])
            except (ValueError, OverflowError, ZeroDivisionError):
                raise No()
        if k == z3.Z3_OP_ITE:
            return self.num(ch[1] if self.truth(ch[0]) else ch[2])
        raise KeyError(str(e.decl()))

    def truth(self, e):
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_TRUE:
            return True
        if k == z3.Z3_OP_FALSE:
            return False
        if k == z3.Z3_OP_AND:
            return all(self.truth(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.truth(c) for c in ch)
        if k == z3.Z3_OP_NOT:
            return not self.truth(ch[0])
        if k == z3.Z3_OP_IMPLIES:
            return (not self.truth(ch[0])) or self.truth(ch[1])
        if k == z3.Z3_OP_ITE:
            return self.truth(ch[1] if self.truth(ch[0]) else ch[2])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(ch[0]):
            a, b = self.num(ch[0]), self.num(ch[1])
            near = abs(a - b) <= 1e-6 * (1e-3 + abs(a) + abs(b))
            if k == z3.Z3_OP_EQ:
                return near
            if near and a != b:
                raise No()          # too close to tell
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            return self.truth(ch[0]) == self.truth(ch[1])
        if k == z3.Z3_OP_XOR:
            return self.truth(ch[0]) != self.truth(ch[1])
        raise KeyError(str(e.decl()))


class NumModel:
    def __init__(self, E, env):
        self.E, self.env = E, env

    def eval(self, e, model_completion=True):
        v = self.env.get(e.get_id())
        if v is None:
            v = Fraction(Ev(self.E, self.env).num(e))
        return z3.RealVal('%d/%d' % (v.numerator, v.denominator))


def search(E, cons, tries=400):
    seen, vs = set(), []
    stack = list(cons)
    while stack:
        e = stack.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        ch = e.children()
        if not ch and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if not z3.is_real(e):
                return None
            d = E.sqrt_def.get(e.get_id())
            if d is None:
                vs.append(e)
            else:
                stack.append(d[1])
        stack.extend(ch)
    vs.sort(key=lambda v: v.decl().name())
    rng = random.Random(1)
    for _ in range(tries):
        env = {v.get_id(): rng.choice(POOL) for v in vs}
        try:
            ev = Ev(E, env)
            if all(ev.truth(c) for c in cons):
                return NumModel(E, env)
        except No:
            continue
        except (KeyError, RecursionError):
            return None
        except OverflowError:
            continue
    return None
