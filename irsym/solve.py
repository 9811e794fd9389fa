"""SMT queries: z3 in stages, with a rational-function normal form for the
non-linear real ones, cvc5 as a second solver."""
import time
import z3
from . import realalg, witness

CMP = {z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ}


def features(E, cons):
    """(has_real, nonlinear, has_bv, has_int)"""
    seen = set()
    real = nl = bvs = ints = False
    stack = list(cons)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_real(e):
            real = True
            k = e.decl().kind()
            if k == z3.Z3_OP_MUL:
                if sum(0 if z3.is_rational_value(c) else 1 for c in e.children()) > 1:
                    nl = True
            elif k == z3.Z3_OP_DIV and not z3.is_rational_value(e.arg(1)):
                nl = True
            elif k == z3.Z3_OP_POWER:
                nl = True
        elif z3.is_bv(e):
            bvs = True
        elif z3.is_int(e):
            ints = True
        stack.extend(e.children())
    return real, nl, bvs, ints


def normalise(E, cons):
    """Rewrite every real comparison to polynomial form (denominators cleared,
    square roots reduced). Denominators are non-zero by the path condition."""
    N = realalg.Norm(E)
    memo = {}

    def rec(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        k = e.decl().kind()
        if k in CMP and z3.is_real(e.arg(0)):
            try:
                n, d = N.add2(N.conv(e.arg(0)), N.conv(e.arg(1)), -1)
                if k == z3.Z3_OP_EQ:
                    r = (N.poly_z3(n) == 0) if n and not realalg.is_const(n) else z3.BoolVal(not n)
                else:
                    if not realalg.is_const(d):
                        # sign of a quotient: two cases of lower degree
                        p, q = N.poly_z3(n), N.poly_z3(d)
                        pos, neg = {z3.Z3_OP_LE: (p <= 0, p >= 0), z3.Z3_OP_LT: (p < 0, p > 0),
                                    z3.Z3_OP_GE: (p >= 0, p <= 0), z3.Z3_OP_GT: (p > 0, p < 0)}[k]
                        r = z3.Or(z3.And(q > 0, pos), z3.And(q < 0, neg))
                    else:
                        c = d[()]
                        n = {m: v / c for m, v in n.items()}
                        if realalg.is_const(n):
                            v = n.get((), 0)
                            r = z3.BoolVal({z3.Z3_OP_LE: v <= 0, z3.Z3_OP_LT: v < 0, z3.Z3_OP_GE: v >= 0,
                                            z3.Z3_OP_GT: v > 0}[k])
                        else:
                            p = N.poly_z3(n)
                            r = {z3.Z3_OP_LE: p <= 0, z3.Z3_OP_LT: p < 0, z3.Z3_OP_GE: p >= 0, z3.Z3_OP_GT: p > 0}[k]
            except realalg.NotRational:
                r = e
        elif z3.is_bool(e) and e.num_args():
            r = e.decl()(*[rec(c) if z3.is_bool(c) else c for c in e.children()]) if k not in (z3.Z3_OP_AND, z3.Z3_OP_OR) \
                else (z3.And if k == z3.Z3_OP_AND else z3.Or)(*[rec(c) for c in e.children()])
        else:
            r = e
        memo[i] = r
        E.keep.append((e, r))
        return r
    # the definition of a square root must survive its own reduction
    out = []
    for c in cons:
        out.append(rec(c))
    for i, sq in list(N.sq.items()):
        v = N.atoms[i]
        d = E.sqrt_def[i][1]
        out.append(v >= 0)
        n, dd = N.conv(d)
        out.append(v * v * N.poly_z3(dd) == N.poly_z3(n) if not realalg.is_const(dd) else v * v == N.poly_z3(n))
    return out


def ackermann(E, cons):
    """Uninterpreted real functions become variables with congruence constraints."""
    memo, apps = {}, {}

    def rec(e):
        i = e.get_id()
        r = memo.get(i)
        if r is not None:
            return r
        ch = e.children()
        if not ch:
            r = e
        else:
            nc = [rec(c) for c in ch]
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and z3.is_real(e):
                key = (d.name(),) + tuple(c.get_id() for c in nc)
                if key not in apps:
                    apps[key] = (z3.FreshReal('uf'), nc, d.name())
                r = apps[key][0]
            elif all(a.eq(b) for a, b in zip(ch, nc)):
                r = e
            elif d.kind() == z3.Z3_OP_AND:
                r = z3.And(*nc)
            elif d.kind() == z3.Z3_OP_OR:
                r = z3.Or(*nc)
            elif d.kind() == z3.Z3_OP_ADD:
                r = z3.Sum(*nc)
            elif d.kind() == z3.Z3_OP_MUL:
                r = nc[0]
                for c in nc[1:]:
                    r = r * c
            else:
                r = d(*nc)
        memo[i] = r
        E.keep.append((e, r))
        return r
    out = [rec(c) for c in cons]
    fs = {}
    for v, args, n in apps.values():
        fs.setdefault((n, len(args)), []).append((v, args))
    for l in fs.values():
        for i in range(len(l)):
            for j in range(i):
                out.append(z3.Implies(z3.And(*[a == b for a, b in zip(l[i][1], l[j][1])]), l[i][0] == l[j][0]))
    return out, bool(apps)


def z3check(cons, timeout, tactic=None, want_model=False):
    if tactic:
        s = tactic.solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(max(timeout, 50)))
    s.add(*cons)
    r = s.check()
    if r == z3.sat:
        return 'sat', s.model() if want_model else None
    if r == z3.unsat:
        return 'unsat', None
    return 'unknown', None


def cvc5check(cons, timeout):
    import subprocess
    s = z3.Solver()
    s.add(*cons)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout)], input=txt, capture_output=True,
                           text=True, timeout=timeout / 1000 + 5)
    except subprocess.TimeoutExpired:
        return 'unknown', None
    o = p.stdout.strip().split('\n')[0] if p.stdout else ''
    if o in ('sat', 'unsat'):
        return o, None
    return 'unknown', None


def check(E, cons, timeout, want_model=False):
    cons = [c for c in cons if not z3.is_true(c)]
    for c in cons:
        if z3.is_false(c):
            return 'unsat', None
    real, nl, bvs, ints = features(E, cons)
    if not (real and nl):
        return z3check(cons, timeout, None, want_model)
    # non-linear real arithmetic
    best = cons
    try:
        best = normalise(E, cons)
        for c in best:
            if z3.is_false(z3.simplify(c)):
                return 'unsat', None
    except realalg.TooBig:
        pass
    t0 = time.time()
    if not bvs and not ints:
        ack, any_uf = ackermann(E, best)
        if any_uf:
            r, m = z3check(ack, max(min(timeout * 0.3, 10000), 1000), z3.Tactic('qfnra-nlsat'), want_model)
            if r != 'unknown':
                return r, m
    r, m = z3check(best, min(timeout, 3000), None, want_model)
    if r != 'unknown':
        return r, m
    if want_model:
        m = witness.search(E, cons)
        if m is not None:
            return 'sat', m
    if not bvs and not ints:
        try:
            r, m = z3check(best, max(timeout * 0.4, 1000), z3.Tactic('qfnra-nlsat'), want_model)
            if r != 'unknown':
                return r, m
        except z3.Z3Exception:
            pass
    left = timeout - (time.time() - t0) * 1000
    if left > 2000:
        r, m = cvc5check(best, left / 2)
        if r == 'unsat':
            return r, m
        if r == 'sat' and not want_model:
            return r, m
    left = timeout - (time.time() - t0) * 1000
    if left > 500:
        r, m = z3check(best, left, None, want_model)
    return r, m
