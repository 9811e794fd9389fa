"""Symbolic executor for LLVM IR.

Integers are bit-vectors (or mathematical integers where a harness asks for
them), doubles are real numbers extended with the concrete specials inf/nan,
memory is a set of bounded objects addressed by (object, offset).  Every
branch, every memory access, every division and every assertion is decided by
an SMT query over the symbolic inputs of the path.
"""
import os
import struct
import time
from fractions import Fraction
import z3

from . import interval, irparse
from .irparse import Const, Local, parse_body

BIAS = 0x10000
SLOW = float(os.environ.get('VERIF_SLOW', '0'))
INF = float('inf')
NAN = float('nan')


class Unsupported(Exception):
    """The engine cannot encode something: the run has no verdict."""


class Budget(Exception):
    """A stated bound (steps, forks, time) was exceeded: no verdict."""


class TooMany(Budget):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts       # list of (cond, [(expr, value)...])


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


class Violation(Exception):
    """Raised inside a path: some check fails under `cond` (None: on the whole path)."""

    def __init__(self, kind, label, cond=None):
        self.kind = kind
        self.label = label
        self.cond = cond


class _Undef:
    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()
_anyn = 0


class RB:
    """Bit pattern of a (symbolic) real held in an integer register / memory."""
    __slots__ = ('v', 'w')

    def __init__(self, v, w):
        self.v = v
        self.w = w


class RByte:
    __slots__ = ('v', 'i', 'w')

    def __init__(self, v, i, w):
        self.v = v
        self.i = i
        self.w = w


# ------------------------------------------------------------------ numbers
_ratcache = {}


def ratconst(x):
    """The simplest rational that the double constant x is the rounding of."""
    r = _ratcache.get(x)
    if r is None:
        if x != x or x in (INF, -INF):
            r = x
        else:
            r = Fraction(x)
            if r.denominator > 1:
                d = repr(x)
                if len(d.replace('.', '').replace('-', '').split('e')[0].strip('0')) <= 12:
                    r = Fraction(d)
                else:
                    q = r.limit_denominator(10 ** 6)
                    if q.numerator != 0 and float(q) == x:
                        r = q
        if x == x:
            _ratcache[x] = r
    return r


_rvcache = {}


def rv(fr):
    """Fraction -> z3 Real numeral."""
    v = _rvcache.get(fr)
    if v is None:
        v = z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)
        _rvcache[fr] = v
    return v


def is_special(x):
    return type(x) is float


def toz(x):
    if isinstance(x, (Fraction, int)):
        return rv(Fraction(x))
    return x


def is_sym(x):
    return isinstance(x, z3.ExprRef)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_int(x):
        return z3.Int2BV(x, w)
    return x


def iv(x, w):
    """as a mathematical integer (signed interpretation of constants)"""
    if isinstance(x, int):
        return z3.IntVal(sgn(x, w))
    if z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bv(x):
        return z3.BV2Int(x, True)
    return x


def toint(x):
    return z3.IntVal(x) if isinstance(x, int) else x


class Obj:
    __slots__ = ('id', 'size', 'cells', 'default', 'kind', 'alive', 'name', 'const', 'maxc', 'info')

    def __init__(self, id, size, kind, name='', default=UNDEF):
        self.id = id
        self.size = size
        self.cells = {}
        self.default = default
        self.kind = kind
        self.alive = True
        self.name = name
        self.const = False
        self.maxc = 1
        self.info = None

    def clone(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.default = self.default
        o.kind = self.kind
        o.alive = self.alive
        o.name = self.name
        o.const = self.const
        o.maxc = self.maxc
        o.info = self.info
        return o


class Frame:
    __slots__ = ('fn', 'regs', 'code', 'ip', 'lab', 'allocas', 'inst', 'varargs', 'counts')

    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.regs = self.regs[:]
        f.code = self.code
        f.ip = self.ip
        f.lab = self.lab
        f.allocas = self.allocas[:]
        f.inst = self.inst
        f.varargs = self.varargs
        return f


class State:
    __slots__ = ('mem', 'owned', 'frames', 'pc', 'known', 'nid', 'exc', 'caught', 'inputs', 'steps', 'aux', 'notes',
                 'forks', 'ncalls', 'reached')

    def __init__(self):
        self.mem = {}
        self.owned = set()
        self.frames = []
        self.pc = []
        self.known = {}
        self.nid = 1
        self.exc = None
        self.caught = []
        self.inputs = []
        self.steps = 0
        self.aux = {}
        self.notes = []
        self.forks = 0
        self.reached = ()

    def clone(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.frames = [f.clone() for f in self.frames]
        s.pc = self.pc[:]
        s.known = dict(self.known)
        s.nid = self.nid
        s.exc = self.exc
        s.caught = self.caught[:]
        s.inputs = self.inputs[:]
        s.steps = self.steps
        s.aux = dict(self.aux)
        s.notes = self.notes[:]
        s.forks = self.forks
        s.reached = self.reached
        return s


STD_BASES = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
    '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error',
    '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
    '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error',
    '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt8bad_cast': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt17bad_function_call': '_ZTISt9exception',
}

H = {}


def handler(*names):
    def d(f):
        for n in names:
            H[n] = f
        return f
    return d


class Joint:
    """A model put together from two over disjoint variables"""
    def __init__(self, E, vs, a, b):
        self.E, self.vs, self.a, self.b = E, vs, a, b

    def eval(self, e, model_completion=True):
        m = self.a if self.b is None or self.E.vars_of(e) & self.vs else self.b
        return m.eval(e, model_completion=model_completion)


class Engine:
    def __init__(self, module, limits=None, opts=None):
        self.m = module
        self.on_violation = None
        self.suspects = {}
        self.lim = {'steps': 3_000_000, 'paths': 200_000, 'enum': 64, 'loop_time': 600.0, 'qtimeout': 4000,
                    'atimeout': 60000, 'wall': 800.0}
        self.lim.update(limits or {})
        self.opts = {'leaks': False, 'overflow': True, 'alloc_mismatch': False, 'uninit_branch': True}
        self.opts.update(opts or {})
        self.base = State()
        self.gaddr = {}
        self.faddr = {}
        self.byaddr = {}
        self.models = {}
        self.stats = {'queries': 0, 'solver_s': 0.0, 'paths': 0, 'steps': 0, 'asserts': 0, 'asserts_trivial': 0,
                      'unknown': 0, 'pruned': 0}
        self.labels = {}          # label -> [times checked, times discharged by a non-trivial query]
        self.reach = set()
        self.funcs_run = set()
        self.violations = []
        self.loops = 0
        self.undecided = []
        self.vars_cache = {}
        self.qcache = {}
        self.sqrt_tab = {}        # key -> var
        self.sqrt_def = {}        # var id -> (kind, arg...)
        self.keep = []            # keep ASTs alive
        self.packs = {}           # integers put together from (high, low, bits of low)
        self.ucount = 0
        self.deriv_rules = {}
        self.t0 = time.time()
        self.ext_types = {}
        from . import models
        models.install(self)
        self.load_globals()

    # ---------------------------------------------------------- module load
    def new_obj(self, st, size, kind, name='', default=UNDEF):
        o = Obj(st.nid, size, kind, name, default)
        st.nid += 1
        st.mem[o.id] = o
        st.owned.add(o.id)
        return o

    @staticmethod
    def addr(o):
        return (o.id << 32) + BIAS

    def load_globals(self):
        st = self.base
        m = self.m
        for name, f in m.funcs.items():
            o = self.new_obj(st, 16, 'func', name)
            o.info = f
            o.const = True
            self.faddr[name] = self.addr(o)
            self.byaddr[self.addr(o)] = name
        for name, g in m.globals.items():
            if name.startswith('llvm.'):
                continue
            try:
                sz = g.ty.size
            except irparse.ParseError:
                sz = 0
            if g.external:
                sz = max(sz, 128)
            o = self.new_obj(st, sz, 'global', name, 0 if not g.external else UNDEF)
            self.gaddr[name] = self.addr(o)
        for name, v in m.aliases.items():
            pass
        for name, g in m.globals.items():
            if name.startswith('llvm.') or g.init is None:
                continue
            o = st.mem[self.gaddr[name] >> 32]
            self.init_cells(o, 0, g.ty, g.init)
            o.const = g.const

    def run_ctors(self):
        g = self.m.globals.get('llvm.global_ctors')
        if not g or g.init is None or g.init.k == 'z':
            return
        ents = []
        for t, c in g.init.v:
            pr = c.v[0][1].v
            fn = c.v[1][1].v
            ents.append((pr, fn))
        for pr, fn in sorted(ents, key=lambda x: x[0]):
            self.call_function(self.base, self.m.funcs[fn], [])
            wl = [self.base]
            self.single = True
            self.run_path(self.base, wl)
            if len(wl) != 1:
                raise Unsupported('static initialiser forks')
        self.base.steps = 0

    def init_cells(self, o, off, ty, c):
        k = c.k
        if k == 'z' or (k == 'u'):
            return
        if k == 's':
            for i, b in enumerate(c.v):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty.k == 'struct':
                for (t, v), oo in zip(c.v, ty.offs):
                    self.init_cells(o, off + oo, t, v)
            else:
                es = ty.e.size
                for i, (t, v) in enumerate(c.v):
                    self.init_cells(o, off + i * es, t, v)
            return
        v = self.const(c)
        n = ty.size
        o.cells[off] = (n, v)
        if n > o.maxc:
            o.maxc = n

    def symaddr(self, name):
        if name in self.m.aliases:
            return self.const(self.m.aliases[name])
        if name in self.faddr:
            return self.faddr[name]
        if name in self.gaddr:
            return self.gaddr[name]
        raise Unsupported('symbol ' + name)

    def const(self, c):
        k = c.k
        if k == 'i':
            return c.v
        if k == 'f':
            return ratconst(c.v)
        if k == 'g':
            return self.symaddr(c.v)
        if k == 'u':
            return self.undef_of(c.ty)
        if k == 'z':
            return self.zero_of(c.ty)
        if k == 'gep':
            et, ops = c.v
            base = self.const(ops[0][1])
            idx = [self.const(v) for _, v in ops[1:]]
            return self.gep(et, base, idx, [t for t, _ in ops[1:]])
        if k == 'cast':
            op, t, x, t2 = c.v
            v = self.const(x)
            if op == 'trunc':
                v &= (1 << t2.w) - 1
            elif op == 'sext':
                v = sgn(v, t.w) & ((1 << t2.w) - 1)
            return v
        if k == 'bin':
            op, t, x, y = c.v
            x = self.const(x)
            y = self.const(y)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y, 'xor': x ^ y, 'and': x & y, 'or': x | y}[op]
            return r & ((1 << t.w) - 1)
        if k == 'agg':
            return [self.const(v) for t, v in c.v]
        if k == 'icmp':
            p, t, x, y = c.v
            x = self.const(x)
            y = self.const(y)
            return int({'eq': x == y, 'ne': x != y}[p])
        raise Unsupported('constant ' + k)

    def undef_of(self, ty):
        if ty.k == 'struct':
            return [self.undef_of(f) for f in ty.fields]
        if ty.k in ('arr', 'vec'):
            return [self.undef_of(ty.e) for _ in range(ty.n)]
        return UNDEF

    def zero_of(self, ty):
        if ty.k == 'struct':
            return [self.zero_of(f) for f in ty.fields]
        if ty.k in ('arr', 'vec'):
            return [self.zero_of(ty.e) for _ in range(ty.n)]
        if ty.k == 'fp':
            return Fraction(0)
        return 0

    # ---------------------------------------------------------- decode
    def prepare(self, f):
        if f.blocks is None:
            parse_body(f, self.m)
        slots = {}
        template = []
        for t, nm, a in f.params:
            slots[nm] = len(template)
            template.append(UNDEF)
        for b in f.blocks.values():
            for ins in b:
                if ins.res is not None:
                    slots[ins.res] = len(template)
                    template.append(UNDEF)
        cc = {}

        def operand(o):
            if isinstance(o, Local):
                return slots[o.n]
            v = self.const(o)
            key = None
            if isinstance(v, int):
                key = ('i', v)
            if key is not None and key in cc:
                return cc[key]
            template.append(v)
            if key is not None:
                cc[key] = len(template) - 1
            return len(template) - 1

        f.code = {}
        f.phis = {}
        for lab, b in f.blocks.items():
            code = []
            phis = []
            for ins in b:
                ins.ai = [operand(o) for o in ins.a]
                ins.resi = slots[ins.res] if ins.res is not None else -1
                if ins.op == 'phi':
                    phis.append(ins)
                    continue
                h = H.get(ins.op)
                if h is None:
                    raise Unsupported('instruction ' + ins.op)
                if ins.op in ('call', 'invoke'):
                    c = ins.extra['callee']
                    if isinstance(c, Const) and c.k == 'g':
                        nm = c.v
                        if nm in self.m.aliases:
                            nm = self.byaddr[self.const(self.m.aliases[nm])]
                        ins.extra['fname'] = nm
                        ins.extra['ci'] = None
                    else:
                        ins.extra['fname'] = None
                        ins.extra['ci'] = operand(c)
                if ins.op == 'landingpad':
                    cleanup, cl = ins.extra
                    ins.extra = (cleanup, [(k, self.const(v) if k == 'catch' else v) for k, v in cl])
                if ins.op == 'switch':
                    d, cases = ins.extra
                    ins.extra = (d, cases, {v: l for v, l in cases})
                ins.fn = h
                code.append(ins)
            f.code[lab] = code
            if phis:
                d = {}
                for ph in phis:
                    for idx, l in enumerate(ph.extra):
                        d.setdefault(l, []).append((ph.resi, ph.ai[idx]))
                f.phis[lab] = d
        f.template = template

    def call_function(self, st, f, args, varargs=None):
        if f.blocks is None or not hasattr(f, 'template'):
            self.prepare(f)
        self.funcs_run.add(f.name)
        fr = Frame.__new__(Frame)
        fr.fn = f
        regs = f.template[:]
        n = len(f.params)
        regs[:n] = args[:n]
        fr.regs = regs
        fr.lab = f.entry
        fr.code = f.code[f.entry]
        fr.ip = 0
        fr.allocas = []
        fr.inst = None
        fr.varargs = varargs
        if len(st.frames) > 200:
            raise Violation('loop', 'recursion deeper than 200 calls')
        st.frames.append(fr)

    # ---------------------------------------------------------- solver
    def vars_of(self, e):
        i = e.get_id()
        r = self.vars_cache.get(i)
        if r is not None:
            return r[1]
        seen = set()
        out = set()
        stack = [e]
        while stack:
            x = stack.pop()
            xi = x.get_id()
            if xi in seen:
                continue
            seen.add(xi)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(xi)
            else:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(('f', x.decl().get_id()))
                stack.extend(x.children())
        r = frozenset(out)
        self.vars_cache[i] = (e, r)
        return r

    def slice(self, st, e):
        vs = set(self.vars_of(e))
        rest = [(c, self.vars_of(c)) for c in st.pc]
        out = []
        changed = True
        while changed:
            changed = False
            nrest = []
            for c, v in rest:
                if v & vs or not v:
                    out.append(c)
                    if not v <= vs:
                        vs |= v
                        changed = True
                else:
                    nrest.append((c, v))
            rest = nrest
        return out

    def query(self, cons, timeout, want_model=False):
        """Satisfiability of a list of constraints: 'sat' / 'unsat' / 'unknown' (+ model)."""
        from . import solve
        t = time.time()
        self.stats['queries'] += 1
        r, m = solve.check(self, cons, timeout, want_model)
        dt = time.time() - t
        self.stats['solver_s'] += dt
        if SLOW and dt > SLOW:
            print('SLOW %.1f %s' % (dt, r), *cons, sep='\n   ', flush=True)
        return r, m

    def feasible(self, st, cond):
        cons = self.slice(st, cond)
        key = (cond.get_id(), frozenset(c.get_id() for c in cons))
        r = self.qcache.get(key)
        if r is None:
            r, _ = self.query(cons + [cond], self.lim['qtimeout'])
            self.qcache[key] = r
            self.keep.append((cond, cons))
        if r == 'unknown':
            self.stats['unknown'] += 1
        return r != 'unsat'

    def decide(self, st, cond):
        """Truth of a Boolean on this path; forks when both are possible."""
        if cond is UNDEF:
            if self.opts['uninit_branch']:
                raise Violation('memory', 'branch on uninitialised value')
            cond = z3.Bool(self.fresh('undef'))
        if not is_sym(cond):
            return bool(cond)
        if z3.is_bv(cond):
            cond = cond == 1
        elif z3.is_int(cond):
            cond = cond != 0
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = st.known.get(c.get_id())
        if k is not None:
            return k[1]
        r = interval.decide(self, st, c)
        if r is not None:
            self.stats['by_interval'] = self.stats.get('by_interval', 0) + 1
            st.known[c.get_id()] = (c, r)
            return r
        if not self.feasible(st, c):
            st.known[c.get_id()] = (c, False)
            return False
        n = z3.simplify(z3.Not(c))
        if not self.feasible(st, n):
            st.known[c.get_id()] = (c, True)
            return True
        raise Fork([(c, [(c, True), (n, False)]), (n, [(c, False), (n, True)])])

    def is_zero(self, st, b):
        """Whether a real is zero on this path: a product is when a factor is."""
        fs, seen, stack = [], set(), [b]
        while stack:
            x = stack.pop()
            k = x.decl().kind()
            kn = st.known.get(z3.simplify(x == 0).get_id()) if z3.is_app(x) and x.num_args() else None
            if kn is not None:
                if kn[1]:
                    return True
            elif k == z3.Z3_OP_DIV:
                stack.append(x.arg(0))
            elif k == z3.Z3_OP_MUL:
                stack.extend(reversed(x.children()))
            elif k == z3.Z3_OP_UMINUS:
                stack.append(x.arg(0))
            elif z3.is_rational_value(x):
                if x.numerator_as_long() == 0:
                    return True
            elif x.get_id() not in seen:
                seen.add(x.get_id())
                fs.append(x)
        for x in fs:
            if self.decide(st, x == 0):
                return True
        return False

    def concretize(self, st, e, what='value', limit=None):
        """A concrete value for an integer term; forks over all feasible values."""
        if not is_sym(e):
            if e is UNDEF:
                raise Violation('memory', 'use of uninitialised ' + what)
            return e
        s = z3.simplify(e)
        if z3.is_bv_value(s):
            return s.as_long()
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_true(s):
            return 1
        if z3.is_false(s):
            return 0
        k = st.known.get(s.get_id())
        if k is not None:
            return k[1]
        limit = limit or self.lim['enum']
        vals = []
        cons = self.slice(st, s == s if False else (s == z3.BitVec('!dummy', s.size()) if z3.is_bv(s) else (
            s == z3.Int('!dummyi') if z3.is_int(s) else s)))
        excl = []
        while True:
            r, m = self.query(cons + excl, self.lim['qtimeout'], True)
            if r == 'unknown':
                raise Budget('cannot enumerate ' + what)
            if r == 'unsat':
                break
            v = m.eval(s, model_completion=True)
            vals.append(v)
            excl.append(s != v)
            if len(vals) > limit:
                raise TooMany('more than %d feasible values for %s' % (limit, what))
        if not vals:
            raise PathEnd('infeasible')

        def py(v):
            if z3.is_true(v):
                return 1
            if z3.is_false(v):
                return 0
            return v.as_long()
        if len(vals) == 1:
            st.known[s.get_id()] = (s, py(vals[0]))
            return py(vals[0])
        raise Fork([(s == v, [(s, py(v))]) for v in vals])

    def assume(self, st, c):
        if not is_sym(c):
            if not c:
                raise PathEnd('assume')
            return
        if z3.is_bv(c):
            c = c == 1
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd('assume')
        if c.get_id() in st.known:
            if st.known[c.get_id()][1]:
                return
            raise PathEnd('assume')
        if not self.feasible(st, c):
            raise PathEnd('assume')
        self.add_pc(st, c)

    def add_pc(self, st, c):
        st.pc.append(c)
        st.known[c.get_id()] = (c, True)
        if z3.is_not(c):
            st.known[c.arg(0).get_id()] = (c.arg(0), False)

    def fresh(self, p):
        self.ucount += 1
        return '%s!%d' % (p, self.ucount)

    # ---------------------------------------------------------- assertions
    def check_assert(self, st, cond, label):
        """cond must hold on this path. Records a violation otherwise."""
        rec = self.labels.setdefault(label, [0, 0, 0.0])
        rec[0] += 1
        self.stats['asserts'] += 1
        if not is_sym(cond):
            if cond is UNDEF:
                self.report(st, 'assert', label + ' (depends on an uninitialised value)', None)
                return
            if cond:
                self.stats['asserts_trivial'] += 1
                return
            self.report(st, 'assert', label, None)
            return
        if z3.is_bv(cond):
            cond = cond == 1
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.stats['asserts_trivial'] += 1
            return
        n = z3.Not(cond)
        t = time.time()
        part = self.slice(st, n) + [n]
        r, m = self.query(part, self.lim['atimeout'], True)
        rec[2] += time.time() - t
        if r == 'unsat':
            rec[1] += 1
            self.add_pc(st, c)
            return
        if r == 'unknown':
            self.undecided.append(label)
            self.suspect(st, label)
            return
        self.report(st, 'assert', label, n, (part, m))

    def suspect(self, st, label):
        """The solvers gave up on an assertion: offer a model of the path alone,
        around which the replay against the real code may find a real violation."""
        n = self.suspects.get(label, 0)
        if n >= 2 or self.on_violation is None:
            return
        self.suspects[label] = n + 1
        r, m = self.query(list(st.pc), min(self.lim['atimeout'], 10000), True) if st.pc else ('sat', None)
        if r != 'sat':
            return
        self.on_violation({'kind': 'suspect', 'label': label, 'stack': [f.fn.name for f in st.frames][::-1][:8],
                           'inputs': [(a, b, self.model_value(m, e) if m is not None else '0') for a, b, e in st.inputs],
                           'notes': list(st.notes)})

    def report(self, st, kind, label, cond, known=None):
        cons = list(st.pc)
        if cond is not None:
            cons.append(cond)
        if known is not None:
            # the rest of the path condition shares no variable with the solved part
            ids = {c.get_id() for c in known[0]}
            rest = [c for c in cons if c.get_id() not in ids]
            r, m = self.query(rest, self.lim['atimeout'], True) if rest else ('sat', None)
            if r == 'sat':
                vs = set()
                for c in known[0]:
                    vs |= self.vars_of(c)
                m = Joint(self, vs, known[1], m)
        else:
            r, m = self.query(cons, self.lim['atimeout'], True)
        if r == 'unsat':
            return            # the path itself is infeasible
        where = [f.fn.name for f in st.frames]
        v = {'kind': kind, 'label': label, 'stack': where[::-1][:8], 'status': r, 'inputs': [], 'notes': list(st.notes)}
        if r == 'sat':
            for name, sort, e in st.inputs:
                v['inputs'].append((name, sort, self.model_value(m, e)))
        else:
            self.undecided.append(label)
            return
        v['cons'] = cons
        v['sym_inputs'] = list(st.inputs)
        self.violations.append(v)
        if self.on_violation is not None:
            self.on_violation(v)

    def model_value(self, m, e):
        if not is_sym(e):
            return str(e)
        x = m.eval(e, model_completion=True)
        if z3.is_bv_value(x):
            return str(x.as_long())
        if z3.is_int_value(x):
            return str(x.as_long())
        if z3.is_rational_value(x):
            return '%d/%d' % (x.numerator_as_long(), x.denominator_as_long())
        if z3.is_algebraic_value(x):
            a = x.approx(30)
            return '%d/%d' % (a.numerator_as_long(), a.denominator_as_long())
        if z3.is_true(x):
            return '1'
        if z3.is_false(x):
            return '0'
        return str(x)

    # ---------------------------------------------------------- memory
    def wobj(self, st, oid):
        if oid not in st.owned:
            o = st.mem[oid] = st.mem[oid].clone()
            st.owned.add(oid)
            return o
        return st.mem[oid]

    def resolve(self, st, p, n, what, write=False):
        if is_sym(p):
            p = self.concretize(st, p, 'address')
        elif p is UNDEF:
            raise Violation('memory', what + ' through an uninitialised pointer')
        elif isinstance(p, RB):
            raise Violation('memory', what + ' through a non-pointer')
        oid = p >> 32
        o = st.mem.get(oid)
        if o is None:
            raise Violation('memory', 'null or wild pointer ' + what)
        off = (p & 0xffffffff) - BIAS
        if not o.alive:
            raise Violation('memory', what + ' after free (%s)' % o.kind)
        if off < 0 or off + n > o.size:
            raise Violation('memory', 'out-of-bounds %s (%s of %d bytes, offset %d, %d bytes)' % (
                what, o.kind, o.size, off, n))
        if write and o.const:
            raise Violation('memory', 'write to constant')
        return o, off

    def get_byte(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            return c[1]
        for d in range(0, o.maxc):
            c = o.cells.get(off - d)
            if c is not None and c[0] > d:
                return self.byte_of(c[1], c[0], d)
        return o.default

    def byte_of(self, v, n, d):
        if n == 1:
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return (v >> (8 * d)) & 0xff
        if isinstance(v, RB):
            return RByte(v.v, d, n)
        if isinstance(v, (Fraction, float)):
            b = struct.pack('<d' if n == 8 else '<f', float(v))
            if n == 8 and isinstance(v, Fraction) and Fraction(float(v)) != v:
                return RByte(v, d, n)
            return b[d]
        if z3.is_bv(v):
            return z3.Extract(8 * d + 7, 8 * d, v)
        if z3.is_real(v):
            return RByte(v, d, n)
        if z3.is_int(v):
            return z3.Extract(8 * d + 7, 8 * d, z3.Int2BV(v, 8 * n))
        if z3.is_bool(v):
            return bv(v, 8)
        raise Unsupported('byte of %r' % (v,))

    def load(self, st, p, ty):
        k = ty.k
        if k in ('arr', 'vec'):
            es = ty.e.size
            return [self.load(st, self.padd(p, i * es), ty.e) for i in range(ty.n)]
        if k == 'struct':
            return [self.load(st, self.padd(p, oo), f) for f, oo in zip(ty.fields, ty.offs)]
        n = ty.size
        o, off = self.resolve(st, p, n, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
        else:
            v = self.assemble(o, off, n)
        return self.as_type(v, ty)

    def padd(self, p, d):
        if d == 0:
            return p
        if isinstance(p, int):
            return p + d
        return p + z3.BitVecVal(d, 64)

    def assemble(self, o, off, n):
        if n == 1:
            return self.get_byte(o, off)
        bs = [self.get_byte(o, off + i) for i in range(n)]
        if all(isinstance(b, int) for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if any(b is UNDEF for b in bs):
            return UNDEF
        if all(isinstance(b, RByte) for b in bs):
            v = bs[0].v
            if bs[0].w == n and all(b.i == i and (b.v is v or b.v.eq(v)) for i, b in enumerate(bs)):
                return RB(v, 8 * n)
            raise Unsupported('mixed real bytes')
        if any(isinstance(b, RByte) for b in bs):
            raise Unsupported('mixed real bytes')
        return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def as_type(self, v, ty):
        """Reinterpret a raw memory value as a register value of type ty."""
        if v is UNDEF:
            return v
        if ty.k == 'fp':
            if isinstance(v, (Fraction, float)):
                return v
            if isinstance(v, RB):
                return v.v
            if isinstance(v, int):
                if v == 0:
                    return Fraction(0)
                if ty.w == 64:
                    return ratconst(struct.unpack('<d', v.to_bytes(8, 'little'))[0])
                if ty.w == 32:
                    return ratconst(struct.unpack('<f', v.to_bytes(4, 'little'))[0])
                raise Unsupported('fp80 bits')
            if z3.is_real(v):
                return v
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                return z3.If(v.arg(0), toz(self.as_type(self.litval(v.arg(1)), ty)),
                             toz(self.as_type(self.litval(v.arg(2)), ty)))
            raise Unsupported('integer bits as double')
        # integer or pointer
        if isinstance(v, (Fraction, float)):
            f = float(v)
            if isinstance(v, Fraction) and Fraction(f) != v:
                return RB(v, ty.w if ty.k == 'int' else 64)
            n = ty.size
            return int.from_bytes(struct.pack('<d' if n == 8 else '<f', f), 'little')
        if isinstance(v, int):
            if ty.k == 'int' and ty.w < 8:
                return v & ((1 << ty.w) - 1)
            return v
        if isinstance(v, RB):
            return v
        if z3.is_real(v):
            return RB(v, 64)
        if z3.is_bool(v):
            return v if (ty.k == 'int' and ty.w == 1) else bv(v, ty.size * 8)
        if z3.is_bv(v):
            w = ty.w if ty.k == 'int' else 64
            if v.size() > w:
                v = z3.Extract(w - 1, 0, v)
            if w == 1:
                return z3.simplify(v == 1)
            return v
        return v

    def litval(self, e):
        if z3.is_bv_value(e):
            return e.as_long()
        return e

    def store(self, st, p, v, ty):
        k = ty.k
        if k in ('arr', 'vec'):
            es = ty.e.size
            for i in range(ty.n):
                self.store(st, self.padd(p, i * es), v[i], ty.e)
            return
        if k == 'struct':
            for i, (f, oo) in enumerate(zip(ty.fields, ty.offs)):
                self.store(st, self.padd(p, oo), v[i], f)
            return
        n = ty.size
        o, off = self.resolve(st, p, n, 'write', True)
        if o.id not in st.owned:
            o = self.wobj(st, o.id)
        if k == 'int' and ty.w < 8 * n and is_sym(v):
            if z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            elif z3.is_bv(v):
                v = z3.ZeroExt(8 * n - v.size(), v)
        self.put(o, off, n, v)

    def put(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        mc = o.maxc
        if n > 1 or mc > 1:
            for x in range(off - mc + 1, off + n):
                c = cells.get(x)
                if c is not None and x + c[0] > off:
                    cn, cv = c
                    del cells[x]
                    if x < off or x + cn > off + n:
                        for d in range(cn):
                            if x + d < off or x + d >= off + n:
                                cells[x + d] = (1, self.byte_of(cv, cn, d))
        cells[off] = (n, v)
        if n > mc:
            o.maxc = n

    def memcpy(self, st, dst, src, n):
        if n == 0:
            return
        so, soff = self.resolve(st, src, n, 'read')
        do, doff = self.resolve(st, dst, n, 'write', True)
        items = []
        i = 0
        cells = so.cells
        while i < n:
            c = cells.get(soff + i)
            if c is not None and i + c[0] <= n:
                items.append((i, c[0], c[1]))
                i += c[0]
            else:
                items.append((i, 1, self.get_byte(so, soff + i)))
                i += 1
        if do.id not in st.owned:
            do = self.wobj(st, do.id)
        for i, k, v in items:
            self.put(do, doff + i, k, v)

    def memset(self, st, dst, b, n):
        if n == 0:
            return
        o, off = self.resolve(st, dst, n, 'write', True)
        o = self.wobj(st, o.id)
        if isinstance(b, int) and off == 0 and n == o.size and b == 0:
            o.cells = {}
            o.default = 0
            o.maxc = 1
            return
        for i in range(n):
            self.put(o, off + i, 1, b)

    def free(self, st, p, kind):
        if is_sym(p):
            p = self.concretize(st, p, 'pointer')
        if p is UNDEF:
            raise Violation('memory', 'free of an uninitialised pointer')
        if p == 0:
            return
        o = st.mem.get(p >> 32)
        if o is None or (p & 0xffffffff) != BIAS or o.kind not in ('new', 'new[]', 'malloc', 'exc'):
            raise Violation('memory', 'free of a pointer that was not allocated' + (' (%s)' % o.kind if o else ''))
        if not o.alive:
            raise Violation('memory', 'double free')
        if self.opts['alloc_mismatch'] and o.kind != kind and o.kind != 'exc':
            raise Violation('memory', 'allocated with %s, freed as %s' % (o.kind, kind))
        o = self.wobj(st, o.id)
        o.alive = False
        o.cells = {}

    def alloc(self, st, n, kind, default=UNDEF):
        o = self.new_obj(st, n, kind, '', default)
        return self.addr(o)

    def cstring(self, st, p, limit=4096):
        """Bytes of a nul-terminated string as a list (forks on symbolic bytes being nul)."""
        p = self.concretize(st, p, 'pointer')
        out = []
        while True:
            v = self.load(st, p + len(out), irparse.INT(8))
            if v is UNDEF:
                raise Violation('memory', 'string read of uninitialised memory')
            if is_sym(v):
                if self.decide(st, v == 0):
                    return out
            elif v == 0:
                return out
            out.append(v)
            if len(out) > limit:
                raise Budget('string length')

    def pystr(self, st, p):
        bs = self.cstring(st, p)
        return ''.join(chr(b) if isinstance(b, int) else '?' for b in bs)

    # ---------------------------------------------------------- gep
    def gep(self, et, base, idx, tys):
        off = 0
        sym = None
        t = et
        for j, ix in enumerate(idx):
            if j == 0:
                es = et.size
            else:
                if t.k == 'struct':
                    off += t.offs[ix]
                    t = t.fields[ix]
                    continue
                t = t.e
                es = t.size
            if isinstance(ix, int):
                w = tys[j].w
                off += (ix - (1 << w) if ix >> (w - 1) else ix) * es
            else:
                if ix is UNDEF:
                    return UNDEF
                w = tys[j].w
                if z3.is_int(ix):
                    ix = z3.Int2BV(ix, 64)
                elif z3.is_bool(ix):
                    ix = bv(ix, 64)
                elif w < 64:
                    ix = z3.SignExt(64 - w, ix)
                term = ix * z3.BitVecVal(es, 64) if es != 1 else ix
                sym = term if sym is None else sym + term
        if base is UNDEF:
            return UNDEF
        if isinstance(base, int) and sym is None:
            return (base + off) & 0xffffffffffffffff
        r = bv(base, 64)
        if off:
            r = r + z3.BitVecVal(off & (2**64 - 1), 64)
        if sym is not None:
            r = r + sym
        return r

    # ---------------------------------------------------------- control
    def goto(self, st, fr, lab):
        f = fr.fn
        ph = f.phis.get(lab)
        if ph is not None:
            regs = fr.regs
            mv = ph.get(fr.lab)
            if mv is None:
                raise Unsupported('phi from ' + fr.lab)
            if len(mv) == 1:
                regs[mv[0][0]] = regs[mv[0][1]]
            else:
                vals = [regs[s] for _, s in mv]
                for (d, _), v in zip(mv, vals):
                    regs[d] = v
        fr.lab = lab
        fr.code = f.code[lab]
        fr.ip = 0

    def pop_frame(self, st):
        fr = st.frames.pop()
        for oid in fr.allocas:
            o = st.mem.pop(oid, None)
            st.owned.discard(oid)
            # keep a tombstone so that dangling stack pointers are detected
            if o is not None:
                t = TOMB.get(oid)
                if t is None:
                    t = Obj(oid, 0, 'stack')
                    t.alive = False
                st.mem[oid] = t
        return fr

    def do_return(self, st, v):
        self.pop_frame(st)
        if not st.frames:
            raise PathEnd('done')
        fr = st.frames[-1]
        ins = fr.inst
        if ins.resi >= 0:
            fr.regs[ins.resi] = v
        if ins.op == 'invoke':
            self.goto(st, fr, ins.extra['normal'])

    def finish_call(self, st, fr, ins, v):
        if ins.resi >= 0:
            fr.regs[ins.resi] = v
        if ins.op == 'invoke':
            self.goto(st, fr, ins.extra['normal'])

    # exceptions
    def tinfo_name(self, a):
        for n, x in self.gaddr.items():
            if x == a:
                return n
        return None

    def tinfo_bases(self, st, a):
        if not hasattr(self, '_tib'):
            self._tib = {}
        if a in self._tib:
            return self._tib[a]
        name = self.tinfo_name(a)
        out = []
        if name in STD_BASES:
            b = STD_BASES[name]
            if b not in self.gaddr:
                self.ext_global(st, b)
            out = [(self.gaddr[b], 0)]
        else:
            g = self.m.globals.get(name)
            if g is not None and g.init is not None:
                items = g.init.v
                cls = items[0][1]
                cn = self.sym_in(cls)
                if cn == '_ZTVN10__cxxabiv120__si_class_type_infoE':
                    out = [(self.const(items[2][1]), 0)]
                elif cn == '_ZTVN10__cxxabiv121__vmi_class_type_infoE':
                    n = items[3][1].v
                    for i in range(n):
                        b = self.const(items[4 + 2 * i][1])
                        fl = self.const(items[5 + 2 * i][1])
                        out.append((b, sgn(fl, 64) >> 8))
        self._tib[a] = out
        return out

    def sym_in(self, c):
        if c.k == 'g':
            return c.v
        if c.k == 'gep':
            return self.sym_in(c.v[1][0][1])
        return None

    def ext_global(self, st, name):
        if name not in self.gaddr:
            o = Obj(0x70000000 + len(self.gaddr), 64, 'global', name)
            self.gaddr[name] = self.addr(o)
            st.mem[o.id] = o
        return self.gaddr[name]

    def derives(self, st, a, b):
        if a == b:
            return True
        return any(self.derives(st, x, b) for x, _ in self.tinfo_bases(st, a))

    def unwind(self, st, ptr, tinfo):
        st.exc = (ptr, tinfo)
        while st.frames:
            fr = st.frames[-1]
            ins = fr.inst
            if ins is not None and ins.op == 'invoke':
                lab = ins.extra['unwind']
                lp = None
                for x in fr.fn.blocks[lab]:
                    if x.op == 'landingpad':
                        lp = x
                        break
                cleanup, clauses = lp.extra
                sel = None
                for k, v in clauses:
                    if k == 'catch':
                        if v == 0 or self.derives(st, tinfo, v):
                            sel = v
                            break
                    else:
                        raise Unsupported('exception filter')
                if sel is not None or cleanup:
                    self.goto(st, fr, lab)
                    # position on the landingpad, deliver values
                    while fr.code[fr.ip].op != 'landingpad':
                        raise Unsupported('landingpad not first')
                    ins2 = fr.code[fr.ip]
                    fr.ip += 1
                    fr.regs[ins2.resi] = [ptr, 0 if sel is None else self.sel_id(sel)]
                    return
            if len(st.frames) == 1:
                nm = self.tinfo_name(tinfo)
                raise Violation('exception', 'exception escapes: ' + str(nm))
            self.pop_frame(st)

    def sel_id(self, a):
        return 1 if a == 0 else (a >> 32)

    # ---------------------------------------------------------- run
    def run(self, fname, args=()):
        st = self.base.clone()
        st.steps = 0
        self.call_function(st, self.m.funcs[fname], list(args))
        wl = [st]
        while wl:
            s = wl.pop()
            self.run_path(s, wl)
            if self.stats['paths'] > self.lim['paths']:
                raise Budget('paths')
        return self

    def run_path(self, st, wl):
        n = 0
        t_end = min(self.t0 + self.lim['wall'], self.lim.get('deadline', 1e18))
        maxsteps = self.lim['steps']
        fr = None
        while True:
            fr = st.frames[-1]
            ins = fr.code[fr.ip]
            fr.ip += 1
            n += 1
            try:
                ins.fn(self, st, fr, ins)
            except Fork as f:
                fr.ip -= 1
                st.forks += 1
                alts = f.alts
                kids = []
                for j, (c, known) in enumerate(alts):
                    s = st if j == len(alts) - 1 else st.clone()
                    kids.append((s, c, known))
                for s, c, known in kids:
                    s.pc.append(c)
                    s.known[c.get_id()] = (c, True)
                    for e, v in known:
                        s.known[e.get_id()] = (e, v)
                for s, c, known in kids[:-1]:
                    wl.append(s)
                if time.time() > t_end:
                    self.out_of_time(s, n)
            except PathEnd as p:
                self.stats['steps'] += n
                self.stats['longest'] = max(self.stats.get('longest', 0), n)
                if p.why == 'done':
                    self.stats['paths'] += 1
                    self.end_of_path(st)
                else:
                    self.stats['pruned'] += 1
                return
            except Violation as v:
                self.stats['steps'] += n
                self.stats['paths'] += 1
                label = v.label
                own = self.site(st)
                self.report(st, v.kind, '%s in %s' % (label, own), v.cond)
                return
            if n & 4095 == 0:
                st.steps += 4096
                if st.steps > maxsteps:
                    # perhaps a loop without end: the replay tells
                    self.loops += 1
                    if self.loops > 3:
                        raise Budget('steps in one path (%d) in %s' % (maxsteps, self.site(st)))
                    self.stats['steps'] += n
                    self.stats['paths'] += 1
                    self.report(st, 'loop', 'more than %d steps without coming to an end in %s' % (maxsteps, self.site(st)), None)
                    return
                if time.time() > t_end:
                    self.out_of_time(st, n)

    def out_of_time(self, st, n):
        # if the path at hand is long, perhaps it has no end: the replay tells
        if n > 150_000:
            try:
                self.report(st, 'loop', 'more than %d steps without coming to an end in %s' % (n // 100000 * 100000, self.site(st)), None)
            except (Unsupported, Budget):
                pass
        raise Budget('wall clock')

    def site(self, st):
        for f in reversed(st.frames):
            n = f.fn.name
            if not n.startswith(('_ZSt', '_ZNSt', '_ZNKSt', '_ZN9__gnu', '_ZNK9__gnu', '_ZNSa')):
                return n
        return st.frames[-1].fn.name if st.frames else '?'

    def end_of_path(self, st):
        if self.opts['leaks']:
            for o in st.mem.values():
                if o.alive and o.kind in ('new', 'new[]', 'malloc') and not (o.info == 'keep'):
                    self.report(st, 'memory', 'leak of %d bytes' % o.size, None)
                    return


TOMB = {}

# ------------------------------------------------------------------ handlers


@handler('ret')
def h_ret(E, st, fr, ins):
    v = fr.regs[ins.ai[0]] if ins.ai else None
    E.do_return(st, v)


@handler('br')
def h_br(E, st, fr, ins):
    E.goto(st, fr, ins.extra[0])


@handler('condbr')
def h_condbr(E, st, fr, ins):
    c = fr.regs[ins.ai[0]]
    if type(c) is not int and type(c) is not bool:
        c = E.decide(st, c)
    E.goto(st, fr, ins.extra[0] if c else ins.extra[1])


@handler('switch')
def h_switch(E, st, fr, ins):
    v = fr.regs[ins.ai[0]]
    d, cases, tab = ins.extra
    if isinstance(v, int):
        E.goto(st, fr, tab.get(v, d))
        return
    if v is UNDEF:
        raise Violation('memory', 'switch on uninitialised value')
    w = ins.ty.w
    for cv, lab in cases:
        if z3.is_int(v):
            cond = v == iv(cv, w)
        else:
            cond = bv(v, w) == z3.BitVecVal(cv, w)
        if E.decide(st, cond):
            E.goto(st, fr, lab)
            return
    E.goto(st, fr, d)


@handler('unreachable')
def h_unreach(E, st, fr, ins):
    raise Violation('ub', 'unreachable code reached')


@handler('alloca')
def h_alloca(E, st, fr, ins):
    n = ins.ty.size
    if ins.ai:
        n *= E.concretize(st, fr.regs[ins.ai[0]], 'alloca size')
    o = E.new_obj(st, n, 'stack')
    fr.allocas.append(o.id)
    fr.regs[ins.resi] = (o.id << 32) + BIAS


@handler('load')
def h_load(E, st, fr, ins):
    p = fr.regs[ins.ai[0]]
    try:
        fr.regs[ins.resi] = E.load(st, p, ins.ty)
    except TooMany:
        fr.regs[ins.resi] = table_load(E, st, p, ins.ty)


def table_load(E, st, p, ty, limit=1024):
    """A load from a table of known integers at a symbolic index: one conditional expression."""
    if ty.k != 'int' or ty.w > 64:
        raise Budget('too many addresses')
    s = z3.simplify(p)
    cons = E.slice(st, s == z3.BitVec('!dummy', s.size()))
    excl, by = [], {}
    while True:
        r, m = E.query(cons + excl, E.lim['qtimeout'], True)
        if r == 'unknown':
            raise Budget('cannot enumerate address')
        if r == 'unsat':
            break
        v = m.eval(s, model_completion=True)
        try:
            x = E.load(st, v.as_long(), ty)
        except Violation:
            E.add_pc(st, s == v)
            raise
        if not isinstance(x, int):
            raise Budget('too many addresses')
        by.setdefault(x, []).append(v)
        excl.append(s != v)
        if len(excl) > limit:
            raise Budget('too many addresses')
    if not by:
        raise PathEnd('infeasible')
    xs = sorted(by, key=lambda x: -len(by[x]))
    t = bv(xs[0], ty.w)
    for x in xs[1:]:
        t = z3.If(z3.Or([s == v for v in by[x]]), bv(x, ty.w), t)
    return t


@handler('store')
def h_store(E, st, fr, ins):
    E.store(st, fr.regs[ins.ai[1]], fr.regs[ins.ai[0]], ins.ty)


@handler('getelementptr')
def h_gep(E, st, fr, ins):
    r = fr.regs
    a = ins.ai
    fr.regs[ins.resi] = E.gep(ins.ty, r[a[0]], [r[i] for i in a[1:]], ins.extra[1:])


@handler('fence')
def h_fence(E, st, fr, ins):
    pass


@handler('freeze')
def h_freeze(E, st, fr, ins):
    fr.regs[ins.resi] = fr.regs[ins.ai[0]]


@handler('extractvalue')
def h_ev(E, st, fr, ins):
    v = fr.regs[ins.ai[0]]
    for i in ins.extra:
        v = v[i]
    fr.regs[ins.resi] = v


@handler('insertvalue')
def h_iv(E, st, fr, ins):
    v = fr.regs[ins.ai[0]]
    x = fr.regs[ins.ai[1]]
    idx = ins.extra

    def rec(a, k):
        a = list(a)
        if k == len(idx) - 1:
            a[idx[k]] = x
        else:
            a[idx[k]] = rec(a[idx[k]], k + 1)
        return a
    fr.regs[ins.resi] = rec(v, 0)


@handler('extractelement')
def h_ee(E, st, fr, ins):
    fr.regs[ins.resi] = fr.regs[ins.ai[0]][E.concretize(st, fr.regs[ins.ai[1]])]


@handler('insertelement')
def h_ie(E, st, fr, ins):
    v = list(fr.regs[ins.ai[0]])
    v[E.concretize(st, fr.regs[ins.ai[2]])] = fr.regs[ins.ai[1]]
    fr.regs[ins.resi] = v


@handler('landingpad')
def h_lp(E, st, fr, ins):
    raise Unsupported('fallthrough into landingpad')


@handler('resume')
def h_resume(E, st, fr, ins):
    v = fr.regs[ins.ai[0]]
    ptr = v[0]
    ti = st.mem[ptr >> 32].info
    E.pop_frame(st)
    if not st.frames:
        raise Violation('exception', 'exception escapes')
    E.unwind(st, ptr, ti)


@handler('select')
def h_select(E, st, fr, ins):
    c, a, b = (fr.regs[i] for i in ins.ai)
    if isinstance(c, list):
        fr.regs[ins.resi] = [x if E.decide(st, cc) else y for cc, x, y in zip(c, a, b)]
        return
    if not is_sym(c) and c is not UNDEF:
        fr.regs[ins.resi] = a if c else b
        return
    if c is UNDEF:
        fr.regs[ins.resi] = UNDEF
        return
    c = z3.simplify(c == 1 if z3.is_bv(c) else c)
    k = st.known.get(c.get_id())
    if k is not None:
        fr.regs[ins.resi] = a if k[1] else b
        return
    if a is b or (is_sym(a) and is_sym(b) and a.eq(b)):
        fr.regs[ins.resi] = a
        return
    t = ins.ty
    simple = not (is_special(a) or is_special(b) or a is UNDEF or b is UNDEF or isinstance(a, (list, RB)) or
                  isinstance(b, (list, RB)) or t.k == 'ptr')
    if simple:
        if t.k == 'fp':
            if E.opts.get('select_fork', True):
                fr.regs[ins.resi] = a if E.decide(st, c) else b
            else:
                fr.regs[ins.resi] = z3.If(c, toz(a), toz(b))
            return
        if t.w == 1:
            fr.regs[ins.resi] = z3.simplify(z3.If(c, tobool(a), tobool(b)))
            return
        if (is_sym(a) and z3.is_int(a)) or (is_sym(b) and z3.is_int(b)):
            fr.regs[ins.resi] = z3.If(c, iv(a, t.w), iv(b, t.w))
            return
        fr.regs[ins.resi] = z3.If(c, bv(a, t.w), bv(b, t.w))
        return
    fr.regs[ins.resi] = a if E.decide(st, c) else b


def tobool(x):
    if is_sym(x):
        if z3.is_bool(x):
            return x
        if z3.is_bv(x):
            return x == 1
        return x != 0
    return z3.BoolVal(bool(x))


def _mask(w):
    return (1 << w) - 1


def in_range(x, w):
    return z3.And(x >= -(1 << (w - 1)), x < (1 << w))


def int_overflow(E, st, fr, ins, cond_ok, what):
    """An operation that must not overflow."""
    if not E.opts['overflow']:
        return
    if not E.decide(st, cond_ok):
        raise Violation('ub', what)


@handler('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor')
def h_bin(E, st, fr, ins):
    a = fr.regs[ins.ai[0]]
    b = fr.regs[ins.ai[1]]
    fr.regs[ins.resi] = E.binop(st, fr, ins, ins.op, a, b, ins.ty)


def bit01(x):
    """the condition under which a 0/1 word is 1, or None"""
    if z3.is_bv_value(x):
        v = x.as_long()
        return z3.BoolVal(v == 1) if v in (0, 1) else None
    if z3.is_app_of(x, z3.Z3_OP_ITE) and z3.is_bv_value(x.arg(1)) and z3.is_bv_value(x.arg(2)):
        k = (x.arg(1).as_long(), x.arg(2).as_long())
        if k == (1, 0):
            return x.arg(0)
        if k == (0, 1):
            return z3.Not(x.arg(0))
    return None


def binop(E, st, fr, ins, op, a, b, ty):
    if ty.k == 'vec':
        return [E.binop(st, fr, ins, op, x, y, ty.e) for x, y in zip(a, b)]
    w = ty.w
    if isinstance(a, int) and isinstance(b, int):
        m = (1 << w) - 1
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'mul':
            return (a * b) & m
        if op == 'shl':
            return (a << b) & m if b < w else UNDEF
        if op == 'lshr':
            return a >> b if b < w else UNDEF
        if op == 'ashr':
            return (sgn(a, w) >> b) & m if b < w else UNDEF
        if b == 0:
            raise Violation('ub', 'integer division by zero')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = sgn(a, w), sgn(b, w)
        q = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        return (sa - q * sb) & m
    if a is UNDEF or b is UNDEF:
        if op in ('and', 'or') and w > 1 and not (a is UNDEF and b is UNDEF) and not isinstance(a, RB) and not isinstance(b, RB):
            # masking part of an uninitialised word: the other bits are arbitrary, the masked ones are not
            global _anyn
            _anyn += 1
            x = z3.BitVec('!any%d' % _anyn, w)
            a, b = (x if a is UNDEF else a), (x if b is UNDEF else b)
        else:
            return UNDEF
    if isinstance(a, RB) or isinstance(b, RB):
        raise Unsupported('integer arithmetic on the bits of a double')
    fl = ins.extra if isinstance(ins.extra, set) else ()
    if w == 1:
        if op in ('and', 'mul'):
            return z3.simplify(z3.And(tobool(a), tobool(b)))
        if op == 'or':
            return z3.simplify(z3.Or(tobool(a), tobool(b)))
        if op in ('xor', 'add', 'sub'):
            return z3.simplify(z3.Xor(tobool(a), tobool(b)))
        raise Unsupported('i1 ' + op)
    if (is_sym(a) and z3.is_int(a)) or (is_sym(b) and z3.is_int(b)):
        return E.intop(st, op, a, b, w, fl)
    a = bv(a, w)
    b = bv(b, w)
    if op == 'add':
        if 'nsw' in fl and E.opts['overflow']:
            ok = z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
            if not E.decide(st, ok):
                raise Violation('ub', 'signed integer overflow in addition')
        return a + b
    if op == 'sub':
        if 'nsw' in fl and E.opts['overflow']:
            ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
            if not E.decide(st, ok):
                raise Violation('ub', 'signed integer overflow in subtraction')
        return a - b
    if op == 'mul':
        if 'nsw' in fl and E.opts['overflow']:
            ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
            if not E.decide(st, ok):
                raise Violation('ub', 'signed integer overflow in multiplication')
        return a * b
    if op in ('and', 'or', 'xor'):
        x, y = bit01(a), bit01(b)
        if x is not None and y is not None:
            r = z3.simplify({'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y))
            return z3.If(r, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if op == 'and':
        return z3.simplify(a & b)
    if op == 'or':
        return z3.simplify(a | b)
    if op == 'xor':
        return z3.simplify(a ^ b)
    if op == 'shl':
        return a << b
    if op == 'lshr':
        return z3.LShR(a, b)
    if op == 'ashr':
        return a >> b
    if E.decide(st, b == 0):
        raise Violation('ub', 'integer division by zero')
    if op == 'udiv':
        return z3.UDiv(a, b)
    if op == 'urem':
        return z3.URem(a, b)
    if op == 'sdiv':
        return a / b
    return z3.SRem(a, b)


Engine.binop = binop


def intop(E, st, op, a, b, w, fl):
    """Arithmetic on mathematical integers; overflow is decided, never ignored."""
    ca = None if is_sym(a) else a
    cb = None if is_sym(b) else b
    # two values packed in one register (struct returns)
    if op == 'shl' and cb is not None and cb >= 8 and is_sym(a) and E.decide(st, z3.And(a >= 0, a < (1 << (w - cb)))):
        r = z3.simplify(a * (1 << cb))
        E.packs[r.get_id()] = (a, 0, cb)
        E.keep.append(r)
        return r
    if op in ('or', 'add'):
        for x, y in ((a, b), (b, a)):
            pk = E.packs.get(x.get_id()) if is_sym(x) else None
            if pk is None and not is_sym(x) and x and is_sym(y):
                k = (x & -x).bit_length() - 1
                pk = (x >> k, 0, k) if k >= 8 else None
            if pk and isinstance(pk[1], int) and pk[1] == 0:
                if isinstance(y, int):
                    if y >> pk[2]:
                        continue
                elif not E.decide(st, z3.And(iv(y, w) >= 0, iv(y, w) < (1 << pk[2]))):
                    continue
                r = z3.simplify(toint(pk[0]) * (1 << pk[2]) + (z3.IntVal(y) if isinstance(y, int) else iv(y, w)))
                if is_sym(r):
                    E.packs[r.get_id()] = (pk[0], y, pk[2])
                    E.keep.append(r)
                return r
    if is_sym(a) and cb is not None:
        pk = E.packs.get(a.get_id())
        if pk:
            if op == 'lshr' and cb == pk[2]:
                return pk[0]
            if op == 'and' and cb == (1 << pk[2]) - 1:
                return pk[1]
            if op == 'and' and cb == ((1 << w) - 1) ^ ((1 << pk[2]) - 1):
                return E.intop(st, 'shl', pk[0], pk[2], w, fl) if is_sym(pk[0]) else pk[0] << pk[2]
    if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'urem', 'udiv') and cb is not None:
        if op == 'shl':
            return E.intop(st, 'mul', a, 1 << cb, w, fl)
        if op == 'and' and cb & (cb + 1) == 0:
            return iv(a, w) % (cb + 1)
        if op in ('urem', 'udiv', 'lshr'):
            x = iv(a, w)
            if not E.decide(st, x >= 0):
                x = x + (1 << w)
            d = cb if op != 'lshr' else 1 << cb
            if d == 0:
                raise Violation('ub', 'integer division by zero')
            return x % d if op == 'urem' else x / d
        if op == 'ashr':
            return iv(a, w) / (1 << cb)
        if op == 'xor' and cb == (1 << w) - 1:
            return -iv(a, w) - 1
    x = iv(a, w)
    y = iv(b, w)
    if op in ('add', 'sub', 'mul'):
        r = z3.simplify(x + y if op == 'add' else x - y if op == 'sub' else x * y)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1))
        if 'nsw' in fl:
            if not E.decide(st, z3.And(r >= lo, r < hi)):
                raise Violation('ub', 'signed integer overflow')
            return r
        if not E.decide(st, z3.And(r >= lo, r < 2 * hi)):
            raise Unsupported('wrapping arithmetic on a mathematical integer')
        return r
    if op in ('sdiv', 'srem', 'udiv', 'urem'):
        if E.decide(st, y == 0):
            raise Violation('ub', 'integer division by zero')
        if op in ('udiv', 'urem'):
            if not (E.decide(st, x >= 0) and E.decide(st, y > 0)):
                raise Unsupported('unsigned division of negatives')
        xp = E.decide(st, x >= 0)
        yp = E.decide(st, y > 0)
        ax = x if xp else -x
        ay = y if yp else -y
        q = ax / ay
        if xp != yp:
            q = -q
        if op in ('sdiv', 'udiv'):
            return q
        return x - q * y
    raise Unsupported('mathematical integer ' + op)


Engine.intop = intop

ICMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT,
        'uge': z3.UGE, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b,
        'sge': lambda a, b: a >= b}


@handler('icmp')
def h_icmp(E, st, fr, ins):
    a = fr.regs[ins.ai[0]]
    b = fr.regs[ins.ai[1]]
    fr.regs[ins.resi] = E.icmp(st, ins.extra, a, b, ins.ty)


def icmp(E, st, p, a, b, ty):
    if ty.k == 'vec':
        return [E.icmp(st, p, x, y, ty.e) for x, y in zip(a, b)]
    w = ty.w if ty.k == 'int' else 64
    if isinstance(a, int) and isinstance(b, int):
        if p == 'eq':
            return int(a == b)
        if p == 'ne':
            return int(a != b)
        if p[0] == 's':
            a = sgn(a, w)
            b = sgn(b, w)
        q = p[1:]
        if q == 'lt':
            return int(a < b)
        if q == 'le':
            return int(a <= b)
        if q == 'gt':
            return int(a > b)
        return int(a >= b)
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if isinstance(a, RB) or isinstance(b, RB):
        if isinstance(a, RB) and isinstance(b, RB) and p in ('eq', 'ne'):
            r = toz(a.v) == toz(b.v)
            return z3.simplify(r if p == 'eq' else z3.Not(r))
        raise Unsupported('integer comparison of the bits of a double')
    if w == 1 and p in ('eq', 'ne'):
        r = tobool(a) == tobool(b)
        return z3.simplify(r if p == 'eq' else z3.Not(r))
    if (is_sym(a) and z3.is_int(a)) or (is_sym(b) and z3.is_int(b)):
        x = iv(a, w)
        y = iv(b, w)
        if p[0] == 'u':
            if not E.decide(st, x >= 0):
                x = x + (1 << w)
            if not E.decide(st, y >= 0):
                y = y + (1 << w)
            p = 's' + p[1:]
        return z3.simplify(ICMP[p](x, y))
    return z3.simplify(ICMP[p](bv(a, w), bv(b, w)))


Engine.icmp = icmp


@handler('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'fptrunc', 'fpext',
         'fptoui', 'fptosi', 'uitofp', 'sitofp')
def h_cast(E, st, fr, ins):
    fr.regs[ins.resi] = E.cast(st, ins.op, fr.regs[ins.ai[0]], ins.extra, ins.ty)


def cast(E, st, op, v, t, t2):
    if t.k == 'vec':
        if op == 'bitcast':
            raise Unsupported('vector bitcast')
        return [E.cast(st, op, x, t.e, t2.e) for x in v]
    if v is UNDEF:
        return UNDEF
    if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
        return v
    if op == 'bitcast':
        if t.k == 'fp' and t2.k == 'int':
            return E.as_type(v, t2)
        if t.k == 'int' and t2.k == 'fp':
            return E.as_type(v, t2)
        return v
    if op == 'trunc':
        if isinstance(v, int):
            return v & ((1 << t2.w) - 1)
        if isinstance(v, RB):
            raise Unsupported('trunc of double bits')
        if z3.is_int(v):
            if t2.w == 1:
                return z3.simplify(v % 2 == 1)
            pk = E.packs.get(v.get_id())
            if pk and pk[2] == t2.w:
                return pk[1]
            if E.decide(st, in_range(v, t2.w)):
                return v
            # reduce modulo 2^w (unsigned representative)
            return v % (1 << t2.w)
        if t2.w == 1:
            return z3.simplify(z3.Extract(0, 0, v) == 1)
        return z3.simplify(z3.Extract(t2.w - 1, 0, v))
    if op == 'zext':
        if isinstance(v, int):
            return v
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, t2.w), z3.BitVecVal(0, t2.w))
        if z3.is_int(v):
            if E.decide(st, v >= 0):
                return v
            return v + (1 << t.w)
        return z3.ZeroExt(t2.w - t.w, v)
    if op == 'sext':
        if isinstance(v, int):
            return sgn(v, t.w) & ((1 << t2.w) - 1)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal((1 << t2.w) - 1, t2.w), z3.BitVecVal(0, t2.w))
        if z3.is_int(v):
            if E.decide(st, v < (1 << (t.w - 1))):
                return v
            return v - (1 << t.w)
        return z3.SignExt(t2.w - t.w, v)
    if op in ('fptrunc', 'fpext'):
        if isinstance(v, Fraction) and t2.w == 32:
            return Fraction(struct.unpack('<f', struct.pack('<f', float(v)))[0])
        return v
    if op in ('sitofp', 'uitofp'):
        if isinstance(v, int):
            return Fraction(sgn(v, t.w) if op == 'sitofp' else v)
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
        if z3.is_int(v):
            if op == 'uitofp' and not E.decide(st, v >= 0):
                v = v + (1 << t.w)
            return z3.simplify(z3.ToReal(v))
        return z3.ToReal(z3.BV2Int(v, op == 'sitofp'))
    # fptosi / fptoui
    w = t2.w
    if isinstance(v, float):
        raise Violation('ub', 'conversion of inf/nan to an integer')
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if op == 'fptosi' else (0, (1 << w) - 1)
    if isinstance(v, Fraction):
        x = int(v)
        if not lo <= x <= hi:
            raise Violation('ub', 'conversion of an out-of-range double to an integer')
        return x & ((1 << w) - 1)
    if not E.decide(st, z3.And(v > lo - 1, v < hi + 1)):
        raise Violation('ub', 'conversion of an out-of-range double to an integer')
    if E.decide(st, v >= 0):
        return z3.ToInt(v)
    return -z3.ToInt(-v)


Engine.cast = cast


# ---- floating point (reals + specials)
@handler('fneg')
def h_fneg(E, st, fr, ins):
    v = fr.regs[ins.ai[0]]
    if ins.ty.k == 'vec':
        fr.regs[ins.resi] = [x if x is UNDEF else -x for x in v]
    else:
        fr.regs[ins.resi] = v if v is UNDEF else -v


@handler('fadd', 'fsub', 'fmul', 'fdiv', 'frem')
def h_fbin(E, st, fr, ins):
    a = fr.regs[ins.ai[0]]
    b = fr.regs[ins.ai[1]]
    if ins.ty.k == 'vec':
        fr.regs[ins.resi] = [E.fop(st, ins.op, x, y) for x, y in zip(a, b)]
    else:
        fr.regs[ins.resi] = E.fop(st, ins.op, a, b)


def sign_of(E, st, x):
    """-1, 0, 1 of a (possibly symbolic) real on this path"""
    if not is_sym(x):
        return 1 if x > 0 else -1 if x < 0 else 0
    if E.decide(st, x > 0):
        return 1
    if E.decide(st, x == 0):
        return 0
    return -1


BIGBITS = 6000


def fop(E, st, op, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    fa = type(a) is Fraction
    fb = type(b) is Fraction
    if fa and fb:
        if op == 'fadd':
            r = a + b
        elif op == 'fsub':
            r = a - b
        elif op == 'fmul':
            r = a * b
        elif op == 'fdiv':
            if b == 0:
                return NAN if a == 0 else (INF if a > 0 else -INF)
            r = a / b
        else:
            if b == 0:
                return NAN
            q = int(a / b)
            r = a - q * b
        if r.denominator.bit_length() > BIGBITS:
            r = Fraction(float(r))
        return r
    if type(a) is float or type(b) is float:
        # at least one special
        x = a if type(a) is float else float(sign_of(E, st, a))
        y = b if type(b) is float else float(sign_of(E, st, b))
        if x != x or y != y:
            return NAN
        if op == 'fadd':
            if type(a) is float and type(b) is float:
                return x + y
            return a if type(a) is float else b
        if op == 'fsub':
            if type(a) is float and type(b) is float:
                return x - y
            return a if type(a) is float else -b
        if op == 'fmul':
            r = x * y
            return r if (r != r or r in (INF, -INF)) else ratconst(r)
        if op == 'fdiv':
            if type(a) is float and type(b) is float:
                return NAN
            if type(a) is float:
                return a if y >= 0 else -a
            return Fraction(0)
        raise Unsupported('frem special')
    # symbolic
    if op == 'fadd':
        if fa and a == 0:
            return b
        if fb and b == 0:
            return a
        return toz(a) + toz(b)
    if op == 'fsub':
        if fb and b == 0:
            return a
        return toz(a) - toz(b)
    if op == 'fmul':
        if fa:
            if a == 0:
                return Fraction(0)
            if a == 1:
                return b
        if fb:
            if b == 0:
                return Fraction(0)
            if b == 1:
                return a
        return toz(a) * toz(b)
    if op == 'fdiv':
        if fb:
            if b == 0:
                s = sign_of(E, st, a)
                return NAN if s == 0 else (INF if s > 0 else -INF)
            if b == 1:
                return a
            return toz(a) * rv(1 / b)
        if E.is_zero(st, b):
            if E.opts.get('div0') == 'report':
                raise Violation('ub', 'division by zero')
            s = sign_of(E, st, a)
            return NAN if s == 0 else (INF if s > 0 else -INF)
        if fa and a == 0:
            return a
        return toz(a) / b
    raise Unsupported('symbolic frem')


Engine.fop = fop


@handler('fcmp')
def h_fcmp(E, st, fr, ins):
    a = fr.regs[ins.ai[0]]
    b = fr.regs[ins.ai[1]]
    fr.regs[ins.resi] = E.fcmp(st, ins.extra, a, b)


FC = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
      'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def fcmp(E, st, p, a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    nan = (type(a) is float and a != a) or (type(b) is float and b != b)
    if p == 'ord':
        return int(not nan)
    if p == 'uno':
        return int(nan)
    if p == 'true':
        return 1
    if p == 'false':
        return 0
    if nan:
        return int(p[0] == 'u')
    q = p[1:]
    if not is_sym(a) and not is_sym(b):
        return int(FC[q](a, b))
    if type(a) is float:
        return int(FC[q](a, 0.0))
    if type(b) is float:
        return int(FC[q](0.0, b))
    return z3.simplify(FC[q](toz(a), toz(b)))


Engine.fcmp = fcmp


@handler('call', 'invoke')
def h_call(E, st, fr, ins):
    x = ins.extra
    name = x['fname']
    regs = fr.regs
    if name is None:
        p = E.concretize(st, regs[x['ci']], 'function pointer')
        name = E.byaddr.get(p)
        if name is None:
            raise Violation('memory', 'call through a bad function pointer')
    m = E.models.get(name)
    if m is not None:
        fr.inst = ins
        v = m(E, st, [regs[i] for i in ins.ai], ins)
        if v is not NORETURN:
            E.finish_call(st, fr, ins, v)
        return
    f = E.m.funcs.get(name)
    if f is None or not f.is_def:
        if name.startswith('llvm.'):
            from . import models
            m = models.intrinsic(E, name)
            if m is not None:
                E.models[name] = m
                fr.ip -= 1
                return
        raise Unsupported('external function ' + name)
    args = [regs[i] for i in ins.ai]
    va = None
    n = len(f.params)
    if f.vararg:
        va = list(zip(x['tys'][n:], args[n:]))
    for i, a in enumerate(x['attrs']):
        if 'byval' in a:
            t = a['byval']
            q = E.alloc(st, t.size, 'stack')
            E.memcpy(st, q, E.concretize(st, args[i]), t.size)
            args[i] = q
    fr.inst = ins
    E.call_function(st, f, args, va)


NORETURN = object()


@handler('cmpxchg')
def h_cmpxchg(E, st, fr, ins):
    p, c, v = (fr.regs[i] for i in ins.ai)
    p = E.concretize(st, p)
    old = E.load(st, p, ins.ty)
    ok = E.decide(st, E.icmp(st, 'eq', old, c, ins.ty))
    if ok:
        E.store(st, p, v, ins.ty)
    fr.regs[ins.resi] = [old, int(bool(ok))]


@handler('atomicrmw')
def h_armw(E, st, fr, ins):
    p, v = (fr.regs[i] for i in ins.ai)
    old = E.load(st, p, ins.ty)
    op = ins.extra
    if op == 'xchg':
        new = v
    else:
        new = E.binop(st, fr, ins, op, old, v, ins.ty)
    E.store(st, p, new, ins.ty)
    fr.regs[ins.resi] = old
