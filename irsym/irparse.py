"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits.

Only the part of the language that clang++ -O0 (+ sroa/simplifycfg) produces
for this code base is supported; anything else raises ParseError, so that an
unsupported construct can never be silently ignored.
"""
import re
import struct
from fractions import Fraction


class ParseError(Exception):
    pass


TOK = re.compile(r'''
    (?P<ws>[ \t\n]+)
  | (?P<comment>;[^\n]*)
  | (?P<cstr>c"[^"]*")
  | (?P<str>"[^"]*")
  | (?P<local>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
  | (?P<attr>\#[0-9]+)
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+|"[^"]*")?)
  | (?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
  | (?P<num>[-+]?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*:?)
  | (?P<punct>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    m = TOK.match
    while pos < n:
        t = m(s, pos)
        if not t:
            raise ParseError("cannot tokenize: %r" % s[pos:pos + 60])
        k = t.lastgroup
        if k not in ('ws', 'comment'):
            out.append((k, t.group()))
        pos = t.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'e', 'fields', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, k, w=0, n=0, e=None, fields=None, packed=False, name=None):
        self.k = k
        self.w = w
        self.n = n
        self.e = e
        self.fields = fields
        self.packed = packed
        self.name = name
        self._size = None
        self._align = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'fp':
            return 'fp%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return self.name or '{%s}' % ','.join(map(repr, self.fields or []))
        return self.k

    @property
    def align(self):
        if self._align is None:
            k = self.k
            if k == 'int':
                b = (self.w + 7) // 8
                a = 1
                while a < b and a < 16:
                    a *= 2
                self._align = a
            elif k == 'fp':
                self._align = {32: 4, 64: 8, 80: 16}[self.w]
            elif k == 'ptr':
                self._align = 8
            elif k in ('arr',):
                self._align = self.e.align
            elif k == 'vec':
                self._align = self.size
            elif k == 'struct':
                self._align = 1 if self.packed else max([f.align for f in self.fields] or [1])
            else:
                raise ParseError('align of ' + k)
        return self._align

    @property
    def size(self):
        if self._size is None:
            k = self.k
            if k == 'int':
                b = (self.w + 7) // 8
                self._size = (b + self.align - 1) // self.align * self.align
            elif k == 'fp':
                self._size = {32: 4, 64: 8, 80: 16}[self.w]
            elif k == 'ptr':
                self._size = 8
            elif k == 'arr':
                self._size = self.n * self.e.size
            elif k == 'vec':
                self._size = self.n * self.e.size
            elif k == 'struct':
                off = 0
                offs = []
                for f in self.fields:
                    if not self.packed:
                        off = (off + f.align - 1) // f.align * f.align
                    offs.append(off)
                    off += f.size
                if not self.packed:
                    off = (off + self.align - 1) // self.align * self.align
                self._offs = offs
                self._size = off
            else:
                raise ParseError('size of ' + k)
        return self._size

    @property
    def offs(self):
        if self._offs is None:
            self.size
        return self._offs


VOID = Ty('void')
PTR = Ty('ptr')
LABEL = Ty('label')
META = Ty('metadata')
_ints = {}


def INT(w):
    t = _ints.get(w)
    if t is None:
        t = _ints[w] = Ty('int', w)
    return t


F32 = Ty('fp', 32)
F64 = Ty('fp', 64)
F80 = Ty('fp', 80)
WORDTYPES = {'void': VOID, 'ptr': PTR, 'label': LABEL, 'metadata': META,
             'float': F32, 'double': F64, 'x86_fp80': F80}

PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'returned', 'writeonly', 'readonly', 'readnone',
               'zeroext', 'signext', 'immarg', 'inreg', 'nest', 'noreturn', 'nounwind', 'align', 'sret', 'byval',
               'dereferenceable', 'dereferenceable_or_null', 'swiftself', 'allocptr', 'allocalign', 'nofpclass',
               'writable', 'dead_on_unwind', 'noext', 'captures', 'initializes', 'elementtype', 'byref',
               'preallocated', 'inalloca', 'nofree', 'range'}


class Const:
    """A constant operand: kind + payload, resolved against the module later."""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v, ty=None):
        self.k = k
        self.v = v
        self.ty = ty


class Local:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Inst:
    __slots__ = ('op', 'res', 'ty', 'a', 'extra', 'line', 'fn', 'resi', 'ai')

    def __init__(self, op, res, ty, a, extra, line):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.extra = extra
        self.line = line


class Func:
    def __init__(self, name, ret, params, vararg):
        self.name = name
        self.ret = ret
        self.params = params      # list of (Ty, name, attrs)
        self.vararg = vararg
        self.blocks = None        # dict label -> [Inst]
        self.entry = None


class Global:
    def __init__(self, name, ty, init, const, external):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const
        self.external = external


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.aliases = {}
        self.ctors = None


def unq(s):
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


def cstr_bytes(t):
    body = t[2:-1]
    out = bytearray()
    i = 0
    while i < len(body):
        ch = body[i]
        if ch == '\\':
            if body[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(body[i + 1:i + 3], 16))
                i += 3
        else:
            out += ch.encode('utf-8')
            i += 1
    return bytes(out)


class P:
    """Token-stream parser."""

    def __init__(self, toks, mod, src=''):
        self.t = toks
        self.i = 0
        self.m = mod
        self.src = src

    def err(self, msg):
        raise ParseError('%s at %r in: %s' % (msg, self.t[self.i:self.i + 6], self.src[:200]))

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            self.err('expected ' + v)

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v in WORDTYPES:
                t = WORDTYPES[v]
            elif v[0] == 'i' and v[1:].isdigit():
                t = INT(int(v[1:]))
            else:
                self.i -= 1
                self.err('type?')
            if v == 'ptr' and self.peek()[1] == 'addrspace':
                self.next()
                self.skip_paren()
        elif k == 'local':
            t = self.m.types.get(v)
            if t is None:
                t = self.m.types[v] = Ty('struct', name=v)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n=n, e=e)
        elif v == '{':
            f = []
            if not self.accept('}'):
                while True:
                    f.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = Ty('struct', fields=f)
        elif v == '<':
            if self.accept('{'):
                f = []
                if not self.accept('}'):
                    while True:
                        f.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = Ty('struct', fields=f, packed=True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', n=n, e=e)
        else:
            self.i -= 1
            self.err('type?')
        # function type "ret (args...)"
        while self.peek()[1] == '(' and t is not None:
            # function type: only appears before callee
            save = self.i
            self.i += 1
            va = False
            ps = []
            ok = True
            try:
                if not self.accept(')'):
                    while True:
                        if self.accept('...'):
                            va = True
                            self.expect(')')
                            break
                        ps.append(self.type())
                        if self.accept(')'):
                            break
                        self.expect(',')
            except ParseError:
                ok = False
            if not ok:
                self.i = save
                break
            t = Ty('func', e=t, fields=ps, packed=va)
        return t

    def attrs(self):
        d = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                if v == 'align':
                    if self.peek()[0] == 'num':
                        self.next()
                    else:
                        self.skip_paren()
                elif v in ('sret', 'byval', 'byref', 'elementtype', 'preallocated', 'inalloca'):
                    self.expect('(')
                    d[v] = self.type()
                    self.expect(')')
                elif self.peek()[1] == '(':
                    self.skip_paren()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            elif k == 'attr':
                self.next()
            else:
                return d

    def fpconst(self, ty, tok):
        k, v = tok
        if k == 'hex':
            if v.startswith('0xK'):
                h = v[3:].zfill(20)
                se = int(h[:4], 16)
                mant = int(h[4:], 16)
                sgn = -1 if se & 0x8000 else 1
                ex = se & 0x7fff
                if ex == 0x7fff:
                    return float('inf') * sgn if (mant << 1) & (2**64 - 1) == 0 else float('nan')
                x = Fraction(mant, 2**63) * (Fraction(2) ** (ex - 16383))
                return float(sgn * x)
            return struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0]
        return float(v)

    def value(self, ty):
        k, v = self.next()
        if k == 'local':
            return Local(unq(v))
        if k == 'glob':
            return Const('g', unq(v), ty)
        if k == 'num' or k == 'hex':
            if ty.k == 'fp':
                return Const('f', self.fpconst(ty, (k, v)), ty)
            return Const('i', int(v) & ((1 << ty.w) - 1), ty)
        if k == 'word':
            if v == 'true':
                return Const('i', 1, ty)
            if v == 'false':
                return Const('i', 0, ty)
            if v == 'null':
                return Const('i', 0, ty)
            if v in ('undef', 'poison'):
                return Const('u', None, ty)
            if v == 'zeroinitializer':
                return Const('z', None, ty)
            if v == 'none':
                return Const('z', None, ty)
            if v == 'getelementptr':
                self.accept('inbounds')
                if self.accept('inrange'):
                    self.skip_paren()
                self.expect('(')
                et = self.type()
                ops = []
                while self.accept(','):
                    self.accept('inrange')
                    if self.peek()[1] == 'inrange':
                        self.next()
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return Const('gep', (et, ops), ty)
            if v in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return Const('cast', (v, t, x, t2), ty)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                self.accept('nuw')
                self.accept('nsw')
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return Const('bin', (v, t, x, y), ty)
            if v == 'icmp':
                p = self.next()[1]
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return Const('icmp', (p, t, x, y), ty)
            if v == 'dso_local_equivalent' or v == 'no_cfi':
                return self.value(ty)
            if v == 'blockaddress':
                self.err('blockaddress')
            if v == 'splat':
                self.err('splat')
        if k == 'cstr':
            return Const('s', cstr_bytes(v), ty)
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                close = '}>'
            items = []
            first = close[0]
            if not self.accept(first):
                while True:
                    t = self.type()
                    items.append((t, self.value(t)))
                    if self.accept(first):
                        break
                    self.expect(',')
            if close == '}>':
                self.expect('>')
            return Const('agg', items, ty)
        if k == 'meta':
            # metadata operand
            if self.peek()[1] in ('{', '('):
                d = 0
                while True:
                    x = self.next()[1]
                    if x in '{(':
                        d += 1
                    elif x in '})':
                        d -= 1
                        if d == 0:
                            break
            return Const('u', None, META)
        self.i -= 1
        self.err('value?')

    def tv(self):
        t = self.type()
        a = self.attrs()
        if t.k == 'metadata':
            # skip anything up to , or )
            d = 0
            while True:
                x = self.peek()[1]
                if d == 0 and x in (',', ')'):
                    break
                if x in '({':
                    d += 1
                if x in ')}':
                    d -= 1
                self.next()
            return t, Const('u', None, META), a
        return t, self.value(t), a


FASTMATH = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FBIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
        'bitcast', 'addrspacecast'}
CCONV = {'fastcc', 'ccc', 'coldcc', 'cc'}
LINKAGE = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
           'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'hidden', 'protected', 'default',
           'dllimport', 'dllexport', 'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


def parse_call(p, op, res, line):
    # after 'call'/'invoke' keyword
    while p.peek()[1] in FASTMATH or p.peek()[1] in CCONV:
        p.next()
    p.attrs()
    ret = p.type()
    fty = None
    if ret.k == 'func':
        fty = ret
        ret = fty.e
    if p.peek()[1] == 'asm':
        p.err('inline asm')
    callee = p.value(PTR)
    p.expect('(')
    args = []
    if not p.accept(')'):
        while True:
            args.append(p.tv())
            if p.accept(')'):
                break
            p.expect(',')
    # function attributes / operand bundles
    while True:
        k, v = p.peek()
        if k == 'attr' or (k == 'word' and v not in ('to', 'unwind')):
            p.next()
            if p.peek()[1] == '(':
                p.skip_paren()
        elif v == '[':
            d = 0
            while True:
                x = p.next()[1]
                if x == '[':
                    d += 1
                elif x == ']':
                    d -= 1
                    if d == 0:
                        break
        else:
            break
    extra = {'callee': callee, 'attrs': [a[2] for a in args], 'tys': [a[0] for a in args], 'fty': fty}
    if op == 'invoke':
        p.expect('to')
        p.type()
        extra['normal'] = unq(p.next()[1])
        p.expect('unwind')
        p.type()
        extra['unwind'] = unq(p.next()[1])
    return Inst(op, res, ret, [a[1] for a in args], extra, line)


MDTAIL = re.compile(r'(, ![-a-zA-Z$._0-9]+ ![0-9]+)+$')


def parse_inst(line, mod):
    if '!' in line:
        line = MDTAIL.sub('', line)
    p = P(tokenize(line), mod, line)
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    if op == 'call' or op == 'invoke':
        return parse_call(p, op, res, line)
    if op in BIN:
        fl = set()
        while p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, t, [a, b], fl, line)
    if op in FBIN or op == 'fneg':
        while p.peek()[1] in FASTMATH:
            p.next()
        t = p.type()
        a = [p.value(t)]
        if op != 'fneg':
            p.expect(',')
            a.append(p.value(t))
        return Inst(op, res, t, a, None, line)
    if op in ('icmp', 'fcmp'):
        while p.peek()[1] in FASTMATH:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Inst(op, res, t, [a, b], pred, line)
    if op in CAST:
        while p.peek()[1] in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, v, _ = p.tv()
        p.expect('to')
        t2 = p.type()
        return Inst(op, res, t2, [v], t, line)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        a = []
        cty = None
        if p.accept(','):
            if p.peek()[1] != 'align':
                cty, v, _ = p.tv()
                a = [v]
        return Inst(op, res, t, a, cty, line)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        _, v, _ = p.tv()
        return Inst(op, res, t, [v], None, line)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        t, v, _ = p.tv()
        p.expect(',')
        _, q, _ = p.tv()
        return Inst(op, None, t, [v, q], None, line)
    if op == 'getelementptr':
        while p.peek()[1] in ('inbounds', 'nusw', 'nuw'):
            p.next()
        et = p.type()
        a = []
        tys = []
        while p.accept(','):
            t, v, _ = p.tv()
            a.append(v)
            tys.append(t)
        return Inst(op, res, et, a, tys, line)
    if op == 'br':
        if p.accept('label'):
            return Inst('br', None, None, [], [unq(p.next()[1])], line)
        t, v, _ = p.tv()
        p.expect(',')
        p.expect('label')
        x = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        y = unq(p.next()[1])
        return Inst('condbr', None, None, [v], [x, y], line)
    if op == 'switch':
        t, v, _ = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct, cv, _ = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((cv.v, unq(p.next()[1])))
        return Inst('switch', None, t, [v], (d, cases), line)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return Inst('ret', None, t, [], None, line)
        return Inst('ret', None, t, [p.value(t)], None, line)
    if op == 'unreachable':
        return Inst('unreachable', None, None, [], None, line)
    if op == 'resume':
        t, v, _ = p.tv()
        return Inst('resume', None, t, [v], None, line)
    if op == 'landingpad':
        t = p.type()
        cleanup = False
        clauses = []
        while p.peek()[0] != 'eof':
            if p.accept('cleanup'):
                cleanup = True
            elif p.accept('catch'):
                ct, cv, _ = p.tv()
                clauses.append(('catch', cv))
            elif p.accept('filter'):
                ct, cv, _ = p.tv()
                clauses.append(('filter', cv))
            else:
                p.err('landingpad')
        return Inst('landingpad', res, t, [], (cleanup, clauses), line)
    if op == 'phi':
        while p.peek()[1] in FASTMATH:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            lab = unq(p.next()[1])
            p.expect(']')
            inc.append((v, lab))
            if not p.accept(','):
                break
        return Inst('phi', res, t, [x[0] for x in inc], [x[1] for x in inc], line)
    if op == 'select':
        while p.peek()[1] in FASTMATH:
            p.next()
        t0, c, _ = p.tv()
        p.expect(',')
        t, a, _ = p.tv()
        p.expect(',')
        _, b, _ = p.tv()
        return Inst('select', res, t, [c, a, b], t0, line)
    if op in ('extractvalue',):
        t, v, _ = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        return Inst(op, res, t, [v], idx, line)
    if op == 'insertvalue':
        t, v, _ = p.tv()
        p.expect(',')
        t2, v2, _ = p.tv()
        idx = []
        while p.accept(','):
            if p.peek()[0] != 'num':
                break
            idx.append(int(p.next()[1]))
        return Inst(op, res, t, [v, v2], idx, line)
    if op == 'freeze':
        t, v, _ = p.tv()
        return Inst('freeze', res, t, [v], None, line)
    if op in ('fence',):
        return Inst('fence', None, None, [], None, line)
    if op == 'atomicrmw':
        p.accept('volatile')
        o = p.next()[1]
        _, q, _ = p.tv()
        p.expect(',')
        t, v, _ = p.tv()
        return Inst('atomicrmw', res, t, [q, v], o, line)
    if op == 'cmpxchg':
        p.accept('weak')
        p.accept('volatile')
        _, q, _ = p.tv()
        p.expect(',')
        t, c, _ = p.tv()
        p.expect(',')
        t, v, _ = p.tv()
        return Inst('cmpxchg', res, t, [q, c, v], None, line)
    if op == 'extractelement':
        t, v, _ = p.tv()
        p.expect(',')
        t2, i, _ = p.tv()
        return Inst(op, res, t, [v, i], None, line)
    if op == 'insertelement':
        t, v, _ = p.tv()
        p.expect(',')
        t2, e, _ = p.tv()
        p.expect(',')
        t3, i, _ = p.tv()
        return Inst(op, res, t, [v, e, i], None, line)
    raise ParseError('unsupported instruction: ' + line)


LBL = re.compile(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):')


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    n = len(lines)
    i = 0
    bodies = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!' or ln.startswith(('source_filename', 'target ', 'attributes', 'module asm')):
            continue
        if ln[0] == '%':
            p = P(tokenize(ln), mod, ln)
            name = p.next()[1]
            p.expect('=')
            p.expect('type')
            t = mod.types.get(name)
            if t is None:
                t = mod.types[name] = Ty('struct', name=name)
            if p.accept('opaque'):
                t.fields = []
            else:
                t2 = p.type()
                t.fields = t2.fields
                t.packed = t2.packed
            continue
        if ln[0] == '$':
            continue
        if ln[0] == '@':
            p = P(tokenize(ln), mod, ln)
            name = unq(p.next()[1])
            p.expect('=')
            external = False
            while p.peek()[0] == 'word' and p.peek()[1] in LINKAGE:
                w = p.next()[1]
                if w in ('external', 'extern_weak'):
                    external = True
                if p.peek()[1] == '(':
                    p.skip_paren()
            if p.peek()[1] == 'alias':
                p.next()
                t = p.type()
                p.expect(',')
                t2, v, _ = p.tv()
                mod.aliases[name] = v
                continue
            while p.peek()[1] == 'addrspace':
                p.next()
                p.skip_paren()
            w = p.next()[1]
            if w not in ('global', 'constant'):
                p.err('global?')
            t = p.type()
            init = None
            if not external:
                init = p.value(t)
            mod.globals[name] = Global(name, t, init, w == 'constant', external)
            continue
        if ln.startswith('declare') or ln.startswith('define'):
            isdef = ln.startswith('define')
            p = P(tokenize(ln), mod, ln)
            p.next()
            while (p.peek()[0] == 'word' and (p.peek()[1] in LINKAGE or p.peek()[1] in CCONV)):
                p.next()
            p.attrs()
            # function return type followed by @name
            ret = p.type()
            k, name = p.next()
            if k != 'glob':
                p.i -= 1
                p.err('function name')
            name = unq(name)
            p.expect('(')
            params = []
            va = False
            if not p.accept(')'):
                while True:
                    if p.accept('...'):
                        va = True
                        p.expect(')')
                        break
                    t = p.type()
                    a = p.attrs()
                    nm = None
                    if p.peek()[0] == 'local':
                        nm = unq(p.next()[1])
                    params.append((t, nm, a))
                    if p.accept(')'):
                        break
                    p.expect(',')
            f = Func(name, ret, params, va)
            if isdef:
                f.is_def = True
                cnt = 0
                for j, (t, nm, a) in enumerate(params):
                    if nm is None:
                        params[j] = (t, str(cnt), a)
                        cnt += 1
                    elif nm.isdigit():
                        cnt = int(nm) + 1
                body = []
                while not lines[i].startswith('}'):
                    body.append(lines[i])
                    i += 1
                i += 1
                f.body = body
                f.firstlabel = str(cnt)
                bodies.append(f)
            else:
                f.is_def = False
            if name not in mod.funcs or isdef:
                mod.funcs[name] = f
            continue
        raise ParseError('top level: ' + ln[:200])
    return mod


def parse_body(f, mod):
    """Parse the body of one function (done lazily)."""
    blocks = {}
    cur = None
    lab = None
    acc = None
    for ln in f.body:
        s = ln.strip()
        if not s or s[0] == ';':
            continue
        if acc is not None:
            acc += ' ' + s
            if acc_switch and s == ']':
                cur.append(parse_inst(acc, mod))
                acc = None
            elif not acc_switch:
                cur.append(parse_inst(acc, mod))
                acc = None
            continue
        if ln[0] not in ' \t':
            m = LBL.match(ln)
            if not m:
                raise ParseError('label: ' + ln)
            lab = m.group(1) or m.group(2)
            cur = blocks[lab] = []
            continue
        if cur is None:
            lab = f.firstlabel
            cur = blocks[lab] = []
            f.entry = lab
        if f.entry is None:
            f.entry = lab
        w = s.split(None, 3)
        if w[0] == 'switch':
            if s.endswith(']'):
                cur.append(parse_inst(s, mod))
            else:
                acc = s
                acc_switch = True
            continue
        if w[0] == 'invoke' or (len(w) > 2 and w[2] == 'invoke'):
            acc = s
            acc_switch = False
            continue
        if len(w) > 2 and w[2] == 'landingpad':
            cur.append(s)
            continue
        if w[0] in ('cleanup', 'catch', 'filter') and isinstance(cur[-1], str):
            cur[-1] += ' ' + s
            continue
        if cur and isinstance(cur[-1], str):
            cur[-1] = parse_inst(cur[-1], mod)
        cur.append(parse_inst(s, mod))
    for b in blocks.values():
        for j, x in enumerate(b):
            if isinstance(x, str):
                b[j] = parse_inst(x, mod)
    if f.entry is None:
        f.entry = next(iter(blocks))
    f.blocks = blocks
    f.body = None
