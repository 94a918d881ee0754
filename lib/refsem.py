"""Reference semantics of circom: constraint generation ('cons') and witness
computation ('wit').  Values are symbolic terms (lib/terms.py); control flow that
depends on them forks through Path.decide.

cons mode: signals are unknowns.  Result: constraint polynomials over signal atoms.
wit  mode: main inputs are symbols.  Result: value of every signal, or a runtime failure."""
import re

LIT_BASE = 9900990099009900990099000000
LIT_COUNT = 10000


class Reject(Exception):
    def __init__(self, code, msg=''):
        Exception.__init__(self, code, msg)
        self.code = code


class RuntimeFail(Exception):
    def __init__(self, code, msg=''):
        Exception.__init__(self, code, msg)
        self.code = code


class Unsupported(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


NQ = ('N', None)


class Cell:
    __slots__ = ('name', 'val', 'set', 'maybe', 'atom')

    def __init__(self, name, atom=None):
        self.name = name
        self.val = None
        self.set = False
        self.maybe = False
        self.atom = atom


class Ops:
    """Field operators as documented in basic-operators.md, on canonical residues."""

    def __init__(self, eng, path):
        self.e = eng
        self.p = path
        self.bits = eng.p.bit_length()

    def istrue(self, a):
        return not self.p.decide(self.e.c_polyzero(self.e.res[a]))

    def b(self, x):
        return self.e.const(1 if x else 0)

    def signed(self, a):
        """integer val(a)"""
        e = self.e
        v = e.val(a)
        half = e.p // 2
        if v is not None:
            return e.const(v - e.p if v >= half + 1 else v)
        if not self.p.decide(e.c_lt(a, e.const(half + 1))):
            return e.sub(a, e.const(e.p))
        return a

    def lt(self, a, b):
        if a == b:
            return False
        return self.p.decide(self.e.c_lt(self.signed(a), self.signed(b)))

    def shl(self, a, k):
        e = self.e
        half = e.p // 2
        if not self.p.decide(e.c_lt(k, e.const(half + 1))):
            return self.shr_small(a, self.p.concretize(e.sub(e.const(e.p), k)))
        return self.shl_small(a, self.p.concretize(k))

    def shr(self, a, k):
        e = self.e
        half = e.p // 2
        if not self.p.decide(e.c_lt(k, e.const(half + 1))):
            return self.shl_small(a, self.p.concretize(e.sub(e.const(e.p), k)))
        return self.shr_small(a, self.p.concretize(k))

    def shl_small(self, a, k):
        e = self.e
        if k >= self.bits:
            # every bit is shifted beyond the mask
            return e.const(0)
        x = e.bitop('and', e.mul(a, e.const(1 << k)), e.const((1 << self.bits) - 1))
        return e.rem(x, e.const(e.p))

    def shr_small(self, a, k):
        e = self.e
        return e.div(a, e.const(1 << min(k, self.bits)))

    def bin(self, op, a, b):
        e = self.e
        if op == '+':
            return e.fadd(a, b)
        if op == '-':
            return e.fsub(a, b)
        if op == '*':
            return e.fmul(a, b)
        if op == '/':
            if not self.istrue(b):
                raise Reject('DIV0')
            return e.fmul(a, e.inv(b))
        if op == '\\':
            if not self.istrue(b):
                raise Reject('DIV0')
            return e.div(a, b)
        if op == '%':
            if not self.istrue(b):
                raise Reject('DIV0')
            return e.rem(a, b)
        if op == '**':
            n = self.p.concretize(b)
            r, x = e.const(1), a
            while n:
                if n & 1:
                    r = e.fmul(r, x)
                n >>= 1
                if n:
                    x = e.fmul(x, x)
            return r
        if op == '<<':
            return self.shl(a, b)
        if op == '>>':
            return self.shr(a, b)
        if op in '&|^' and len(op) == 1:
            return e.rem(e.bitop({'&': 'and', '|': 'or', '^': 'xor'}[op], a, b), e.const(e.p))
        if op == '&&':
            x = self.istrue(a)
            y = self.istrue(b)
            return self.b(x and y)
        if op == '||':
            x = self.istrue(a)
            y = self.istrue(b)
            return self.b(x or y)
        if op == '==':
            return self.b(self.p.decide(e.c_eq(a, b)))
        if op == '!=':
            return self.b(not self.p.decide(e.c_eq(a, b)))
        if op == '<':
            return self.b(self.lt(a, b))
        if op == '>':
            return self.b(self.lt(b, a))
        if op == '<=':
            return self.b(not self.lt(b, a))
        if op == '>=':
            return self.b(not self.lt(a, b))
        raise Unsupported(op)

    def un(self, op, a):
        e = self.e
        if op == '-':
            return e.fsub(e.const(0), a)
        if op == '!':
            return self.b(not self.istrue(a))
        if op == '~':
            return e.rem(e.sub(e.const((1 << self.bits) - 1), a), e.const(e.p))
        raise Unsupported(op)


def shape(v):
    if isinstance(v, list):
        return [len(v)] + (shape(v[0]) if v else [])
    return []


def flat1(v):
    return [c for x in v for c in flat1(x)] if isinstance(v, list) else [v]


def pad(v, dims, zero):
    if not dims:
        return v
    v = list(v) if v is not None else []
    return [pad(v[i] if i < len(v) else None, dims[1:], zero) if len(dims) > 1 or i < len(v) else zero for i in range(dims[0])]


def deepcopy(v):
    return [deepcopy(x) for x in v] if isinstance(v, list) else v


def flat(v):
    if isinstance(v, list):
        out = []
        for x in v:
            out += flat(x)
        return out
    if isinstance(v, dict):
        out = []
        for x in v.values():
            out += flat(x)
        return out
    return [v]


class TagNode:
    """tags of a signal, of a bus or of a bus field"""

    def __init__(self, tags, size, fields=None):
        self.vals = {t: None for t in tags}
        self.declared = set(tags)
        self.valued = set()
        self.size = self.remaining = size
        self.init = False
        self.fields = fields or {}

    def sub(self, name):
        return self.fields.get(name)

    def outer(self):
        """the tags of a component's output seen from outside: the declared ones"""
        w = {t: (self.vals.get(t) if t in self.valued or self.remaining == 0 else None) for t in self.declared}
        return (w, {f: n.outer() for f, n in self.fields.items()})

    def wire(self):
        """what an expression over it carries: ({tag: value or None}, fields)"""
        w = {}
        for t, v in self.vals.items():
            if t in self.valued or self.remaining == 0:
                w[t] = v
            elif t in self.declared:
                w[t] = None
        return (w, {f: n.wire() for f, n in self.fields.items()})

    def assign(self, wire, n, eq):
        """an assignment of n cells by something carrying `wire`"""
        w, wf = wire
        for t in list(self.vals):
            if t in self.declared:
                if t not in self.valued:
                    v = w.get(t)
                    if self.init:
                        if not eq(self.vals[t], v):
                            self.vals[t] = None
                    else:
                        self.vals[t] = v
            elif t not in w or not eq(w[t], self.vals[t]):
                del self.vals[t]
        if not self.init:
            for t, v in w.items():
                self.vals.setdefault(t, v)
        self.remaining = max(0, self.remaining - n)
        self.init = True
        for f, sub in self.fields.items():
            sub.assign(wf.get(f, NOTAGS), sub.size * n // self.size if self.size else 0, eq)

    def untouched(self):
        return (bool(self.declared) and not self.init) or any(f.untouched() for f in self.fields.values())

    def require(self, wire):
        """component inputs: every declared tag must be carried"""
        for t in self.declared:
            if t not in wire[0]:
                raise Reject('TAG_MISSING', t)
        for f, sub in self.fields.items():
            sub.require(wire[1].get(f, NOTAGS))


NOTAGS = ({}, {})


class BusNode(dict):
    bus = None


class Sig:
    """a declared signal or bus (possibly array); tree of Cells; tags"""

    def __init__(self, name, direction, tree, tags, bus=None, ftags=None):
        self.name = name
        self.dir = direction
        self.tree = tree
        self.tags = TagNode(tags, len(flat(tree)), ftags)
        self.bus = bus


class Comp:
    """component variable slot"""

    def __init__(self):
        self.inst = None


class Inst:
    def __init__(self, name, tmpl, params):
        self.name = name
        self.tmpl = tmpl
        self.params = params
        self.sigs = {}
        self.order = []
        self.children = []   # (label, inst)
        self.ran = False
        self.pending_inputs = 0
        self.anon_n = {}


class Interp:
    def __init__(self, prog, eng, path, mode, inputs=None, maxsteps=20000):
        self.P = prog
        self.e = eng
        self.path = path
        self.ops = Ops(eng, path)
        self.mode = mode
        self.inputs = inputs
        self.constraints = []
        self.owner = []         # instance whose body states the constraint
        self.marked = []        # (instance, value) of '_ <== e'
        self.cells = {}
        self.cell_owner = {}
        self.gates = []
        self.steps = 0
        self.maxsteps = maxsteps
        self.depth = 0
        self.insts = []
        self.logs = []

    # ---------- values ----------
    def k(self, n):
        return ('K', self.e.const(n % self.e.p))

    def atom(self, cell):
        if cell.atom is None:
            cell.atom = self.e.sym(('sig', cell.name))
        return cell.atom

    def lit(self, n):
        if LIT_BASE <= n < LIT_BASE + LIT_COUNT:
            return ('K', self.path.e.sym(('lit', n - LIT_BASE), self.lit_hi(n - LIT_BASE)))
        return self.k(n)

    lit_dom = {}

    def lit_hi(self, i):
        return self.lit_dom.get(i, self.e.p - 1)

    def arith(self, op, a, b):
        ka, ta = a
        kb, tb = b
        e = self.e
        if ka == 'N' or kb == 'N':
            return NQ
        if ka == 'K' and kb == 'K':
            return ('K', self.ops.bin(op, ta, tb))
        if op in '+-' and len(op) == 1:
            if ka == 'Q' and kb == 'Q':
                return NQ
            k = 'Q' if 'Q' in (ka, kb) else 'L'
            return (k, e.fadd(ta, tb) if op == '+' else e.fsub(ta, tb))
        if op == '*':
            if 'K' in (ka, kb):
                return (kb if ka == 'K' else ka, e.fmul(ta, tb))
            if ka == 'L' and kb == 'L':
                return ('Q', e.fmul(ta, tb))
            return NQ
        if op == '/' and kb == 'K':
            if not self.ops.istrue(tb):
                raise Reject('DIV0')
            return (ka, e.fmul(ta, e.inv(tb)))
        if op == '**' and kb == 'K' and ka == 'L':
            if self.path.decide(e.c_eq(tb, e.const(2))):
                return ('Q', e.fmul(ta, ta))
            return NQ
        return NQ

    def scalar(self, v):
        if isinstance(v, list):
            raise Reject('TYPE', 'array where a number is expected')
        if isinstance(v, dict):
            raise Reject('TYPE', 'bus where a number is expected')
        return v

    # ---------- expressions ----------
    def tick(self):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('step budget')

    def ev(self, x, env):
        self.tick()
        t = x[0]
        if t == 'num':
            return self.lit(x[1])
        if t == 'bin':
            a = self.scalar(self.ev(x[2], env))
            b = self.scalar(self.ev(x[3], env))
            return self.arith(x[1], a, b)
        if t == 'un':
            k, a = self.scalar(self.ev(x[2], env))
            if k == 'K':
                return ('K', self.ops.un(x[1], a))
            if x[1] == '-' and k != 'N':
                return (k, self.e.fsub(self.e.const(0), a))
            return NQ
        if t == 'tern':
            c = self.scalar(self.ev(x[1], env))
            if c[0] == 'K':
                return self.ev(x[2] if self.ops.istrue(c[1]) else x[3], env)
            self.ev(x[2], env)
            self.ev(x[3], env)
            return NQ
        if t == 'array':
            vs = [self.ev(y, env) for y in x[1]]
            if any(shape(v) != shape(vs[0]) for v in vs):
                if any(len(shape(v)) != len(shape(vs[0])) for v in vs):
                    raise Reject('TYPE', 'inline array of different shapes')
                if self.mode != 'cons' or any(isinstance(c, dict) for v in vs for c in flat1(v)):
                    raise Unsupported('ragged inline array')
                # documented as a warning: the shorter rows are completed with zeros
                dims = [max(ds) for ds in zip(*[shape(v) for v in vs])]
                return [pad(v, dims, ('K', self.ops.e.const(0))) for v in vs]
            return [deepcopy(v) for v in vs]
        if t == 'var':
            return self.read(x, env)
        if t == 'call':
            if x[1] in self.P['functions']:
                return self.call(x[1], [self.ev(a, env) for a in x[2]], env)
            raise Reject('TYPE', 'call')
        if t == 'parallel':
            return self.ev(x[1], env)
        if t == 'anon':
            outs = self.anon(x, env)
            if len(outs) != 1:
                raise Reject('TYPE', 'anonymous component with several outputs in an expression')
            return self.readtree(outs[0].tree, outs[0], 0, True)
        raise Unsupported('expr ' + t)

    def index(self, x, env):
        v = self.scalar(self.ev(x, env))
        if v[0] != 'K':
            return None
        return v[1]

    def pick(self, arr, idx):
        """select arr[idx] with bounds check; idx is a term"""
        if not isinstance(arr, list):
            raise Reject('TYPE', 'indexing a scalar')
        v = self.e.val(idx)
        if v is not None:
            if v >= len(arr):
                raise Reject('OOB')
            return v
        for i in range(len(arr)):
            if self.path.decide(self.e.c_eq(idx, self.e.const(i))):
                return i
        raise Reject('OOB')

    def read(self, x, env):
        name, acc = x[1], x[2]
        obj = env.get(name)
        if obj is None:
            raise Reject('UNDECL', name)
        if obj[0] == 'var':
            v = obj[1]
            for i, a in enumerate(acc):
                if a[0] != 'ix':
                    raise Reject('TYPE')
                idx = self.index(a[1], env)
                if idx is None:
                    rest = v
                    for _ in acc[i:]:
                        if not isinstance(rest, list):
                            raise Reject('TYPE')
                        rest = rest[0]
                    for b in acc[i + 1:]:
                        self.index(b[1], env)
                    return self.fill(rest, NQ)
                v = v[self.pick(v, idx)]
            return deepcopy(v)
        if obj[0] == 'sig':
            s = obj[1]
            node, rest, tag = self.walk(s.tree, s, acc, env)
            if tag is not None:
                return tag
            return self.readtree(node, s, rest)
        if obj[0] == 'comp':
            slot, acc2 = self.comp_slot(obj[1], acc, env)
            if slot is None:
                raise Unsupported('unknown component index')
            inst = slot.inst
            if inst is None:
                raise Reject('UNINIT_COMP')
            if not acc2 or acc2[0][0] != 'fld':
                raise Unsupported('component value')
            s = inst.sigs.get(acc2[0][1])
            if s is None or s.dir == 'inter':
                raise Reject('UNDECL_SIGNAL')
            if s.dir == 'output' and not inst.ran:
                raise Reject('OUTPUT_BEFORE_INPUTS')
            if any(t.dir == 'input' and t.tags.untouched() for t in inst.sigs.values()):
                raise Reject('TAGGED_INPUT_UNASSIGNED')
            node, rest, tag = self.walk(s.tree, s, acc2[1:], env)
            if tag is not None:
                return tag
            return self.readtree(node, s, rest, s.dir == 'output')
        raise Unsupported(obj[0])

    def fill(self, v, w):
        return [self.fill(y, w) for y in v] if isinstance(v, list) else w

    def walk(self, node, sig, acc, env):
        """-> (node, unknown_depth, tagvalue)"""
        tn = sig.tags
        i = 0
        while i < len(acc):
            a = acc[i]
            if a[0] == 'ix':
                idx = self.index(a[1], env)
                if idx is None:
                    if self.mode == 'cons':
                        return node, len(acc) - i, None
                    raise Unsupported('unknown index')
                node = node[self.pick(node, idx)]
            else:
                if isinstance(node, dict) and a[1] in node:
                    node = node[a[1]]
                    tn = tn.sub(a[1])
                elif tn is not None and a[1] in tn.declared and i == len(acc) - 1:
                    v = tn.vals.get(a[1])
                    if v is None or not (a[1] in tn.valued or tn.remaining == 0):
                        raise Reject('TAG_NOVALUE')
                    return node, 0, ('K', v)
                else:
                    raise Reject('TAG_UNKNOWN')
            i += 1
        return node, 0, None

    def readtree(self, node, sig, unknown=0, ext=False):
        if unknown:
            n = node
            for _ in range(unknown):
                n = n[0]
            return self.fill(n, NQ)
        if isinstance(node, list):
            return [self.readtree(y, sig, 0, ext) for y in node]
        if isinstance(node, dict):
            r = BusNode((k, self.readtree(y, sig, 0, ext)) for k, y in node.items())
            r.bus = node.bus
            return r
        c = node
        if not (c.set or c.maybe):
            if not ext:
                raise Reject('UNASSIGNED_READ', c.name)
            if self.mode != 'cons':
                raise Unsupported('the component left its output unassigned')
        if self.mode == 'cons':
            return ('L', self.atom(c))
        return ('K', c.val)

    # ---------- functions ----------
    def call(self, name, args, env):
        f = self.P['functions'][name]
        if len(args) != len(f['params']):
            raise Reject('TYPE', 'arity')
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion depth')
        fe = Env()
        fe.frame = dict(kind='fun', unknown=0, maybe=[], inst=None)
        for n, a in zip(f['params'], args):
            fe.declare(n, ['var', deepcopy(a)])
        try:
            self.st(f['body'], fe)
            r = None
        except ReturnEx as ex:
            r = ex.v
        self.depth -= 1
        mb = fe.frame['maybe']
        if mb:
            # any of them may be the result: as many unknown positions as the largest has
            return self.fill(max([r] * (r is not None) + mb, key=lambda v: len(flat1(v))), NQ)
        if r is None:
            raise Reject('NORETURN')
        return r

    # ---------- statements ----------
    def st(self, s, env):
        self.tick()
        t = s[0]
        if t == 'block':
            env.push()
            try:
                for y in s[1]:
                    self.st(y, env)
            finally:
                env.pop()
        elif t == 'seq':
            for y in s[1]:
                self.st(y, env)
        elif t == 'decl':
            self.decl(s, env)
        elif t == 'zeroinit':
            pass
        elif t == 'assign':
            self.assign(s[1], s[2], s[3], env)
        elif t == 'if':
            c = self.scalar(self.ev(s[1], env))
            if c[0] == 'K':
                if self.ops.istrue(c[1]):
                    self.st(s[2], env)
                elif s[3] is not None:
                    self.st(s[3], env)
            else:
                self.unknown_block(env, [s[2], s[3]])
        elif t == 'while':
            n = 0
            while True:
                c = self.scalar(self.ev(s[1], env))
                if c[0] != 'K':
                    self.unknown_block(env, [s[2]])
                    break
                if not self.ops.istrue(c[1]):
                    break
                env.loops += 1
                self.st(s[2], env)
                env.loops -= 1
                n += 1
                if n > 400:
                    raise Unsupported('loop budget')
        elif t == 'return':
            v = self.ev(s[1], env)
            if env.frame['unknown']:
                env.frame['maybe'].append(v)
            else:
                raise ReturnEx(v)
        elif t == 'ceq':
            a, b = self.ev(s[1], env), self.ev(s[2], env)
            self.constrain_eq(a, b, env)
        elif t == 'assert':
            v = self.scalar(self.ev(s[1], env))
            if v[0] == 'K':
                if env.frame['unknown']:
                    pass
                elif not self.ops.istrue(v[1]):
                    if self.mode == 'wit' and not self.compile_time:
                        raise RuntimeFail('ASSERT')
                    raise Reject('ASSERT')
        elif t == 'log':
            vs = [None if a[0] == 'str' else self.ev(a, env) for a in s[1]]
            self.logs.append(vs)
        elif t == 'anonstmt':
            self.anon(s[1], env)
        else:
            raise Unsupported('stmt ' + t)

    compile_time = False
    maybes = frozenset()

    def unknown_block(self, env, branches):
        env.frame['unknown'] += 1
        before = set(self.maybes)
        after = set(before)
        for b in branches:
            if b is not None:
                # alternatives: each starts from the assignments made before the statement
                for c in self.maybes - before:
                    c.maybe = False
                self.maybes = set(before)
                self.st(b, env)
                after |= self.maybes
        self.maybes = after
        for c in after:
            c.maybe = True
        env.frame['unknown'] -= 1

    def constrain_eq(self, a, b, env):
        if isinstance(a, dict) or isinstance(b, dict):
            if not (isinstance(a, dict) and isinstance(b, dict)) or list(a) != list(b):
                raise Reject('TYPE', 'bus constraint')
            for k in a:
                self.constrain_eq(a[k], b[k], env)
            return
        if isinstance(a, list) or isinstance(b, list):
            if shape(a) != shape(b) or not isinstance(a, list) or not isinstance(b, list):
                raise Reject('TYPE', 'shape mismatch in ===')
            for x, y in zip(a, b):
                self.constrain_eq(x, y, env)
            return
        if self.mode == 'wit':
            if not self.path.decide(self.e.c_eq(a[1], b[1])):
                raise RuntimeFail('CONSTRAINT')
            return
        if env.frame['unknown']:
            raise Reject('UNKNOWN_CONSTRAINT')
        d = self.arith('-', a, b)
        if d[0] == 'N':
            raise Reject('NONQUADRATIC')
        self.constraints.append(d[1])
        self.owner.append(env.frame.get('inst'))

    # ---------- declarations ----------
    def decl(self, s, env):
        _, xt, name, dims = s
        ds = []
        for d in dims:
            v = self.scalar(self.ev(d, env))
            if v[0] != 'K':
                raise Reject('UNKNOWN_DIM')
            ds.append(self.path.concretize(v[1]))
        if xt[0] == 'var':
            env.declare(name, ['var', self.build(ds, lambda: self.k(0))])
            return
        inst = env.frame['inst']
        if env.frame['unknown']:
            raise Reject('UNKNOWN_DECL')
        if xt[0] == 'component':
            env.declare(name, ['comp', dict(name=name, slots=self.build(ds, Comp), dims=len(ds), tmpl=None)])
        elif xt[0] == 'signal':
            self.declsig(inst, env, name, xt[1], ds, xt[2], None)
        elif xt[0] == 'bus':
            args = []
            for a in xt[4]:
                v = self.ev(a, env)
                args.append(v)
            self.declsig(inst, env, name, xt[1], ds, xt[2], (xt[3], args))
        else:
            raise Unsupported(xt[0])

    def build(self, ds, mk):
        if not ds:
            return mk()
        return [self.build(ds[1:], mk) for _ in range(ds[0])]

    def cell(self, name):
        c = Cell(name)
        self.cells[name] = c
        return c

    def bustree(self, name, bus):
        b = self.P['buses'].get(bus[0])
        if b is None or len(b['params']) != len(bus[1]):
            raise Reject('TYPE', 'bus')
        env = Env()
        env.frame = dict(kind='bus', unknown=0, maybe=[], inst=None)
        for n, a in zip(b['params'], bus[1]):
            env.declare(n, ['var', deepcopy(a)])
        out = BusNode()
        out.bus = bus

        def run(s):
            if s[0] in ('block', 'seq'):
                for y in s[1]:
                    run(y)
            elif s[0] == 'decl' and s[1][0] in ('signal', 'bus'):
                ds = []
                for d in s[3]:
                    v = self.scalar(self.ev(d, env))
                    ds.append(self.path.concretize(v[1]))
                inner = None
                if s[1][0] == 'bus':
                    inner = (s[1][3], [self.ev(a, env) for a in s[1][4]])
                out[s[2]] = self.tree(name + '.' + s[2], ds, inner)
            else:
                self.st(s, env)
        run(b['body'])
        return out

    def tree(self, name, ds, bus):
        if ds:
            return [self.tree('%s[%d]' % (name, i), ds[1:], bus) for i in range(ds[0])]
        if bus is None:
            return self.cell(name)
        return self.bustree(name, bus)

    def bustags(self, bus, tree):
        """tag nodes of the fields of a bus; sizes over all the elements of an array"""
        if bus is None:
            return None
        def elems(t):
            return [x for y in t for x in elems(y)] if isinstance(t, list) else [t]
        nodes = elems(tree)
        out = {}

        def run(s):
            if s[0] in ('block', 'seq'):
                for y in s[1]:
                    run(y)
            elif s[0] == 'decl' and s[1][0] in ('signal', 'bus'):
                f = s[2]
                cells = sum(len(flat(n[f])) for n in nodes)
                inner = None
                if s[1][0] == 'bus':
                    inner = self.bustags((s[1][3], None), [n[f] for n in nodes])
                out[f] = TagNode(s[1][2], cells, inner)
        run(self.P['buses'][bus[0]]['body'])
        return out

    def declsig(self, inst, env, name, direction, ds, tags, bus):
        full = inst.name + '.' + name
        s = inst.sigs.get(name)
        if s is None or direction != 'input' or s.tree is None:
            tree = self.tree(full, ds, bus)
            s = Sig(full, direction, tree, tags, bus, self.bustags(bus, tree))
            inst.sigs[name] = s
            inst.order.append(name)
            for c in flat(tree):
                self.cell_owner[c.name] = inst.name
        env.declare(name, ['sig', s])

    # ---------- assignment ----------
    def assign(self, lhs, op, rhs, env):
        if lhs[0] == 'tuple':
            if rhs[0] == 'tuple':
                if len(rhs[1]) != len(lhs[1]):
                    raise Reject('TYPE', 'tuple arity')
                for l, r in zip(lhs[1], rhs[1]):
                    if l[1] == '_':
                        self.mark(op, r, env)
                        continue
                    self.assign(l, op, r, env)
                return
            r = rhs
            if r[0] == 'parallel':
                r = r[1]
            if r[0] == 'anon':
                outs = self.anon(r, env)
                if len(outs) != len(lhs[1]):
                    raise Reject('TYPE', 'tuple arity')
                for l, o in zip(lhs[1], outs):
                    if l[1] == '_':
                        self.marks(op, self.readtree(o.tree, o, 0, True), env)
                        continue
                    self.assign_val(l, op, self.readtree(o.tree, o, 0, True), o.tags.outer(), env)
                return
            raise Reject('TYPE', 'tuple assignment')
        if lhs[0] != 'var':
            raise Reject('TYPE', 'lhs')
        if lhs[1] == '_':
            self.mark(op, rhs, env)
            return
        obj = env.get(lhs[1])
        if obj is None:
            raise Reject('UNDECL', lhs[1])
        if obj[0] == 'comp' and all(a[0] == 'ix' for a in lhs[2]):
            if op != '=':
                raise Reject('TYPE')
            self.instantiate_into(obj[1], lhs, rhs, env)
            return
        tags = None
        r = rhs[1] if rhs[0] == 'parallel' else rhs
        if r[0] == 'anon':
            outs = self.anon(r, env)
            if len(outs) != 1:
                raise Reject('TYPE', 'tuple needed')
            self.assign_val(lhs, op, self.readtree(outs[0].tree, outs[0], 0, True), outs[0].tags.outer(), env)
            return
        v = self.ev(rhs, env)
        tags = self.expr_tags(rhs, env)
        self.assign_val(lhs, op, v, tags, env)

    def mark(self, op, x, env):
        if x[0] == 'anon':
            for o in self.anon(x, env):
                self.marks(op, self.readtree(o.tree, o, 0, True), env)
        else:
            self.marks(op, self.ev(x, env), env)

    def marks(self, op, v, env):
        if op == '<==':
            self.marked.append((env.frame.get('inst'), v))

    def expr_tags(self, x, env):
        if x[0] != 'var':
            return NOTAGS
        obj = env.get(x[1])
        if obj is None:
            return NOTAGS
        if obj[0] == 'sig':
            return self.sigtags(obj[1], x[2])
        if obj[0] == 'comp':
            slot, acc2 = self.comp_slot(obj[1], x[2], env)
            if slot is None or slot.inst is None:
                return NOTAGS
            s = slot.inst.sigs.get(acc2[0][1])
            if s is None:
                return NOTAGS
            tn = self.tagnode(s, acc2[1:])
            return tn.outer() if tn is not None else NOTAGS
        return NOTAGS

    def tagnode(self, s, acc):
        tn = s.tags
        for a in acc:
            if a[0] == 'fld' and tn is not None:
                tn = tn.sub(a[1])
        return tn

    def sigtags(self, s, acc):
        tn = self.tagnode(s, acc)
        return tn.wire() if tn is not None else NOTAGS

    def assign_val(self, lhs, op, v, tags, env):
        name, acc = lhs[1], lhs[2]
        obj = env.get(name)
        if obj is None:
            raise Reject('UNDECL', name)
        if obj[0] == 'var':
            if op != '=':
                raise Reject('TYPE')
            self.assign_var(obj, acc, v, env)
            return
        if obj[0] == 'sig':
            s = obj[1]
            if op == '=':
                self.assign_tag(s, acc, v, env)
                return
            if s.dir == 'input':
                raise Reject('ASSIGN_INPUT')
            node, rest, tag = self.walk(s.tree, s, acc, env)
            if rest:
                raise Reject('UNKNOWN_INDEX_ASSIGN')
            self.store(node, s, op, v, env, tags, None, self.tagnode(s, acc))
            return
        if obj[0] == 'comp':
            if op == '=':
                raise Reject('TYPE')
            slot, acc2 = self.comp_slot(obj[1], acc, env)
            if slot is None:
                raise Reject('UNKNOWN_INDEX_ASSIGN')
            inst = slot.inst
            if inst is None:
                raise Reject('UNINIT_COMP')
            s = inst.sigs.get(acc2[0][1])
            if s is None:
                raise Reject('UNDECL_SIGNAL')
            if s.dir != 'input':
                raise Reject('ASSIGN_NOT_INPUT')
            node, rest, tag = self.walk(s.tree, s, acc2[1:], env)
            if rest:
                raise Reject('UNKNOWN_INDEX_ASSIGN')
            self.store(node, s, op, v, env, tags, inst, self.tagnode(s, acc2[1:]))
            self.maybe_run(inst)
            return
        raise Unsupported(obj[0])

    def assign_tag(self, s, acc, v, env):
        if env.frame['unknown']:
            raise Reject('UNKNOWN_TAG')
        if not acc or acc[-1][0] != 'fld':
            raise Reject('TYPE', 'tag assignment')
        tn = self.tagnode(s, acc[:-1])
        t = acc[-1][1]
        if tn is None or t not in tn.declared:
            raise Reject('TYPE', 'tag assignment')
        if v[0] != 'K':
            raise Reject('TAG_UNKNOWN_VALUE')
        if s.dir == 'input':
            raise Reject('TAG_INPUT')
        if tn.init:
            raise Reject('TAG_AFTER_ASSIGN')
        if t in tn.valued:
            raise Reject('TAG_DOUBLE')
        tn.vals[t] = v[1]
        tn.valued.add(t)

    def assign_var(self, obj, acc, v, env):
        unk = env.frame['unknown'] > 0
        ixs = []
        for a in acc:
            if a[0] != 'ix':
                raise Reject('TYPE')
            ixs.append(self.index(a[1], env))
        if any(i is None for i in ixs):
            # unknown position: the whole array becomes unknown
            obj[1] = self.fill(obj[1], NQ)
            return
        # navigate
        if not ixs:
            obj[1] = self.overlay(obj[1], v, unk)
            return
        node = obj[1]
        path = []
        for n, ix in enumerate(ixs):
            i = self.pick(node, ix)
            path.append((node, i))
            node = node[i]
        parent, i = path[-1]
        parent[i] = self.overlay(node, v, unk)

    def overlay(self, old, v, unk):
        """assignment of an array variable: positions missing on either side are left alone (a warning)"""
        if len(shape(old)) != len(shape(v)):
            raise Reject('TYPE', 'shape')
        if not isinstance(v, list):
            return NQ if unk else deepcopy(v)
        return [self.overlay(old[i], v[i], unk) if i < len(v) else old[i] for i in range(len(old))]

    def store(self, node, s, op, v, env, tags, inst, tn):
        tags = tags or NOTAGS
        if op == '<--' and not isinstance(v, BusNode):
            tags = NOTAGS       # only constrained assignments carry tags
        self.store_rec(node, op, v, env)
        if inst is not None:
            tn.require(tags)
        tn.assign(tags, len(flat(node)), self.eqtag)

    def eqtag(self, a, b):
        if a is None or b is None:
            return a is b
        return a == b or self.path.decide(self.e.c_eq(a, b))

    def samebus(self, a, b):
        if a is None or b is None:
            return a is b
        return a[0] == b[0] and all(self.samevalue(x, y) for x, y in zip(a[1], b[1]))

    def samevalue(self, x, y):
        if isinstance(x, list) or isinstance(y, list):
            return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and \
                all(self.samevalue(a, b) for a, b in zip(x, y))
        return x[0] == 'K' and y[0] == 'K' and self.path.decide(self.e.c_eq(x[1], y[1]))

    def store_rec(self, node, op, v, env):
        if isinstance(node, list):
            if not isinstance(v, list) or len(v) != len(node):
                raise Reject('TYPE', 'shape')
            for n, x in zip(node, v):
                self.store_rec(n, op, x, env)
            return
        if isinstance(node, dict):
            if not isinstance(v, dict) or list(v) != list(node) or not self.samebus(node.bus, v.bus):
                raise Reject('TYPE', 'bus shape')
            for kx in node:
                self.store_rec(node[kx], op, v[kx], env)
            return
        v = self.scalar(v)
        c = node
        unk = env.frame['unknown'] > 0
        if op == '<==' and unk:
            raise Reject('UNKNOWN_CONSTRAINT')
        if c.set or c.maybe:
            raise Reject('DOUBLE_ASSIGN', c.name)
        if unk:
            c.maybe = True
            self.maybes = self.maybes | {c}
            return
        c.set = True
        if self.mode == 'wit':
            c.val = v[1]
            return
        if op == '<==':
            d = self.arith('-', ('L', self.atom(c)), v)
            if d[0] == 'N':
                raise Reject('NONQUADRATIC')
            self.constraints.append(d[1])
            self.owner.append(env.frame.get('inst'))

    # ---------- components ----------
    def comp_slot(self, cv, acc, env):
        node = cv['slots']
        i = 0
        while i < cv['dims']:
            if i >= len(acc) or acc[i][0] != 'ix':
                raise Reject('TYPE', 'component array')
            idx = self.index(acc[i][1], env)
            if idx is None:
                return None, acc[i:]
            node = node[self.pick(node, idx)]
            i += 1
        return node, acc[i:]

    def instantiate_into(self, cv, lhs, rhs, env):
        if env.frame['unknown']:
            raise Reject('UNKNOWN_DECL')
        if rhs[0] == 'parallel':
            rhs = rhs[1]
        if rhs[0] != 'call' or rhs[1] not in self.P['templates']:
            raise Reject('TYPE', 'component expected')
        node = cv['slots']
        suffix = ''
        if len(lhs[2]) != cv['dims']:
            raise Reject('TYPE')
        for a in lhs[2]:
            idx = self.index(a[1], env)
            if idx is None:
                raise Reject('UNKNOWN_INDEX_ASSIGN')
            i = self.pick(node, idx)
            node = node[i]
            suffix += '[%d]' % i
        args = [self.ev(a, env) for a in rhs[2]]
        if node.inst is not None:
            raise Reject('DOUBLE_COMP')
        if cv['tmpl'] is not None and cv['tmpl'] != rhs[1]:
            raise Reject('TYPE', 'template mismatch')
        cv['tmpl'] = rhs[1]
        parent = env.frame['inst']
        node.inst = self.instance(parent, parent.name + '.' + cv['name'] + suffix, rhs[1], args)

    def instance(self, parent, name, tname, args):
        T = self.P['templates'][tname]
        if len(args) != len(T['params']):
            raise Reject('TYPE', 'arity')
        for a in flat(args):
            if a[0] != 'K':
                raise Reject('UNKNOWN_PARAM')
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('depth')
        inst = Inst(name, T, args)
        self.insts.append(inst)
        inst.penv = None
        if parent is not None:
            parent.children.append(inst)
        # declare inputs/outputs up front: run declarations statements at top level
        self.predeclare(inst)
        inst.depth = self.depth
        self.depth -= 1
        self.maybe_run(inst)
        return inst

    def predeclare(self, inst):
        """input/output signals of the template (their sizes may depend on
        parameters and on variables computed before them)"""
        env = Env()
        env.frame = dict(kind='pre', unknown=0, maybe=[], inst=inst)
        for n, a in zip(inst.tmpl['params'], inst.params):
            env.declare(n, ['var', deepcopy(a)])
        inst.pre = True
        for s in inst.tmpl['body'][1]:
            self.pre_st(s, env, inst)
        inst.pre = False

    def pre_st(self, s, env, inst):
        if s[0] == 'seq':
            for y in s[1]:
                self.pre_st(y, env, inst)
            return
        if s[0] == 'decl' and s[1][0] in ('signal', 'bus') and s[1][1] in ('input', 'output'):
            self.decl(s, env)
            return
        if s[0] == 'decl' and s[1][0] == 'var':
            self.decl(s, env)
            return
        if s[0] == 'assign' and s[1][0] == 'var' and s[2] == '=' and env.get(s[1][1]) and env.get(s[1][1])[0] == 'var':
            try:
                self.st(s, env)
            except Reject:
                pass
            return

    def inputs_done(self, inst):
        for n in inst.order:
            s = inst.sigs[n]
            if s.dir == 'input':
                for c in flat(s.tree):
                    if not (c.set or c.maybe):
                        return False
        return True

    def maybe_run(self, inst):
        if inst.ran or not self.inputs_done(inst):
            return
        self.run(inst)

    def run(self, inst):
        inst.ran = True
        env = Env()
        env.frame = dict(kind='tmpl', unknown=0, maybe=[], inst=inst)
        for n, a in zip(inst.tmpl['params'], inst.params):
            env.declare(n, ['var', deepcopy(a)])
        if 'custom' in inst.tmpl['flags']:
            self.gates.append(inst)
        io = {n: inst.sigs[n] for n in inst.order}
        inst.io = io
        inst.body_started = True
        self.body_io = io
        self.depth += 1
        if self.depth > 40:
            raise Unsupported('depth')
        for s in inst.tmpl['body'][1]:
            self.tst(s, env, inst)
        self.depth -= 1
        for sig in inst.sigs.values():
            pass

    def tst(self, s, env, inst):
        """template-level statement: input/output declarations already made"""
        if s[0] == 'seq':
            for y in s[1]:
                self.tst(y, env, inst)
            return
        if s[0] == 'decl' and s[1][0] in ('signal', 'bus') and s[2] in inst.io and \
                inst.io[s[2]].dir in ('input', 'output') and s[1][1] == inst.io[s[2]].dir:
            for d in s[3]:
                self.ev(d, env)
            env.declare(s[2], ['sig', inst.io[s[2]]])
            return
        self.st(s, env)

    def anon(self, x, env):
        _, tname, pargs, ins, n, pos = x
        if tname not in self.P['templates']:
            raise Reject('TYPE', 'anonymous component')
        if env.frame['unknown']:
            raise Reject('UNKNOWN_DECL')
        parent = env.frame['inst']
        args = [self.ev(a, env) for a in pargs]
        cnt = parent.anon_n.get((tname, n), 0)
        parent.anon_n[(tname, n)] = cnt + 1
        # declared names are matched with the implementation's by template, source order and index
        key = '%s.%s~%d' % (parent.name, tname, n)
        name = key + ('[%d]' % cnt if env.loop_depth() else '')
        inst = self.instance(parent, name, tname, args)
        ins_names = [m for m in inst.order if inst.sigs[m].dir == 'input']
        if len(ins) != len(ins_names):
            raise Reject('TYPE', 'anonymous inputs')
        if ins and ins[0][0] is not None:
            d = {m: (op, e) for m, op, e in ins}
            if set(d) != set(ins_names):
                raise Reject('TYPE', 'anonymous input names')
            seq = [(m, d[m][0], d[m][1]) for m in ins_names]
        else:
            seq = [(m, op, e) for m, (_, op, e) in zip(ins_names, ins)]
        for m, op, e in seq:
            if e[0] == 'anon':
                outs = self.anon(e, env)
                if len(outs) != 1:
                    raise Reject('TYPE')
                v, tags = self.readtree(outs[0].tree, outs[0], 0, True), outs[0].tags.outer()
            else:
                v = self.ev(e, env)
                tags = self.expr_tags(e, env)
            s = inst.sigs[m]
            self.store(s.tree, s, op, v, env, tags, inst, s.tags)
            self.maybe_run(inst)
        self.maybe_run(inst)
        return [inst.sigs[m] for m in inst.order if inst.sigs[m].dir == 'output']

    # ---------- top ----------
    def custom_rules(self):
        def walk(x):
            if isinstance(x, (list, tuple)):
                if x and x[0] in ('assign', 'ceq') and isinstance(x, tuple):
                    if x[0] != 'assign' or x[2] in ('<==', '==>'):
                        raise Reject('CUSTOM', 'constraint in a custom template')
                if x and isinstance(x, tuple) and (x[0] == 'component' or (x[0] == 'decl' and 'component' in x)):
                    raise Reject('CUSTOM', 'component in a custom template')
                for y in x:
                    walk(y)
        for t in self.P['templates'].values():
            if 'custom' in t['flags']:
                if not self.P.get('custom', True):
                    raise Reject('CUSTOM', 'pragma missing')
                walk(t['body'])

    def run_main(self):
        self.custom_rules()
        M = self.P['main']
        init = M['init']
        if init[0] == 'parallel':
            init = init[1]
        env = Env()
        env.frame = dict(kind='main', unknown=0, maybe=[], inst=None)
        args = [self.ev(a, env) for a in init[2]]
        if init[1] not in self.P['templates']:
            raise Reject('TYPE')
        T = self.P['templates'][init[1]]
        if len(args) != len(T['params']):
            raise Reject('TYPE')
        inst = Inst('main', T, args)
        self.insts.append(inst)
        self.main = inst
        self.predeclare(inst)
        for n in inst.order:
            s = inst.sigs[n]
            if s.dir == 'input':
                for c in flat(s.tree):
                    c.set = True
                    if self.mode == 'wit':
                        c.val = self.inputs(c.name) if self.inputs else self.e.sym(('sig', c.name))
                if s.tags.declared:
                    raise Reject('TAG_MAIN')
                s.tags.remaining = 0
        for pn in M['public']:
            if pn not in inst.sigs or inst.sigs[pn].dir != 'input':
                raise Reject('TYPE', 'public')
        self.run(inst)
        for i in self.insts:
            if not i.ran:
                raise Reject('MISSING_INPUTS', i.name)
        self.outputs = [c.name for n in inst.order if inst.sigs[n].dir == 'output' for c in flat(inst.sigs[n].tree)]
        self.pub = [c.name for n in inst.order if inst.sigs[n].dir == 'input' and n in M['public']
                    for c in flat(inst.sigs[n].tree)]
        self.priv = [c.name for n in inst.order if inst.sigs[n].dir == 'input' and n not in M['public']
                     for c in flat(inst.sigs[n].tree)]
        return self


class Env:
    def __init__(self):
        self.scopes = [{}]
        self.frame = None
        self.loops = 0

    def loop_depth(self):
        return self.loops

    def push(self):
        self.scopes.append({})

    def pop(self):
        self.scopes.pop()

    def declare(self, n, v):
        self.scopes[-1][n] = v

    def get(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None
