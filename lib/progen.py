"""Random programs over the whole language.  '@k' are symbolic literals; a generated program is meant to be accepted
for most values, unless one fault is injected (which the reference semantics judges too)."""
import random
from .corpus import Skel

FEATS = ('arr', 'fun', 'ctl', 'inst', 'anon', 'bus', 'tag', 'unk', 'fault', 'sym')
WIT = ('arr', 'fun', 'ctl', 'inst', 'anon', 'bus', 'tag', 'unk', 'wit', 'log')


class Sig:
    def __init__(self, ref, dims, tag=None, bus=None):
        self.ref, self.dims, self.tag, self.bus = ref, dims, tag, bus


class Tpl:
    def __init__(self, name, params, ins, outs, src):
        self.name, self.params, self.ins, self.outs, self.src = name, params, ins, outs, src


class Gen:
    def __init__(self, rng, feats, kinds=None, boost=1.0):
        self.r, self.f = rng, set(feats)
        self.kinds, self.boost = kinds, boost
        self.uid = 0
        self.funs, self.tpls, self.buses = [], [], []
        self.fault_left = 1 if 'fault' in self.f else 0
        self.nsym = 0
        self.cdepth = 0
        self.dyn, self.dvars = False, {}

    # -- helpers
    def new(self, p):
        self.uid += 1
        return '%s%d' % (p, self.uid)

    def ch(self, x):
        return self.r.random() < x

    def fault(self, pr, kind):
        if self.fault_left and (self.kinds is None or kind in self.kinds) and self.ch(pr * self.boost):
            self.fault_left = 0
            return True
        return False

    def dims(self, maxd=2):
        if 'arr' not in self.f or self.ch(.5):
            return ()
        return tuple(self.r.choice([1, 2, 2, 3]) for _ in range(self.r.randrange(1, maxd + 1)))

    # -- compile-time expressions
    def leaf(self):
        r = self.r.random()
        ks = [k for k, d in self.known.items() if not d]
        ka = [(k, d) for k, d in self.known.items() if d]
        if ka and r < .3:
            k, d = self.r.choice(ka)
            return k + ''.join('[%s]' % self.idx(n) for n in d)
        if ks and r < .75:
            return self.r.choice(ks)
        return str(self.r.choice([0, 1, 1, 2, 2, 3, 4, 5, 7, 11, 16, 17, 19]))

    def num(self, d=2):
        r = self.r.random()
        if d <= 0 or r < .25:
            return self.leaf()
        if r < .6:
            return '(%s %s %s)' % (self.num(d - 1), self.r.choice('+-*'), self.num(d - 1))
        if r < .66:
            return '(%s %s %s)' % (self.num(d - 1), self.r.choice(['\\', '%', '/']), self.r.choice(['2', '3', '5', '7']))
        if r < .71:
            return '(%s %s %s)' % (self.num(d - 1), self.r.choice(['<<', '>>']), self.r.choice(['1', '2', '3']))
        if r < .76:
            return '(%s %s %s)' % (self.num(d - 1), self.r.choice('&|^'), self.num(d - 1))
        if r < .82:
            return '(%s)' % self.cond(d - 1)
        if r < .86:
            return '(%s ? %s : %s)' % (self.cond(d - 1), self.num(d - 1), self.num(d - 1))
        if r < .9:
            return '(%s%s)' % (self.r.choice('-~!'), self.num(d - 1))
        if r < .92:
            return '(%s ** %s)' % (self.num(d - 1), self.r.choice(['2', '3', '0']))
        if self.funs and self.cdepth < 2:
            return self.call(d - 1)
        return self.leaf()

    def cond(self, d=1):
        r = self.r.random()
        if r < .75 or d <= 0:
            return '%s %s %s' % (self.num(d - 1 if d > 0 else 0), self.r.choice(['<', '<=', '>', '>=', '==', '!=']),
                                 self.num(max(d - 1, 0)))
        if r < .9:
            return '(%s) %s (%s)' % (self.cond(d - 1), self.r.choice(['&&', '||']), self.cond(d - 1))
        return '!(%s)' % self.cond(d - 1)

    def idx(self, n):
        if self.fault(.02, 'idx'):
            return self.r.choice([str(n), str(n + 1), '-1', self.leaf_flat()])
        r = self.r.random()
        lv = [k for k, b in self.loops if b <= n]
        if lv and r < .55:
            return self.r.choice(lv)
        if r < .85:
            return str(self.r.randrange(n))
        if lv and r < .92:
            k = self.r.choice(self.loops)
            if k[1] <= n:
                return '%d - %s' % (k[1] - 1, k[0])
        ks = [k for k, d in self.known.items() if not d]
        if ks and self.symidx < 2:
            self.symidx += 1
            return '(%s) %% %d' % (self.r.choice(ks), n)
        return str(self.r.randrange(n))

    def leaf_flat(self):
        ks = [k for k, d in self.known.items() if not d]
        return self.r.choice(ks) if ks else '0'

    def arrlit(self, dims):
        if dims and self.fault(.03, 'shape'):
            k = self.r.randrange(len(dims))
            dims = dims[:k] + (dims[k] + self.r.choice([-1, 1]),) + dims[k + 1:]
            if not all(dims):
                dims = (1,)
        if not dims:
            return self.num(1)
        return '[%s]' % ','.join(self.arrlit(dims[1:]) for _ in range(dims[0]))

    def arrexpr(self, dims, depth=1):
        """an array valued compile-time expression of these dimensions"""
        c = []
        for k, d in self.known.items():
            for j in range(len(d)):
                if d[j:] == dims:
                    c.append(k + ''.join('[%s]' % self.idx(n) for n in d[:j]))
        for f in self.funs:
            if f[2] == dims and depth and self.cdepth < 2:
                c += [self.callof(f, 1, depth - 1)] * 2
        if c and self.ch(.6):
            return self.r.choice(c)
        return self.arrlit(dims)

    def callof(self, f, d, depth=1):
        self.cdepth += 1
        s = '%s(%s)' % (f[0], ', '.join(self.arrexpr(a, depth) if a else self.num(d) for a in f[1]))
        self.cdepth -= 1
        return s

    def call(self, d):
        fs = [f for f in self.funs if not f[2]]
        if not fs:
            return self.leaf()
        return self.callof(self.r.choice(fs), max(d, 0), 0)

    # -- functions
    def function(self):
        name = self.new('f')
        params = [(self.new('p'), self.dims(2) if self.ch(.4) else ()) for _ in range(self.r.randrange(1, 4))]
        ret = self.dims(2) if self.ch(.35) else ()
        self.known = {k: d for k, d in params}
        self.loops, self.symidx = [], 0
        body = []
        rec = not ret and not any(d for _, d in params) and self.ch(.2)
        if rec:
            a = params[0][0]
            body.append('if (%s %% 4 == 0) { return %s; }' % (a, self.num(1)))
            body.append('return %s + %s(%s);' % (self.num(1), name,
                                                 ', '.join(['(%s %% 4) - 1' % a] + [self.num(1) for _ in params[1:]])))
        else:
            v = self.new('v')
            body.append('var %s%s%s;' % (v, ''.join('[%d]' % n for n in ret), '' if ret else ' = ' + self.num(1)))
            self.known[v] = ret
            for _ in range(self.r.randrange(1, 4)):
                body.append(self.varstmt(2, ret=(v, ret)))
            body.append('return %s;' % v)
        self.funs.append((name, [d for _, d in params], ret))
        return 'function %s(%s) { %s }' % (name, ', '.join(k for k, _ in params), ' '.join(body))

    def assignable(self):
        return [(k, d) for k, d in self.known.items() if k[0] == ('d' if self.dyn else 'v')]

    def varstmt(self, d, ret=None):
        """a statement on compile-time variables"""
        r = self.r.random()
        av = self.assignable()
        if r < .2 or not av:
            v, dm = self.new('d' if self.dyn else 'v'), self.dims(2)
            s = 'var %s%s%s;' % (v, ''.join('[%d]' % n for n in dm),
                                 ' = ' + (self.arrexpr(dm) if dm else self.num(2)) if self.ch(.8) else '')
            self.known[v] = dm
            return s
        v, dm = self.r.choice(av)
        if r < .62 or d == 0:
            if dm and self.ch(.25):
                j = self.r.randrange(len(dm))
                return '%s%s = %s;' % (v, ''.join('[%s]' % self.idx(n) for n in dm[:j]), self.arrexpr(dm[j:]))
            acc = ''.join('[%s]' % self.idx(n) for n in dm)
            op = self.r.choice(['=', '=', '=', '+=', '-=', '*=', '&=', '|=', '^=', '<<=', '>>=', '\\=', '%=', '**=', '++', '--'])
            if op in ('++', '--'):
                return '%s%s%s;' % (v, acc, op)
            rhs = self.num(2)
            if op in ('<<=', '>>=', '**='):
                rhs = self.r.choice(['1', '2'])
            if op in ('\\=', '%='):
                rhs = self.r.choice(['2', '3', '5'])
            return '%s%s %s %s;' % (v, acc, op, rhs)
        if r < .8:
            save = dict(self.known)
            a = ' '.join(self.varstmt(d - 1) for _ in range(self.r.randrange(1, 3)))
            if ret and self.ch(.15):
                a += ' return %s;' % ret[0]
            self.known = dict(save)
            b = ' else { %s }' % ' '.join(self.varstmt(d - 1) for _ in range(self.r.randrange(1, 3))) if self.ch(.5) else ''
            self.known = save
            return 'if (%s) { %s }%s' % (self.cond(1), a, b)
        i, n = self.new('i'), self.r.randrange(1, 4)
        save = dict(self.known)
        self.loops.append((i, n))
        self.known[i] = ()
        inner = ' '.join(self.varstmt(d - 1) for _ in range(self.r.randrange(1, 3)))
        self.loops.pop()
        self.known = save
        if self.dyn and self.ch(.4):
            return 'var %s = 0; while (%s < %s %% %d) { %s %s += 1; }' % (i, i, self.leaf(), n + 1, inner, i)
        if self.ch(.7):
            return 'for (var %s = 0; %s < %d; %s++) { %s }' % (i, i, n, i, inner)
        return 'var %s = 0; while (%s < %d) { %s %s += 1; }' % (i, i, n, inner, i)

    # -- signal expressions
    def sig(self):
        c = [s for s in self.avail if not s.bus]
        if not c:
            return '1'
        s = self.r.choice(c[-6:] if self.ch(.6) else c)
        return s.ref + ''.join('[%s]' % self.idx(n) for n in s.dims)

    def lin(self, d=2):
        r = self.r.random()
        if d == 0 or r < .35:
            return self.sig()
        if r < .55:
            return '%s*%s' % (self.num(1), self.sig())
        if r < .6:
            return '(-%s)' % self.sig()
        if r < .85:
            return '(%s %s %s)' % (self.lin(d - 1), self.r.choice('+-'), self.lin(d - 1))
        return '(%s + %s)' % (self.lin(d - 1), self.num(1))

    def quad(self):
        if self.fault(.02, 'quad'):
            return '%s*%s*%s' % (self.sig(), self.sig(), self.lin(0))
        r = self.r.random()
        if r < .35:
            return self.lin(2)
        if r < .7:
            return '%s*%s' % (self.lin(1), self.lin(1))
        if r < .85:
            return '%s*%s + %s' % (self.lin(1), self.lin(0), self.lin(1))
        return '%s*(%s*%s)' % (self.leaf(), self.sig(), self.sig())

    def decl(self, s, kind):
        t = ' {%s}' % s.tag if s.tag else ''
        if s.bus:
            return '%s %s%s%s;' % (s.bus[0], kind + t, ' ' + s.ref, ''.join('[%d]' % n for n in s.dims))
        return 'signal %s%s %s%s;' % (kind, t, s.ref, ''.join('[%d]' % n for n in s.dims))

    def assign_all(self, s, out):
        """statements that assign every element of a pending signal once"""
        if self.fault(.03, 'asg'):
            return
        n = 1
        for x in s.dims:
            n *= x
        same = [a for a in self.avail if a.dims == s.dims and not a.bus]
        if s.dims and self.fault(.1, 'shape'):
            same = [a for a in self.avail if a.dims and not a.bus] or same
        if s.dims and same and self.ch(.3):
            out.append('%s <== %s;' % (s.ref, self.r.choice(same).ref))
        elif s.dims and self.ch(.6):
            vs = [(self.new('i'), x) for x in s.dims]
            for v, x in vs:
                self.known[v] = ()
                self.loops.append((v, x))
            acc = s.ref + ''.join('[%s]' % v for v, _ in vs)
            pre = ''
            if self.ch(.3):
                pre = 'if (%s) { %s <== %s; } else { %s <== %s; }' % (self.cond(1), acc, self.quad(), acc, self.quad())
            else:
                pre = self.one(acc)
            for v, x in reversed(vs):
                pre = 'for (var %s = 0; %s < %d; %s++) { %s }' % (v, v, x, v, pre)
            for v, x in vs:
                self.known.pop(v)
                self.loops.pop()
            out.append(pre)
        else:
            import itertools
            cells = list(itertools.product(*[range(x) for x in s.dims]))
            if self.ch(.3):
                self.r.shuffle(cells)
            if self.fault(.05, 'asg'):
                cells = cells[1:] if self.ch(.5) else cells + [self.r.choice(cells)]
            for c in cells:
                out.append(self.one(s.ref + ''.join('[%d]' % i for i in c)))

    def one(self, ref):
        r = self.r.random()
        if r < .6:
            return '%s <== %s;' % (ref, self.quad())
        if r < .75:
            return '%s ==> %s;' % (self.quad(), ref)
        if r < .9:
            e = self.lin(1)
            return '%s <-- %s; %s === %s;' % (ref, self.unk(), ref, e) if self.ch(.4) else '%s <-- %s; %s === %s;' % (ref, e, e, ref)
        return '%s <-- %s;' % (ref, self.unk())

    def unk(self):
        return self.r.choice([self.sig(), '%s*%s*%s' % (self.sig(), self.sig(), self.sig()), '%s > 3 ? 1 : 2' % self.sig(),
                              '(%s >> 1) & 1' % self.sig(), '%s / 3' % self.sig()])

    def nest(self, ref, d, both=True):
        """one assignment on every branch of a tree of conditions (some unknown)"""
        if d == 0 or self.ch(.3):
            return '%s <-- %s;' % (ref, self.lin(1))
        c = self.cond(0) if self.ch(.25) else '%s %s %s' % (self.sig(), self.r.choice(['==', '>', '!=']), self.num(1))
        a = self.nest(ref, d - 1)
        if self.fault(.05, 'asg'):
            a += ' ' + self.nest(ref, d - 1)
        if not both:
            return 'if (%s) { %s }' % (c, a)
        b = self.nest(ref, d - 1)
        if self.ch(.5):
            a, b = b, a
        return 'if (%s) { %s } else { %s }' % (c, a, b) if self.ch(.7) or not b.startswith('if') else 'if (%s) { %s } else %s' % (c, a, b)

    def dynamic(self, out):
        """witness-only code: variables, control flow and indices that depend on signals"""
        keep = self.known
        self.dyn = True
        self.known = {k: d for k, d in keep.items() if '.' not in k}
        for s in self.avail:
            if not s.bus and s.ref not in self.known and self.ch(.7):
                self.known[s.ref] = s.dims
        self.known.update(self.dvars)
        for _ in range(self.r.randrange(1, 4)):
            self.symidx = 0
            out.append(self.varstmt(2))
            if 'log' in self.f and self.ch(.2):
                out.append('log("x", %s);' % self.num(1))
        if self.ch(.25):
            out.append('assert(%s);' % self.cond(1))
        new = []
        for _ in range(self.r.randrange(1, 3)):
            s = Sig(self.new('s'), self.dims(2))
            self.decls.append(self.decl(s, ''))
            self.symidx = 0
            if s.dims and self.ch(.5):
                out.append('%s <-- %s;' % (s.ref, self.arrexpr(s.dims)))
            else:
                import itertools
                for c in itertools.product(*[range(x) for x in s.dims]):
                    self.symidx = 0
                    out.append('%s%s <-- %s;' % (s.ref, ''.join('[%d]' % i for i in c), self.num(2)))
            new.append(s)
        self.dvars = {k: d for k, d in self.known.items() if k[0] == 'd'}
        self.dyn = False
        self.known = keep
        self.avail += new

    # -- instances
    def inst(self, out):
        t = self.r.choice(self.tpls)
        args = ', '.join(self.arrexpr(d) if d else self.num(1) for d in t.params)
        if 'anon' in self.f and self.ch(.55 if not self.loops else 0):
            ins = []
            for s in t.ins:
                ins.append(self.actual(s, out))
            if any(x is None for x in ins):
                return
            if t.ins and self.ch(.3):
                nm = list(zip([s.ref for s in t.ins], ins))
                self.r.shuffle(nm)
                call = '%s%s(%s)(%s)' % (self.par(), t.name, args, ', '.join('%s <== %s' % x for x in nm))
            else:
                call = '%s%s(%s)(%s)' % (self.par(), t.name, args, ', '.join(ins))
            dst = []
            if not t.outs:
                out.append('%s;' % call)
                return
            for s in t.outs:
                if self.ch(.15):
                    dst.append('_')
                    continue
                d = Sig(self.new('s'), s.dims, None, s.bus)
                self.decls.append(self.decl(d, ''))
                dst.append(d.ref)
                self.avail_later.append(d)
            if len(dst) == 1:
                out.append('%s <== %s;' % (dst[0], call))
            else:
                out.append('(%s) <== %s;' % (', '.join(dst), call))
            self.avail += self.avail_later
            self.avail_later = []
            return
        c = self.new('c')
        n = self.r.choice([0, 0, 0, 2, 3]) if 'arr' in self.f else 0
        if not n:
            if self.ch(.5):
                out.append('component %s = %s%s(%s);' % (c, self.par(), t.name, args))
            else:
                self.decls.append('component %s;' % c)
                out.append('%s = %s%s(%s);' % (c, self.par(), t.name, args))
            self.inputs(c, t, out)
            for s in t.outs:
                self.avail.append(Sig('%s.%s' % (c, s.ref), s.dims, s.tag, s.bus))
            return
        self.decls.append('component %s[%d];' % (c, n))
        if self.ch(.6):
            i = self.new('i')
            self.loops.append((i, n))
            self.known[i] = ()
            args = ', '.join(self.arrexpr(d) if d else self.num(1) for d in t.params)
            b = ['%s[%s] = %s%s(%s);' % (c, i, self.par(), t.name, args)]
            self.inputs('%s[%s]' % (c, i), t, b)
            self.loops.pop()
            self.known.pop(i)
            out.append('for (var %s = 0; %s < %d; %s++) { %s }' % (i, i, n, i, ' '.join(b)))
        else:
            order = list(range(n))
            self.r.shuffle(order)
            for i in order:
                t2 = t
                args = ', '.join(self.arrexpr(d) if d else self.num(1) for d in t.params)
                out.append('%s[%d] = %s%s(%s);' % (c, i, self.par(), t2.name, args))
            for i in order:
                self.inputs('%s[%d]' % (c, i), t, out)
        for i in range(n):
            for s in t.outs:
                self.avail.append(Sig('%s[%d].%s' % (c, i, s.ref), s.dims, s.tag, s.bus))

    def par(self):
        return 'parallel ' if 'par' in self.f and self.ch(.4) else ''

    def actual(self, s, out):
        """an expression to pass for input s of an anonymous component"""
        if s.bus:
            c = [a for a in self.avail if a.bus == s.bus and a.dims == s.dims]
            return self.r.choice(c).ref if c else None
        if s.tag:
            t = self.tagged(s, out)
            return t
        c = []
        for a in self.avail:
            if a.bus:
                continue
            for j in range(len(a.dims) + 1):
                if a.dims[j:] == s.dims:
                    c.append(a.ref + ''.join('[%d]' % self.r.randrange(n) for n in a.dims[:j]))
        if s.dims:
            if c and self.ch(.7):
                return self.r.choice(c)
            return self.lits(s.dims)
        return self.quad() if self.ch(.6) or not c else self.r.choice(c)

    def lits(self, dims):
        if not dims:
            return self.lin(1)
        return '[%s]' % ','.join(self.lits(dims[1:]) for _ in range(dims[0]))

    def tagged(self, s, out):
        """a signal that carries tag s.tag"""
        c = [a.ref for a in self.avail if a.tag == s.tag and a.dims == s.dims and not a.bus]
        if c and self.ch(.6):
            return self.r.choice(c)
        d = Sig(self.new('s'), s.dims, s.tag)
        if self.fault(.1, 'tag'):
            d.tag = None
        self.decls.append(self.decl(d, ''))
        loops, self.loops = self.loops, []
        known, self.known = self.known, {k: v for k, v in self.known.items() if k not in dict(loops)}
        if d.tag and self.ch(.85):
            out.append('%s.%s = %s;' % (d.ref, d.tag, self.num(1)))
        self.assign_all(d, out)
        self.loops, self.known = loops, known
        self.avail.append(d)
        return d.ref

    def inputs(self, c, t, out):
        ins = list(t.ins)
        if self.ch(.3):
            self.r.shuffle(ins)
        for s in ins:
            if s.bus:
                b = [a for a in self.avail if a.bus == s.bus and a.dims == s.dims]
                if b and self.ch(.6):
                    out.append('%s.%s <== %s;' % (c, s.ref, self.r.choice(b).ref))
                else:
                    self.busfields('%s.%s' % (c, s.ref), s, out)
                continue
            if s.tag:
                pre = []
                if self.loops:
                    # the tagged signal has to exist before the loop
                    pre = self.hoist
                a = self.tagged(s, pre if self.loops else out)
                out.append('%s.%s <== %s;' % (c, s.ref, a))
                continue
            self.assign_all(Sig('%s.%s' % (c, s.ref), s.dims), out)

    def busfields(self, ref, s, out):
        import itertools
        for cell in itertools.product(*[range(x) for x in s.dims]):
            base = ref + ''.join('[%d]' % i for i in cell)
            for nm, dims, sub, tag in s.bus[1]:
                if sub:
                    self.busfields(base + '.' + nm, Sig('', dims, None, sub), out)
                else:
                    self.assign_all(Sig(base + '.' + nm, dims), out)

    def bus_avail(self, s):
        """the scalar leaves of a bus as readable signals"""
        import itertools
        for cell in itertools.product(*[range(x) for x in s.dims]):
            base = s.ref + ''.join('[%d]' % i for i in cell)
            for nm, dims, sub, tag in s.bus[1]:
                x = Sig(base + '.' + nm, dims, tag, sub)
                self.avail.append(x)
                if sub:
                    self.bus_avail(x)

    # -- templates
    def template(self, main=False):
        name = self.new('T')
        params = [(self.new('n'), self.dims(2) if not main and self.ch(.3) else ()) for _ in range(self.r.randrange(0, 3) if not main else 3)]
        self.known = {k: d for k, d in params}
        self.loops, self.symidx = [], 0
        self.avail, self.decls, self.avail_later, self.hoist = [], [], [], []
        self.dvars = {}
        ins, outs = [], []
        head = []
        for _ in range(self.r.randrange(1, 4) if main else self.r.randrange(0 if self.ch(.1) else 1, 4)):
            bus = self.r.choice(self.buses) if self.buses and self.ch(.4) else None
            s = Sig(self.new('a'), self.dims(2) if not bus else self.dims(1) if self.ch(.3) else (), None, bus)
            if 'tag' in self.f and not main and not bus and self.ch(.4):
                s.tag = self.r.choice(['tg', 'th'])
            ins.append(s)
            head.append(self.decl(s, 'input'))
        for _ in range(self.r.randrange(1, 3)):
            bus = self.r.choice(self.buses) if self.buses and self.ch(.3) else None
            s = Sig(self.new('o'), self.dims(2) if not bus else (), None, bus)
            if 'tag' in self.f and not bus and self.ch(.3):
                s.tag = self.r.choice(['tg', 'th'])
            outs.append(s)
            head.append(self.decl(s, 'output'))
        if self.ch(.4):
            self.r.shuffle(head)
        for s in ins:
            self.avail.append(s)
            if s.bus:
                self.bus_avail(s)
            if s.tag and self.ch(.5):
                self.known['%s.%s' % (s.ref, s.tag)] = ()
        out = []
        pend = list(outs)
        for _ in range(self.r.randrange(0, 3)):
            s = Sig(self.new('s'), self.dims(2))
            bus = self.r.choice(self.buses) if self.buses and self.ch(.3) else None
            if bus:
                s.bus, s.dims = bus, ()
            pend.append(s)
            self.decls.append(self.decl(s, ''))
        steps = ['var'] * self.r.randrange(0, 3) + ['sig'] * len(pend) + ['con'] * self.r.randrange(0, 2)
        if self.tpls and ('inst' in self.f or 'anon' in self.f):
            steps += ['inst'] * self.r.randrange(1 if main else 0, 4 if main else 2)
        if 'unk' in self.f:
            steps += ['unk'] * self.r.randrange(0, 2)
        if 'wit' in self.f:
            steps += ['wit'] * self.r.randrange(0, 2 + main)
        if 'ctl' in self.f:
            steps += ['ass'] * self.r.randrange(0, 2)
        self.r.shuffle(steps)
        self.r.shuffle(pend)
        for st in steps:
            self.symidx = 0
            if self.fault(.03, 'asg'):
                # a second assignment, an assignment to an input or to something read already
                c = [a for a in self.avail if not a.bus and '.' not in a.ref]
                if c:
                    a = self.r.choice(c)
                    out.append(self.one(a.ref + ''.join('[%s]' % self.idx(n) for n in a.dims)))
            if self.fault(.03, 'read') and pend:
                a = self.r.choice(pend)
                if not a.bus:
                    out.append('%s === 1;' % (a.ref + ''.join('[%s]' % self.idx(n) for n in a.dims)))
            if self.fault(.03, 'unk'):
                out.append(self.r.choice([
                    'if (%s == 1) { %s === 1; }' % (self.sig(), self.sig()),
                    'var u%d[2]; u%d[%s] = 1;' % (self.uid, self.uid, self.sig()),
                    'for (var i = 0; i < %s; i++) { %s === i; }' % (self.sig(), self.sig()),
                    'if (%s > 1) { for (var i = 0; i < 2; i++) { %s === i; } }' % (self.sig(), self.sig()),
                    'assert(%s == 1);' % self.sig(),
                    'while (%s != 0) { var z = 1; }' % self.sig()]))
            if st == 'var':
                out.append(self.varstmt(2))
            elif st == 'sig':
                s = pend.pop()
                if s.bus:
                    c = [a for a in self.avail if a.bus == s.bus and a.dims == s.dims]
                    if c and self.ch(.5):
                        out.append('%s <== %s;' % (s.ref, self.r.choice(c).ref))
                    else:
                        self.busfields(s.ref, s, out)
                    self.avail.append(s)
                    self.bus_avail(s)
                else:
                    if s.tag and self.ch(.7):
                        out.append('%s.%s = %s;' % (s.ref, s.tag, self.num(1)))
                    self.assign_all(s, out)
                    self.avail.append(s)
            elif st == 'wit':
                self.dynamic(out)
            elif st == 'con' and 'wit' in self.f and self.ch(.7):
                pass
            elif st == 'con':
                out.append('%s === %s;' % (self.quad(), self.lin(1)))
            elif st == 'inst':
                self.hoist = []
                b = []
                self.inst(b)
                out += self.hoist + b
                new = [a for a in self.avail if a.bus]
                for a in new:
                    if not any(x.ref.startswith(a.ref + '.') for x in self.avail):
                        self.bus_avail(a)
            elif st == 'unk':
                s = Sig(self.new('s'), ())
                self.decls.append(self.decl(s, ''))
                v = self.new('w')
                k = self.r.randrange(5)
                if k >= 3:
                    out.append(self.nest(s.ref, 3, self.ch(.8)))
                elif k == 0:
                    out.append('var %s = 0; if (%s > 2) { %s = %s; } else { %s = %s; } %s <-- %s;' % (
                        v, self.sig(), v, self.sig(), v, self.num(1), s.ref, v))
                elif k == 1:
                    out.append('if (%s == 1) { %s <-- %s; } else { %s <-- %s; }' % (self.sig(), s.ref, self.num(1), s.ref, self.lin(1)))
                else:
                    out.append('var %s = %s; for (var i = 0; i < 2; i++) { %s += %s * %s; } %s <-- %s;' % (
                        v, self.sig(), v, self.sig(), self.num(1), s.ref, v))
                self.avail.append(s)
            elif st == 'ass':
                out.append('assert(%s);' % (self.cond(1) if self.fault(.4, 'ass') else self.r.choice(['1', '3 > 2', self.leaf() + ' == ' + self.leaf() + ' || 1'])))
        params_s = ', '.join(k for k, _ in params)
        src = 'template %s%s(%s) { %s %s\n %s }' % ('parallel ' if 'par' in self.f and self.ch(.3) else '', name, params_s, ' '.join(head), ' '.join(self.decls), '\n '.join(out))
        t = Tpl(name, [d for _, d in params], ins, outs, src)
        return t

    def bus(self):
        nm = self.new('B')
        fs, src = [], []
        for _ in range(self.r.randrange(1, 4)):
            sub = self.r.choice(self.buses) if self.buses and self.ch(.4) else None
            f = self.new('q')
            d = self.dims(1 if sub else 2)
            fs.append((f, d, sub, None))
            src.append('%s %s%s;' % (sub[0] if sub else 'signal', f, ''.join('[%d]' % n for n in d)))
        self.known = {}
        self.buses.append((nm + '()', fs))
        return 'bus %s() { %s }' % (nm, ' '.join(src))

    def program(self):
        src = []
        if 'bus' in self.f:
            src += [self.bus() for _ in range(self.r.randrange(1, 3))]
        if 'fun' in self.f:
            src += [self.function() for _ in range(self.r.randrange(1, 3))]
        n = self.r.randrange(1, 3) if 'inst' in self.f or 'anon' in self.f else 0
        for _ in range(n):
            t = self.template()
            self.tpls.append(t)
            src.append(t.src)
        m = self.template(main=True)
        src.append(m.src)
        k = self.r.choice([0, 1, 1, 2]) if 'sym' in self.f else 0
        args = ['@%d' % i if i < k else str(self.r.randrange(0, 12)) for i in range(3)]
        self.r.shuffle(args)
        pub = [s.ref for s in m.ins if self.ch(.3)]
        self.r.shuffle(pub)
        src.append('component main%s = %s(%s);' % (' {public [%s]}' % ','.join(pub) if pub else '', m.name, ', '.join(args)))
        return 'pragma circom 2.2.0;\n' + '\n'.join(src) + '\n'


def progs(rng, n, name, feats=FEATS, must=(), kinds=None, boost=1.0):
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        fs = [f for f in feats if r.random() < .7] + list(must)
        out.append(Skel('%s/%d' % (name, k), Gen(r, fs, kinds, boost).program()))
    return out
