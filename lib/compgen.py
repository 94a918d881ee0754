"""Random programs around component arrays: shapes, holes, templates without inputs, mixed instances, order and style of the
input assignments, buses and arrays at the interface, parallel instances.  Witness side only (<-- everywhere but in simple places)."""
import random
from .corpus import Skel


class G:
    def __init__(self, r):
        self.r = r
        self.u = 0
        self.cons = False

    def new(self, p):
        self.u += 1
        return p + str(self.u)

    def ch(self, x):
        return self.r.random() < x

    def bus(self):
        r = self.r
        out = ['bus P(k){ signal x[k]; signal y; }']
        if self.ch(.5):
            out.append('bus Q(k){ signal z; P(k) p[2]; }')
        else:
            out.append('bus Q(k){ P(k) p[2]; signal z[2][k]; }' if self.ch(.5) else 'bus Q(k){ P(k) p[1][2]; signal z; }')
        return out

    # the leaves of a value of an interface kind: list of access texts with n the parameter
    def leaves(self, kind, n):
        if kind == 's':
            return ['']
        if kind == 'v':
            return ['[%d]' % i for i in range(n)]
        if kind == 'm':
            return ['[%d][%d]' % (i, j) for i in range(n) for j in range(2)]
        if kind == 'P':
            return ['.x[%d]' % i for i in range(n)] + ['.y']
        if kind == 'PP':
            return ['[%d]%s' % (i, l) for i in range(2) for l in self.leaves('P', n)]
        z = ['.z'] if 'signal z;' in self.qdef else ['.z[%d][%d]' % (i, j) for i in range(2) for j in range(n)]
        pp = ['.p[0][%d]' % i for i in range(2)] if 'p[1][2]' in self.qdef else ['.p[%d]' % i for i in range(2)]
        ps = [a + l for a in pp for l in self.leaves('P', n)]
        return z + ps if self.qdef.index('z') < self.qdef.index(' p[') else ps + z

    DECL = {'s': 'signal %s %s', 'v': 'signal %s %s[n]', 'm': 'signal %s %s[n][2]', 'P': '%s P(n) %s', 'PP': '%s P(n) %s[2]', 'Q': '%s Q(n) %s'}

    def tpl(self, name):
        """one template T(n) that is written for every n in 1..3"""
        r = self.r
        kinds = ['s', 'v', 'm', 'P', 'PP', 'Q'] if self.usebus else ['s', 'v', 'm']
        nin = r.choice([0, 1, 1, 2, 2, 3])
        ins = [('i%d' % k, r.choice(kinds)) for k in range(nin)]
        outs = [('o%d' % k, r.choice(kinds)) for k in range(r.choice([1, 1, 2]))]
        par = 'parallel ' if self.ch(.12) else ''
        t = ['template %s%s(n){' % (par, name)]
        decls = [self.DECL[k] % ('input', s) + ';' for s, k in ins] + [self.DECL[k] % ('output', s) + ';' for s, k in outs]
        if self.ch(.3):
            r.shuffle(decls)
        t += decls
        self.cur = (ins, outs)
        # one accumulator over all input leaves, weighted by position: written with loops so that it works for every n
        t.append('var s = %d;' % r.randrange(1, 5))
        w = 1
        for s, k in ins:
            w += 1
            if k == 's':
                t.append('s += %d*%s;' % (w, s))
            elif k == 'v':
                t.append('for (var i=0;i<n;i++) { s += (%d+i)*%s[i]; }' % (w, s))
            elif k == 'm':
                t.append('for (var i=0;i<n;i++) { for (var j=0;j<2;j++) { s += (%d+2*i+j)*%s[i][j]; } }' % (w, s))
            elif k == 'P':
                t.append('s += %d*%s.y; for (var i=0;i<n;i++) { s += (%d+i)*%s.x[i]; }' % (w, s, w, s))
            elif k == 'PP':
                t.append('for (var j=0;j<2;j++) { s += (j+%d)*%s[j].y; for (var i=0;i<n;i++) { s += (%d+i+j)*%s[j].x[i]; } }' % (w, s, w, s))
            else:
                z = '%s.z' % s if 'signal z;' in self.qdef else '%s.z[1][n-1] + 2*%s.z[0][0]' % (s, s)
                p0 = '%s.p[0]' % s if 'p[1][2]' in self.qdef else '%s.p' % s
                t.append('s += %d*(%s); for (var j=0;j<2;j++) { s += (j+%d)*%s[j].y; for (var i=0;i<n;i++) { s += (%d+i+j)*%s[j].x[i]; } }'
                         % (w, z, w, p0, w, p0))
        sub = None
        if self.tpls and self.ch(.3):
            sub = r.choice(self.tpls)
            c = self.new('q')
            si, so = sub[1], sub[2]
            nn = r.choice(['n', 'n', '2'])
            shape = r.choice([None, None, '[2]', '[3]'])
            pos = [''] if shape is None else ['[%d]' % i for i in range(int(shape[1])) if self.ch(.75)] or ['[1]']
            t.append('component %s%s;' % (c, shape or ''))
            for p in pos:
                t.append('%s%s = %s(%s);' % (c, p, sub[0], nn if nn == '2' else nn))
            for p in pos:
                for s, k in si:
                    t += self.feedloop('%s%s.%s' % (c, p, s), k, nn)
            for p in pos:
                s, k = r.choice(so)
                t.append('s += %s%s.%s%s;' % (c, p, s, self.first(k)))
        for s, k in outs:
            if k == 's':
                t.append('%s <-- s;' % s)
            elif k == 'v':
                t.append('for (var i=0;i<n;i++) { %s[i] <-- s+i; }' % s if self.ch(.6) or not self.ch(.5) else
                         'var v%s[n]; for (var i=0;i<n;i++) { v%s[n-1-i] = s*(i+1); } %s <-- v%s;' % (s, s, s, s))
            elif k == 'm':
                t.append('for (var i=0;i<n;i++) { for (var j=0;j<2;j++) { %s[i][j] <-- s+2*i+j; } }' % s)
            elif k == 'P':
                src = [a for a, kk in ins if kk == 'P']
                if src and self.ch(.5):
                    t.append('%s <== %s;' % (s, r.choice(src)))
                else:
                    t.append('%s.y <-- s; for (var i=0;i<n;i++) { %s.x[i] <-- s-i; }' % (s, s))
            elif k == 'PP':
                t.append('for (var j=0;j<2;j++) { %s[j].y <-- s+j; for (var i=0;i<n;i++) { %s[j].x[i] <-- s-i*j; } }' % (s, s))
            else:
                src = [a for a, kk in ins if kk == 'Q']
                if src and self.ch(.5):
                    t.append('%s <== %s;' % (s, r.choice(src)))
                    continue
                if 'signal z;' in self.qdef:
                    t.append('%s.z <-- s;' % s)
                else:
                    t.append('for (var i=0;i<n;i++) { for (var j=0;j<2;j++) { %s.z[j][i] <-- s+i-j; } }' % s)
                p0 = '%s.p[0]' % s if 'p[1][2]' in self.qdef else '%s.p' % s
                t.append('for (var j=0;j<2;j++) { %s[j].y <-- 2*s+j; for (var i=0;i<n;i++) { %s[j].x[i] <-- s+i*j; } }' % (p0, p0))
        t.append('}')
        self.tpls.append((name, ins, outs))
        return '\n'.join(t)

    def first(self, k):
        return self.leaves(k, 1)[self.r.choice([0, -1])]

    def feedloop(self, ref, k, nn):
        """assign an input in terms of s, for any n"""
        if k == 's':
            return ['%s <-- s+1;' % ref]
        if k == 'v':
            return ['for (var i=0;i<%s;i++) { %s[i] <-- s+i; }' % (nn, ref)]
        if k == 'm':
            return ['for (var i=0;i<%s;i++) { for (var j=0;j<2;j++) { %s[i][j] <-- s*j+i; } }' % (nn, ref)]
        if k == 'P':
            return ['for (var i=0;i<%s;i++) { %s.x[i] <-- s+i; } %s.y <-- 2;' % (nn, ref, ref)]
        if k == 'PP':
            return ['for (var j=0;j<2;j++) { for (var i=0;i<%s;i++) { %s[j].x[i] <-- s+i; } %s[j].y <-- j; }' % (nn, ref, ref)]
        z = ['%s.z <-- s;' % ref] if 'signal z;' in self.qdef else ['for (var i=0;i<%s;i++) { for (var j=0;j<2;j++) { %s.z[j][i] <-- s*j+i; } }' % (nn, ref)]
        p0 = '%s.p[0]' % ref if 'p[1][2]' in self.qdef else '%s.p' % ref
        return z + ['for (var j=0;j<2;j++) { for (var i=0;i<%s;i++) { %s[j].x[i] <-- s+i; } %s[j].y <-- j; }' % (nn, p0, p0)]

    def program(self):
        r = self.r
        self.usebus = self.ch(.5)
        self.tpls = []
        src = []
        if self.usebus:
            b = self.bus()
            self.qdef = b[1]
            src += b
        for k in range(r.choice([1, 2, 2, 3])):
            src.append(self.tpl('T%d' % k))
        m = ['template M(){ signal input a; signal input b[2]; signal output c; signal output d[2];', 'var acc = 0;']
        todo, outs = [], []
        names = []
        for g in range(r.choice([1, 1, 2])):
            t = r.choice(self.tpls)
            c = self.new('k')
            dims = r.choice([(), (2,), (3,), (3,), (4,), (2, 2), (2, 3)])
            pos = [()]
            for d in dims:
                pos = [p + (i,) for p in pos for i in range(d)]
            if dims and self.ch(.4):
                pos = [p for p in pos if self.ch(.6)] or [pos[-1]]
            m.append('component %s%s;' % (c, ''.join('[%d]' % d for d in dims)))
            mode = r.choice(['same', 'same', 'idx', 'rnd'])
            base = r.randrange(1, 4)
            # mixed templates with the same interface only if they have one: keep one template, different parameters
            parmode = r.choice([None] * 5 + ['all', 'some'])
            full = len(pos) == len([1 for _ in range(1)]) * 1 if not dims else None
            insts = []
            inits = []
            for p in pos:
                n = base if mode == 'same' else (sum(p) % 3 + 1 if mode == 'idx' else r.randrange(1, 4))
                ref = c + ''.join('[%d]' % i for i in p)
                pr = 'parallel ' if parmode == 'all' or parmode == 'some' and self.ch(.5) else ''
                inits.append('%s = %s%s(%d);' % (ref, pr, t[0], n))
                insts.append((ref, t, n))
            if mode != 'rnd' and len(dims) == 1 and len(pos) == dims[0] and parmode != 'some' and self.ch(.6):
                m.append('for (var i=0;i<%d;i++) { %s[i] = %s%s(%s); }' % (dims[0], c, 'parallel ' if parmode else '', t[0],
                                                                          str(base) if mode == 'same' else 'i%3+1'))
            else:
                if self.ch(.3):
                    r.shuffle(inits)
                m += inits
            todo.append((insts, dims, c, t, mode, base, len(pos)))
        avail = ['a', 'b[0]', 'b[1]']
        for insts, dims, c, t, mode, base, npos in todo:
            chain = self.ch(.3)
            stm = []
            uniform = mode == 'same' and len(dims) == 1 and npos == dims[0] and not chain
            if mode == 'idx' and len(dims) == 1 and npos == dims[0] and self.ch(.7):
                # instances of different sizes, inputs and outputs in one loop
                lp = 'for (var q=0;q<%d;q++) { ' % dims[0]
                body = []
                for s, k in t[1]:
                    body.append([x.replace('<-- s', '<-- %s+q' % r.choice(avail)) for x in self.feedloop('%s[q].%s' % (c, s), k, '(q%3+1)')])
                r.shuffle(body)
                flat = [x for y in body for x in y]
                if self.ch(.6):
                    m.append(lp + ' '.join(flat) + ' }')
                else:
                    m += [lp + x + ' }' for x in flat]
                for s, k in t[2]:
                    ref = '%s[q].%s' % (c, s)
                    rd = {'s': 'acc += q*%s;' % ref, 'v': 'for (var i=0;i<q%%3+1;i++) { acc += (i+1)*%s[i]; }' % ref,
                          'm': 'for (var i=0;i<q%%3+1;i++) { acc += (i+1)*%s[i][1] - %s[i][0]; }' % (ref, ref),
                          'P': 'for (var i=0;i<q%%3+1;i++) { acc += (i+1)*%s.x[i]; } acc += %s.y;' % (ref, ref),
                          'PP': 'for (var j=0;j<2;j++) { for (var i=0;i<q%%3+1;i++) { acc += (i+1)*%s[1-j].x[i]; } acc += %s[j].y; }' % (ref, ref)}
                    rd['Q'] = rd['PP'].replace(ref, ref + ('.p[0]' if self.usebus and 'p[1][2]' in self.qdef else '.p'))
                    if k == 'v' and self.ch(.5):
                        v = self.new('h')
                        rd['v'] = 'var %s[3] = %s; acc += %s[q%%3] + 2*%s[0];' % (v, ref, v, v)
                    if k in 'P' and self.ch(.4):
                        v = self.new('w')
                        m.append('signal %s[%d];' % (v, dims[0]))
                        rd['P'] += ' %s[q] <-- %s.y + %s.x[0]; acc += %s[q];' % (v, ref, ref, v)
                    m.append(lp + rd[k] + ' }')
                continue
            if uniform and self.ch(.5) and t[1]:
                # inputs through a loop over the array
                for s, k in t[1]:
                    L = self.leaves(k, base)
                    r.shuffle(L)
                    for l in L:
                        stm.append(['for (var q=0;q<%d;q++) { %s[q].%s%s <-- %s + %d*q; }' % (dims[0], c, s, l, r.choice(avail), r.randrange(4))])
                r.shuffle(stm)
                m += [x for y in stm for x in y]
            else:
                for ref, t_, n in insts:
                    mine = []
                    for s, k in t_[1]:
                        L = self.leaves(k, n)
                        how = r.random()
                        if k == 'v' and how < .4:
                            mine.append('%s.%s <-- [%s];' % (ref, s, ', '.join(self.ex(avail) for _ in L)))
                        elif k == 'm' and how < .4:
                            mine.append('%s.%s <-- [%s];' % (ref, s, ', '.join('[%s, %s]' % (self.ex(avail), self.ex(avail)) for _ in range(n))))
                        elif k == 'm' and how < .6:
                            for i in range(n):
                                mine.append('%s.%s[%d] <-- [%s, %s];' % (ref, s, i, self.ex(avail), self.ex(avail)))
                        elif k in ('P', 'Q') and how < .4:
                            v = self.new('w')
                            m.append('%s(%d) %s;' % (k, n, v))
                            for l in L:
                                m.append('%s%s <-- %s;' % (v, l, self.ex(avail)))
                            mine.append('%s.%s <== %s;' % (ref, s, v))
                        else:
                            for l in L:
                                x = '%s.%s%s' % (ref, s, l)
                                if self.ch(.12) and not self.cons:
                                    mine.append('if (%s==%d) { %s <-- %s; } else { %s <-- %s; }' % (r.choice(avail[:3]), r.randrange(3), x, self.ex(avail), x, self.ex(avail)))
                                else:
                                    mine.append('%s <-- %s;' % (x, self.ex(avail)))
                    if self.ch(.5):
                        r.shuffle(mine)
                    if chain:
                        m += mine
                        s, k = r.choice(t_[2])
                        avail.append('%s.%s%s' % (ref, s, r.choice(self.leaves(k, n))))
                    else:
                        stm.append(mine)
                if not chain:
                    if self.ch(.5):
                        flat = [x for y in stm for x in y]
                        r.shuffle(flat)
                        m += flat
                    else:
                        r.shuffle(stm)
                        m += [x for y in stm for x in y]
            w = 1
            if uniform and self.ch(.5):
                for s, k in t[2]:
                    for l in self.leaves(k, base):
                        m.append('for (var q=0;q<%d;q++) { acc += (%d+q)*%s[q].%s%s; }' % (dims[0], w, c, s, l))
                        w += 1
            else:
                for ref, t_, n in insts:
                    for s, k in t_[2]:
                        L = self.leaves(k, n)
                        for l in L:
                            m.append('acc += %d*%s.%s%s;' % (w, ref, s, l))
                            w += 1
                        avail.append('%s.%s%s' % (ref, s, r.choice(L)))
                        if k == 'v' and n == 2 and self.ch(.5):
                            v = self.new('h')
                            m.append('var %s[2] = %s.%s; acc += %s[1];' % (v, ref, s, v))
                        if k in 'PQ' and self.ch(.3):
                            v = self.new('w')
                            m.append('%s(%d) %s; %s <== %s.%s; acc += %s%s;' % (k, n, v, v, ref, s, v, L[-1]))
        m.append('c <-- acc; d <-- [acc*a, %s];' % avail[-1])
        m.append('}')
        return '\n'.join(src + m) + '\ncomponent main = M();\n'

    def ex(self, avail):
        r = self.r
        x = r.choice(avail)
        return r.choice(['%s' % x, '%s+%d' % (x, r.randrange(1, 4)), '%s-%s' % (x, r.choice(avail[:3])), '%d' % r.randrange(5), '%d*%s' % (r.randrange(2, 4), x)])


def progs(rng, n, name, cons=False):
    """cons: every assignment constrains, nothing depends on signals"""
    out = []
    for k in range(n):
        g = G(random.Random(rng.random()))
        g.cons = cons
        src = g.program()
        out.append(Skel('%s/%d' % (name, k), src.replace('<--', '<==') if cons else src))
    return out
