"""Symbolic integers / field residues, path conditions and SMT queries (Python side).

The term language and its normal form are those of engine/bigint-shim, so terms
produced by the executed Rust code can be imported and compared."""
import time
import z3


class Stats:
    def __init__(self):
        self.queries = 0
        self.ms = 0.0
        self.unknown = 0
        self.sat = 0
        self.unsat = 0
        self.by_normal_form = 0

    def add(self, o):
        self.queries += o.queries
        self.ms += o.ms
        self.unknown += o.unknown
        self.sat += o.sat
        self.unsat += o.unsat
        self.by_normal_form += o.by_normal_form

    def as_dict(self):
        return dict(queries=self.queries, solver_ms=round(self.ms), unknown=self.unknown, sat=self.sat,
                    unsat=self.unsat, by_normal_form=self.by_normal_form)


class Inconclusive(Exception):
    pass


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


class Eng:
    def __init__(self, p):
        self.p = p
        self.kind = []
        self.lo = []
        self.hi = []
        self.res = []
        self.cons = {}

    # ---- construction ----
    def intern(self, kind, lo, hi, res=None):
        i = self.cons.get(kind)
        if i is not None:
            return i
        i = len(self.kind)
        self.kind.append(kind)
        self.lo.append(lo)
        self.hi.append(hi)
        self.res.append({(i,): 1} if res is None else res)
        self.cons[kind] = i
        return i

    def const(self, n):
        r = n % self.p
        return self.intern(('const', n), n, n, {(): r} if r else {})

    def sym(self, name, hi=None):
        return self.intern(('sym', name), 0, self.p - 1 if hi is None else hi)

    def isconst(self, a):
        return self.lo[a] == self.hi[a]

    def val(self, a):
        return self.lo[a] if self.lo[a] == self.hi[a] else None

    def infield(self, a):
        return self.lo[a] >= 0 and self.hi[a] < self.p

    def padd(self, a, b, neg=False):
        r = dict(a)
        p = self.p
        for m, c in b.items():
            v = (r.get(m, 0) + (-c if neg else c)) % p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mono(self, a, b):
        v = sorted(a + b)
        k = self.kind
        changed = True
        while changed:
            changed = False
            for i, x in enumerate(v):
                kx = k[x]
                if kx[0] == 'inv' and kx[1] in v:
                    y = kx[1]
                    v.remove(x)
                    v.remove(y)
                    changed = True
                    break
        return tuple(v)

    def pmul(self, a, b):
        r = {}
        p = self.p
        for m, c in a.items():
            for n, d in b.items():
                mn = self.mono(m, n)
                v = (r.get(mn, 0) + c * d) % p
                if v:
                    r[mn] = v
                else:
                    r.pop(mn, None)
        return r

    def mkres(self, poly):
        if not poly:
            return self.const(0)
        if len(poly) == 1:
            (m, c), = poly.items()
            if m == ():
                return self.const(c)
            if len(m) == 1 and c == 1 and self.infield(m[0]):
                return m[0]
        key = ('res', tuple(sorted(poly.items())))
        return self.intern(key, 0, self.p - 1, poly)

    def residue(self, a):
        return a if self.infield(a) else self.mkres(self.res[a])

    def add(self, a, b):
        if self.val(a) == 0:
            return b
        if self.val(b) == 0:
            return a
        if a > b:
            a, b = b, a
        lo, hi = self.lo[a] + self.lo[b], self.hi[a] + self.hi[b]
        if lo == hi:
            return self.const(lo)
        return self.intern(('add', a, b), lo, hi, self.padd(self.res[a], self.res[b]))

    def sub(self, a, b):
        if self.val(b) == 0:
            return a
        if a == b:
            return self.const(0)
        lo, hi = self.lo[a] - self.hi[b], self.hi[a] - self.lo[b]
        if lo == hi:
            return self.const(lo)
        return self.intern(('sub', a, b), lo, hi, self.padd(self.res[a], self.res[b], True))

    def mul(self, a, b):
        for x, o in ((a, b), (b, a)):
            v = self.val(x)
            if v == 0:
                return self.const(0)
            if v == 1:
                return o
        if a > b:
            a, b = b, a
        c = [self.lo[a] * self.lo[b], self.lo[a] * self.hi[b], self.hi[a] * self.lo[b], self.hi[a] * self.hi[b]]
        lo, hi = min(c), max(c)
        if lo == hi:
            return self.const(lo)
        pa, pb = self.res[a], self.res[b]
        deg = lambda q: max([len(m) for m in q] or [0])
        res = self.pmul(pa, pb) if deg(pa) + deg(pb) <= 10 and len(pa) * len(pb) <= 400 else None
        return self.intern(('mul', a, b), lo, hi, res)

    def rem(self, a, b):
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None:
            return self.const(trem(va, vb))
        if self.lo[b] > 0 and self.hi[a] < self.lo[b] and self.lo[a] > -self.lo[b]:
            return a
        if vb == self.p:
            if self.lo[a] >= 0:
                return self.residue(a)
            m = self.p - 1
            return self.intern(('rem', a, b), -m, 0 if self.hi[a] < 0 else m, self.res[a])
        m = max(abs(self.lo[b]), abs(self.hi[b])) - 1
        lo = max(-m, self.lo[a]) if self.lo[a] < 0 else 0
        hi = min(m, self.hi[a]) if self.hi[a] > 0 else 0
        return self.intern(('rem', a, b), lo, hi)

    def div(self, a, b):
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None:
            return self.const(tdiv(va, vb))
        if vb == 1:
            return a
        if self.lo[a] >= 0 and self.lo[b] > 0:
            lo, hi = self.lo[a] // self.hi[b], self.hi[a] // self.lo[b]
        else:
            m = max(abs(self.lo[a]), abs(self.hi[a]))
            lo, hi = -m, m
        if lo == hi:
            return self.const(lo)
        return self.intern(('div', a, b), lo, hi)

    def bitop(self, w, a, b):
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None:
            return self.const({'and': va & vb, 'or': va | vb, 'xor': va ^ vb}[w])
        if a > b:
            a, b = b, a
        al, ah, bl, bh = self.lo[a], self.hi[a], self.lo[b], self.hi[b]
        p2 = lambda n: (1 << n.bit_length()) - 1
        if al >= 0 and bl >= 0:
            lo, hi = {'and': (0, min(ah, bh)), 'or': (max(al, bl), p2(max(ah, bh))), 'xor': (0, p2(max(ah, bh)))}[w]
        else:
            m = p2(max(abs(al), abs(ah), abs(bl), abs(bh))) + 1
            lo, hi = -m, m
        return self.intern((w, a, b), lo, hi)

    def shl(self, a, k):
        return self.mul(a, self.const(1 << k))

    def shr(self, a, k):
        v = self.val(a)
        if v is not None:
            return self.const(v >> k)
        return self.intern(('shr', a, k), self.lo[a] >> k, self.hi[a] >> k)

    def inv(self, a):
        a = self.residue(a)
        v = self.val(a)
        if v is not None:
            return self.const(pow(v, -1, self.p))
        k = self.kind[a]
        if k[0] == 'inv':
            return k[1]
        res = self.res[a]
        lead = res[max(res)]
        if lead != 1:
            li = {(): pow(lead, -1, self.p)}
            q = self.mkres(self.pmul(res, li))
            iq = self.inv(q)
            return self.mkres(self.pmul(self.res[iq], li))
        return self.intern(('inv', a), 1, self.p - 1)

    # ---- field helpers (values are canonical residues) ----
    def fadd(self, a, b):
        return self.mkres(self.padd(self.res[a], self.res[b]))

    def fsub(self, a, b):
        return self.mkres(self.padd(self.res[a], self.res[b], True))

    def fmul(self, a, b):
        return self.residue(self.mul(self.residue(a), self.residue(b)))

    def fconst(self, n):
        return self.const(n % self.p)

    # ---- evaluation ----
    def eval(self, a, m, memo=None):
        memo = {} if memo is None else memo
        st = [a]
        while st:
            x = st[-1]
            if x in memo:
                st.pop()
                continue
            k = self.kind[x]
            t = k[0]
            if t == 'const':
                memo[x] = k[1]
                continue
            if t == 'sym':
                memo[x] = m.get(k[1], 0)
                continue
            if t == 'res':
                ch = {y for mo, _ in k[1] for y in mo}
            elif t in ('shr', 'inv'):
                ch = (k[1],)
            else:
                ch = (k[1], k[2])
            need = [y for y in ch if y not in memo]
            if need:
                st.extend(need)
                continue
            if t == 'res':
                memo[x] = self._evp(k[1], memo)
            elif t == 'add':
                memo[x] = memo[k[1]] + memo[k[2]]
            elif t == 'sub':
                memo[x] = memo[k[1]] - memo[k[2]]
            elif t == 'mul':
                memo[x] = memo[k[1]] * memo[k[2]]
            elif t == 'div':
                memo[x] = tdiv(memo[k[1]], memo[k[2]])
            elif t == 'rem':
                memo[x] = trem(memo[k[1]], memo[k[2]])
            elif t == 'and':
                memo[x] = memo[k[1]] & memo[k[2]]
            elif t == 'or':
                memo[x] = memo[k[1]] | memo[k[2]]
            elif t == 'xor':
                memo[x] = memo[k[1]] ^ memo[k[2]]
            elif t == 'shr':
                memo[x] = memo[k[1]] >> k[2]
            elif t == 'inv':
                memo[x] = pow(memo[k[1]], -1, self.p)
        return memo[a]

    def _evp(self, items, memo):
        s = 0
        for mo, c in items:
            t = c
            for y in mo:
                t = t * memo[y] % self.p
            s += t
        return s % self.p

    def evpoly(self, items, m, memo=None):
        memo = {} if memo is None else memo
        for mo, _ in items:
            for y in mo:
                self.eval(y, m, memo)
        return self._evp(items, memo)

    def evcond(self, c, m):
        try:
            if c[0] == 'pz':
                return self.evpoly(c[1], m) == 0
            memo = {}
            x, y = self.eval(c[1], m, memo), self.eval(c[2], m, memo)
            return x == y if c[0] == 'eq' else x < y
        except (ZeroDivisionError, ValueError):
            return None

    # ---- conditions: return True/False or a condition key ----
    def c_polyzero(self, poly):
        if not poly:
            return True
        if len(poly) == 1 and () in poly:
            return False
        lead = poly[max(poly)]
        li = pow(lead, -1, self.p)
        return ('pz', tuple(sorted((m, c * li % self.p) for m, c in poly.items())))

    def c_eq(self, a, b):
        if a == b:
            return True
        if self.hi[a] < self.lo[b] or self.hi[b] < self.lo[a]:
            return False
        d = self.padd(self.res[a], self.res[b], True)
        if len(d) == 1 and () in d:
            return False
        if self.infield(a) and self.infield(b):
            return self.c_polyzero(d)
        if a > b:
            a, b = b, a
        return ('eq', a, b)

    def c_lt(self, a, b):
        if a == b or self.lo[a] >= self.hi[b]:
            return False
        if self.hi[a] < self.lo[b]:
            return True
        return ('lt', a, b)

    # ---- import of a trace produced by the Rust engine ----
    def import_nodes(self, nodes):
        mp = []
        for k, lo, hi in nodes:
            t = k[0]
            if t == 'const':
                i = self.const(int(k[1]))
            elif t == 'sym':
                i = self.sym(('lit', k[1]), int(hi))
            elif t == 'res':
                i = self.mkres(self.import_poly(k[1], mp))
            elif t in ('add', 'sub', 'mul', 'div', 'rem'):
                i = getattr(self, t)(mp[k[1]], mp[k[2]])
            elif t in ('and', 'or', 'xor'):
                i = self.bitop(t, mp[k[1]], mp[k[2]])
            elif t == 'shl':
                i = self.shl(mp[k[1]], k[2])
            elif t == 'shr':
                i = self.shr(mp[k[1]], k[2])
            elif t == 'inv':
                i = self.inv(mp[k[1]])
            else:
                raise Inconclusive('unknown node kind ' + t)
            mp.append(i)
        return mp

    def import_poly(self, items, mp):
        poly = {}
        for mo, c in items:
            t = {(): int(c) % self.p}
            for y in mo:
                t = self.pmul(t, self.res[mp[y]])
            poly = self.padd(poly, t)
        return poly

    def import_cond(self, c, mp):
        if c[0] == 'pz':
            return self.c_polyzero(self.import_poly(c[1], mp))
        if c[0] == 'eq':
            return self.c_eq(mp[c[1]], mp[c[2]])
        return self.c_lt(mp[c[1]], mp[c[2]])


class Smt:
    """SMT encoding of an Eng's terms: complete bit-vectors wide enough for every
    intermediate integer (no wrap-around is possible by the range analysis)."""

    def __init__(self, eng, stats, timeout_ms=20000):
        self.e = eng
        self.stats = stats
        self.timeout = timeout_ms
        self.w = 2 * eng.p.bit_length() + 6
        self.memo = {}
        self.side = {}

    def _fit(self, ids):
        w = self.w
        for i in ids:
            w = max(w, abs(self.e.lo[i]).bit_length() + 2, abs(self.e.hi[i]).bit_length() + 2)
        if w > self.w:
            self.w = w
            self.memo = {}
            self.side = {}

    def _deps(self, a, out):
        st = [a]
        while st:
            x = st.pop()
            if x in out:
                continue
            out.add(x)
            k = self.e.kind[x]
            t = k[0]
            if t == 'res':
                st.extend(y for mo, _ in k[1] for y in mo)
            elif t in ('shr', 'inv'):
                st.append(k[1])
            elif t not in ('const', 'sym'):
                st.extend((k[1], k[2]))

    def small(self, items, scales=(1,)):
        """(scale, signed coefficients, constant, lo, hi) of a linear polynomial when the
        integer value stays within a few multiples of p; large fields only"""
        e = self.e
        p = e.p
        if p.bit_length() < 20 or any(len(m) > 1 for m, _ in items):
            return None
        best = None
        for k in scales:
            cs = []
            for m, c in items:
                c = c * k % p
                cs.append((m, c - p if c > p // 2 else c))
            t = sum(abs(c) for m, c in cs if m)
            if best is None or t < best[0]:
                best = (t, cs)
        if best[0] > 8:
            return None
        lo = sum(c if not m else c * (e.lo if c > 0 else e.hi)[m[0]] for m, c in best[1])
        hi = sum(c if not m else c * (e.hi if c > 0 else e.lo)[m[0]] for m, c in best[1])
        return None if hi - lo > 16 * p else (best[1], lo, hi)

    def linear(self, cs):
        acc = z3.BitVecVal(0, self.w)
        for m, c in cs:
            acc = acc + (z3.BitVecVal(c, self.w) * self.term(m[0]) if m else z3.BitVecVal(c, self.w))
        return acc

    def polyzero(self, items):
        w, e = self.w, self.e
        p = e.p
        if p.bit_length() >= 20:
            if len(items) == 1 and all(e.infield(y) for y in items[0][0]):
                return z3.Or([self.term(y) == 0 for y in items[0][0]])
            at = [x for x in items if x[0]]
            if len(at) == 1 and len(at[0][0]) == 1 and e.infield(at[0][0][0]):
                c0 = sum(c for m, c in items if not m)
                return self.term(at[0][0][0]) == z3.BitVecVal(-c0 * pow(at[0][1], -1, p) % p, w)
            sm = self.small(items, [1, 2, 3, 4, 5] + [pow(c, -1, p) for m, c in at])
            if sm:
                cs, lo, hi = sm
                v = self.linear(cs)
                return z3.Or([v == z3.BitVecVal(k * p, w) for k in range(-(-lo // p), hi // p + 1)])
        return self.poly(items) == 0

    def poly(self, items):
        w, e = self.w, self.e
        P = z3.BitVecVal(e.p, w)
        sm = self.small(items)
        if sm:
            cs, lo, hi = sm
            v = self.linear(cs)
            r = v - z3.BitVecVal((hi // e.p) * e.p, w)
            for k in range(hi // e.p, lo // e.p, -1):
                r = z3.If(v < z3.BitVecVal(k * e.p, w), v - z3.BitVecVal((k - 1) * e.p, w), r)
            return r
        acc = None
        for mo, c in items:
            t = None if c == 1 and mo else z3.BitVecVal(c, w)
            for y in mo:
                v = self.term(y)
                if not e.infield(y):
                    v = v % P  # bvsmod
                t = v if t is None else z3.URem(t * v, P)
            acc = t if acc is None else acc + t
        if acc is None:
            acc = z3.BitVecVal(0, w)
        return z3.URem(acc, P)

    def term(self, a):
        r = self.memo.get(a)
        if r is not None:
            return r
        w, e = self.w, self.e
        k = e.kind[a]
        t = k[0]
        if t == 'const':
            r = z3.BitVecVal(k[1], w)
        elif t == 'sym':
            r = z3.BitVec('s_%s' % (k[1],), w)
            self.side[a] = [z3.ULE(r, z3.BitVecVal(e.hi[a], w))]
        elif t == 'res':
            r = self.poly(k[1])
        elif t == 'add':
            r = self.term(k[1]) + self.term(k[2])
        elif t == 'sub':
            r = self.term(k[1]) - self.term(k[2])
        elif t == 'mul':
            r = self.term(k[1]) * self.term(k[2])
        elif t == 'div':
            r = self.term(k[1]) / self.term(k[2])
        elif t == 'rem':
            r = z3.SRem(self.term(k[1]), self.term(k[2]))
        elif t == 'and':
            r = self.term(k[1]) & self.term(k[2])
        elif t == 'or':
            r = self.term(k[1]) | self.term(k[2])
        elif t == 'xor':
            r = self.term(k[1]) ^ self.term(k[2])
        elif t == 'shr':
            r = self.term(k[1]) >> min(k[2], w - 1)
        elif t == 'inv':
            r = z3.BitVec('inv_%d' % a, w)
            P = z3.BitVecVal(e.p, w)
            self.side[a] = [z3.ULT(r, P), z3.URem(r * self.term(k[1]), P) == 1]
        self.memo[a] = r
        return r

    def cond(self, c):
        if c is True or c is False:
            return z3.BoolVal(c)
        if c[0] == 'pz':
            return self.polyzero(c[1])
        if c[0] == 'eq':
            return self.term(c[1]) == self.term(c[2])
        if c[0] == 'lt':
            return self.term(c[1]) < self.term(c[2])
        if c[0] == 'not':
            return z3.Not(self.cond(c[1]))
        if c[0] == 'and':
            return z3.And([self.cond(x) for x in c[1]])
        if c[0] == 'or':
            return z3.Or([self.cond(x) for x in c[1]])
        raise ValueError(c)

    def _ids(self, c, out):
        if c is True or c is False:
            return
        if c[0] == 'pz':
            for mo, _ in c[1]:
                for y in mo:
                    self._deps(y, out)
        elif c[0] in ('eq', 'lt'):
            self._deps(c[1], out)
            self._deps(c[2], out)
        elif c[0] == 'not':
            self._ids(c[1], out)
        else:
            for x in c[1]:
                self._ids(x, out)

    def check(self, conds):
        """conds: list of conditions. -> model dict | None (unsat); raises Inconclusive"""
        conds = [c for c in conds if c is not True]
        if any(c is False for c in conds):
            self.stats.by_normal_form += 1
            return None
        ids = set()
        for c in conds:
            self._ids(c, ids)
        self._fit(ids)
        s = z3.SolverFor('QF_BV')
        s.set('timeout', self.timeout)
        fs = [self.cond(c) for c in conds]
        for i in sorted(ids):
            self.term(i)
        for i in sorted(ids):
            for f in self.side.get(i, ()):
                s.add(f)
        for f in fs:
            s.add(f)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.ms += (time.time() - t0) * 1000
        if r == z3.unsat:
            self.stats.unsat += 1
            return None
        if r == z3.sat:
            self.stats.sat += 1
            m = s.model()
            out = {}
            for i in ids:
                k = self.e.kind[i]
                if k[0] == 'sym':
                    v = m.eval(self.term(i), model_completion=True).as_long()
                    out[k[1]] = v
            return out
        self.stats.unknown += 1
        raise Inconclusive('solver returned unknown')


def eliminate(eng, hyps, concl):
    """Gaussian elimination of signal atoms that occur linearly with a constant
    coefficient in a hypothesis.  hyps, concl: 'pz' conditions.
    -> (hyps', concl', defs) where defs = [(atom, poly)] in elimination order;
    False among hyps' means the hypotheses are contradictory."""
    p = eng.p
    sig = lambda a: eng.kind[a][0] == 'sym' and eng.kind[a][1][0] == 'sig'
    H = [dict(c[1]) for c in hyps]
    C = [None if isinstance(c, bool) else dict(c[1]) for c in concl]
    defs = []

    def cand(h):
        occ = {}
        for m in h:
            for x in m:
                occ[x] = occ.get(x, 0) + 1
        for m, c in h.items():
            if len(m) == 1 and occ[m[0]] == 1 and sig(m[0]):
                return m[0], c
        return None

    def subst(q, x, px):
        hit = [m for m in q if x in m]
        if not hit:
            return q
        r = {m: c for m, c in q.items() if x not in m}
        for m in hit:
            t = {(): q[m]}
            for y in m:
                t = eng.pmul(t, px if y == x else {(y,): 1})
            r = eng.padd(r, t)
        return r

    todo = sorted(range(len(H)), key=lambda i: (max([len(m) for m in H[i]] or [0]), len(H[i])))
    while todo:
        nxt = None
        for i in todo:
            if H[i] is None or max([len(m) for m in H[i]] or [0]) > 2 or len(H[i]) > 24:
                continue
            if any(len(m) > 1 for m in H[i]) and any(len(q) > 200 for q in H if q):
                continue
            c = cand(H[i])
            if c:
                nxt = i, c
                break
        if nxt is None:
            break
        i, (x, c) = nxt
        px = {m: (-v * pow(c, -1, p)) % p for m, v in H[i].items() if m != (x,)}
        deg = max([len(m) for m in px] or [0])
        if deg > 1:
            # only when it does not raise the degree too much
            if any(q is not None and any(m.count(x) > 1 for m in q) for q in H + C):
                todo.remove(i)
                continue
        H[i] = None
        todo.remove(i)
        defs.append((x, px))
        H = [None if q is None else subst(q, x, px) for q in H]
        C = [None if q is None else subst(q, x, px) for q in C]
    h2 = []
    for q in H:
        if q is None:
            continue
        k = eng.c_polyzero(q)
        if k is False:
            return [False], [], defs
        if k is not True and k not in h2:
            h2.append(k)
    c2 = [o if q is None else eng.c_polyzero(q) for q, o in zip(C, concl)]
    return h2, c2, defs


def complete(eng, model, defs):
    """values of eliminated atoms"""
    for x, px in reversed(defs):
        model[eng.kind[x][1]] = eng.evpoly(tuple(px.items()), model)
    return model


class Path:
    """One symbolic execution of Python code under a base path condition."""

    def __init__(self, eng, smt, base, models, prefix, maxdec=3000):
        self.e = eng
        self.smt = smt
        self.base = base            # list of condition keys (possibly ('not',c))
        self.known = {}
        for c in base:
            if c is True:
                continue
            if c[0] == 'not':
                self.known[c[1]] = False
            else:
                self.known[c] = True
        self.models = list(models)
        self.prefix = prefix
        self.trace = []             # (cond, outcome, free)
        self.alts = []              # (index, model)
        self.maxdec = maxdec

    def conds(self):
        return self.base + [c if o else ('not', c) for c, o, f in self.trace if f]

    def decide(self, c):
        if c is True or c is False:
            return c
        k = self.known.get(c)
        if k is not None:
            return k
        i = len(self.trace)
        if i < len(self.prefix):
            o, f = self.prefix[i]
            self.trace.append((c, o, f))
            self.known[c] = o
            self.models = [m for m in self.models if self.e.evcond(c, m) is o]
            return o
        if i >= self.maxdec:
            raise Inconclusive('decision budget')
        st = sf = None
        for m in self.models:
            v = self.e.evcond(c, m)
            if v is True:
                st = st or m
            elif v is False:
                sf = sf or m
        if st is None:
            st = self.smt.check(self.conds() + [c])
            if st is not None:
                self.models.append(st)
        if sf is None:
            sf = self.smt.check(self.conds() + [('not', c)])
            if sf is not None:
                self.models.append(sf)
        if st is None and sf is None:
            raise Inconclusive('infeasible path')
        free = st is not None and sf is not None
        o = st is not None
        if free:
            self.alts.append((i, sf))
        self.trace.append((c, o, free))
        self.known[c] = o
        if free:
            self.models = [m for m in self.models if self.e.evcond(c, m) is o]
        return o

    # convenience
    def eq(self, a, b):
        return self.decide(self.e.c_eq(a, b))

    def lt(self, a, b):
        return self.decide(self.e.c_lt(a, b))

    def concretize(self, a, limit=400):
        v = self.e.val(a)
        if v is not None:
            return v
        n = 0
        for v in range(self.e.lo[a], self.e.hi[a] + 1):
            if self.eq(a, self.e.const(v)):
                return v
            n += 1
            if n > limit:
                break
        raise Inconclusive('concretisation limit')


def explore(eng, smt, base, models, fn, max_paths=4000):
    """Run fn(path) over every feasible path; yields (path, result)."""
    work = [([], list(models))]
    n = 0
    while work:
        prefix, ms = work.pop()
        n += 1
        if n > max_paths:
            raise Inconclusive('path budget (%d)' % max_paths)
        path = Path(eng, smt, base, ms, prefix)
        r = fn(path)
        for i, m in path.alts:
            pre = [(o, f) for _, o, f in path.trace[:i]] + [(not path.trace[i][1], True)]
            work.append((pre, [m]))
        yield path, r
