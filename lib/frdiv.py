"""The loops of the field library: division of long integers and the modular inverse."""
import z3
from . import wat
from .alg import Alg, AlgMachine, Cond, V, lin, padd
from .wat import Unenc, M32


class Done(Exception):
    pass


class DivMachine(AlgMachine):
    """one round of $Fr_int_div; the operands are bytes, of which the highest non-zero one is fixed"""

    def __init__(self, F, A, choices):
        AlgMachine.__init__(self, F.mod, A, choices)
        self.F, self.n = F, 4 * F.n32
        self.by, self.facts, self.prod, self.taken, self.rr = {}, [], None, None, None
        for h in ('copy', 'zero', 'gte', '_mul1', 'sub', '_add1'):
            self.hooks['$Fr_int_' + h] = getattr(self, 'h' + h if h[0] == '_' else 'h_' + h)

    def ld8(self, a):
        return self.low(self.by[a]) if a in self.by else self.mem[a]

    def ld32(self, a):
        if not any(a + k in self.by for k in range(4)):
            return AlgMachine.ld32(self, a)
        v = V({}, 0, 0)
        for k in range(4):
            b = self.lift(self.ld8(a + k))
            v = V(padd(v.p, b.p, 256 ** k), v.lo + (b.lo << 8 * k), v.hi + (b.hi << 8 * k))
        return self.low(v)

    def number(self, a):
        p = {}
        for k in range(self.n):
            p = padd(p, self.lift(self.ld8(a + k)).p, 256 ** k)
        return p

    def h_copy(self, s, d):
        bs = [self.by.get(s + k, self.mem[s + k]) for k in range(self.n)]
        for k, b in enumerate(bs):
            self.by.pop(d + k, None)
            if isinstance(b, int):
                self.mem[d + k] = b
            else:
                self.by[d + k] = b

    def h_zero(self, d):
        for k in range(self.n):
            self.by.pop(d + k, None)
            self.mem[d + k] = 0

    def h_gte(self, a, b):
        return Cond(('ge', self.number(a), self.number(b)))

    def h_mul1(self, a, y, r):
        if self.prod:
            raise Unenc('two products in one round')
        self.prod = (r, self.number(a), self.lift(y))

    def h_sub(self, a, b, r):
        if not self.prod or a != r or self.taken is not None:
            raise Unenc('the subtraction of this round')
        k = self.prod[0] - b
        if not 0 <= k < self.n or any(b + j in self.by or self.mem[b + j] for j in range(k)):
            raise Unenc('the subtrahend is not the product moved by whole bytes')
        self.taken, self.rr = k, a
        return 0

    def h_add1(self, a, y):
        if self.taken is None:
            raise Unenc('the quotient is changed before the remainder')
        raise Done(a, self.lift(y))

    def binop(self, op, a, b):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op == 'i32.and' and (isinstance(a, int) or isinstance(b, int)):
                k, c = (a, b) if isinstance(a, int) else (b, a)
                return c if k == 1 else 0
        if op == 'i32.or' and (isinstance(a, int) or isinstance(b, int)):
            k, v = (a, b) if isinstance(a, int) else (b, a)
            if not isinstance(v, int):
                return v if k == 0 else self.A.var(1, M32)
        if op == 'i64.div_u' and not (isinstance(a, int) and isinstance(b, int)):
            x, y = self.lift(a), self.lift(b)
            q = self.A.var(0, x.hi // max(1, y.lo))
            self.facts.append((x, y, q))
            return self.low(q)
        return AlgMachine.binop(self, op, a, b)


def round_of(F, eX, eY, cov, timeout_ms=20000):
    """None, or what is not implied in one round"""
    todo = [[]]
    while todo:
        ch = todo.pop()
        A = Alg()
        M = DivMachine(F, A, list(ch))
        n = M.n
        ax, ay, ac, ar = F.top, F.top + 64, F.top + 128, F.top + 192
        for base, e, low in ((ax, eX, 7), (ay, eY, 3)):
            for k in range(n):
                if k <= e:
                    M.by[base + k] = A.var(1 if k == e and e > low else 0, 255)
        X, Y = M.number(ax), M.number(ay)
        fin = None
        try:
            M.call('$Fr_int_div', ax, ay, ac, ar)
        except Done as d:
            fin = d.args
        except wat.Trap as t:
            if t.code != 'div':
                raise
            fin = 'trap'
        for k in range(len(ch), M.used):
            todo.append(M.choices[:k] + [not M.choices[k]])
        cov['paths'] += 1
        if len(M.pc) > 60:
            raise Unenc('too many decisions in one round')
        s = z3.Solver()
        s.set('timeout', timeout_ms)
        names = {}

        def iv(m):
            if m not in names:
                names[m] = z3.Int('m' + '_'.join(map(str, m)))
                s.add(names[m] >= A.range[m[0]][0], names[m] <= A.range[m[0]][1])
            return names[m]
        L = lambda p: lin(p, iv)
        s.add(L(Y) >= 1)
        for v, k, ln, hn in A.splits:
            s.add(L(v) == iv((ln,)) + (1 << k) * iv((hn,)))
        for (o, a, b), t in M.pc:
            c = {'ge': L(a) >= L(b), 'gt': L(a) > L(b), 'eq': L(a) == L(b)}[o]
            s.add(c if t else z3.Not(c))
        if fin == 'trap':
            goal = z3.BoolVal(False)
        elif fin is None:
            # the loop is left: the remainder is below the divisor
            goal = z3.And(L(M.number(ar)) < L(Y), z3.BoolVal(True))
            if M.number(ar) != X:
                raise Unenc('the remainder is changed in the last round')
        else:
            addr, q = fin
            base, y, f = M.prod
            ec = M.taken
            if M.rr != ar or padd(f.p, q.p, -1) or padd(y, Y, -1) or addr - ac != ec:
                goal = z3.BoolVal(False)
            else:
                qy = z3.Int('q*y')
                if set(q.p) <= {()}:
                    s.add(qy == q.p.get((), 0) * L(Y))
                for k, (x, d, q0) in enumerate(M.facts):
                    p3 = z3.Int('q0*d%d' % k)
                    s.add(p3 <= L(x.p), L(x.p) < p3 + L(d.p), p3 >= 0)
                    p2 = z3.Int('q*d%d' % k)
                    s.add(p2 >= 0)
                    # products of what is ordered are ordered
                    for m in range(0, 8 * n, 8):
                        s.add(z3.Implies(L(Y) <= (1 << m) * L(d.p), qy <= (1 << m) * p2))
                        if m <= 64:
                            s.add(z3.Implies((1 << m) * L(q.p) <= L(q0.p), (1 << m) * p2 <= p3))
                goal = z3.And(L(q.p) >= 1, L(q.p) < 1 << 32, (1 << 8 * ec) * qy <= L(X))
        s.add(z3.Not(goal))
        r = s.check()
        cov['queries'] = cov.get('queries', 0) + 1
        if r != z3.unsat:
            return 'round with highest bytes %d and %d, choices %s: %s' % (eX, eY, M.choices, r)
    return None


# the inverse -----------------------------------------------------------------------------------
def mul(a, b):
    t = {}
    for m, c in a.items():
        for k, d in b.items():
            x = tuple(sorted(m + k))
            t[x] = t.get(x, 0) + c * d
    return {m: c for m, c in t.items() if c}


class InvMachine(wat.Machine):
    """numbers as integer polynomials in the quotients"""

    def __init__(self, F, rounds, choices):
        wat.Machine.__init__(self, F.mod, 200000)
        self.F, self.rounds, self.choices, self.used = F, rounds, choices, 0
        self.reg, self.k, self.tested = {}, 0, 0
        for h in ('copy', 'zero', 'one', 'isZero', 'gte', 'sub', 'add', 'mul', 'div'):
            self.hooks['$Fr_int_' + h] = getattr(self, 'h_' + h)

    def get(self, a):
        if a not in self.reg:
            n = 4 * self.F.n32
            v = int.from_bytes(self.mem[a:a + n], 'little')
            return {(): v} if v else {}
        return self.reg[a]

    def h_copy(self, s, d):
        self.reg[d] = self.get(s)

    def h_zero(self, d):
        self.reg[d] = {}

    def h_one(self, d):
        self.reg[d] = {(): 1}

    def h_isZero(self, a):
        if self.get(a) != {('r%d' % self.k,): 1}:
            raise Unenc('the loop tests something other than the last remainder')
        self.tested += 1
        return int(self.k == self.rounds)

    def h_gte(self, a, b):
        if self.used == len(self.choices):
            self.choices.append(True)
        t = self.choices[self.used]
        self.used += 1
        return int(t)

    def h_sub(self, a, b, r):
        self.reg[r] = padd(self.get(a), self.get(b), -1)
        return 0

    def h_add(self, a, b, r):
        self.reg[r] = padd(self.get(a), self.get(b))
        return 0

    def h_mul(self, a, b, r):
        self.reg[r] = mul(self.get(a), self.get(b))

    def h_div(self, x, y, c, r):
        k = self.k
        if self.get(x) != {('r%d' % (k - 1) if k else 'm',): 1} or self.get(y) != {('r%d' % k,): 1}:
            raise Unenc('the division of this round')
        self.k += 1
        if c:
            self.reg[c] = {('q%d' % k,): 1}
        if r:
            self.reg[r] = {('r%d' % self.k,): 1}


def inverse(F, rounds, cov):
    """None, or the choices with a wrong cofactor after this number of rounds"""
    todo = [[]]
    t, new = {}, {(): 1}
    for k in range(rounds):
        t, new = new, padd(t, mul({('q%d' % k,): 1}, new), -1)
    while todo:
        ch = todo.pop()
        M = InvMachine(F, rounds, list(ch))
        ax, am, ar = F.top, F.top + 64, F.top + 128
        M.reg[ax], M.reg[am] = {('r0',): 1}, {('m',): 1}
        M.call('$Fr_int_inverseMod', ax, am, ar)
        for k in range(len(ch), M.used):
            todo.append(M.choices[:k] + [not M.choices[k]])
        cov['paths'] += 1
        got = M.get(ar)
        d = padd(got, t, -1)
        if not d or d == {('m',): 1}:
            continue
        # not identical: is it equal for all quotients?
        vs = {}
        e = z3.Sum([z3.IntVal(c) * z3.Product([vs.setdefault(x, z3.Int(x)) for x in m]) if m else z3.IntVal(c) for m, c in d.items()])
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*[v >= 1 for v in vs.values()])
        m = z3.Int('m')
        s.add(e != 0, e != m)
        cov['queries'] = cov.get('queries', 0) + 1
        if s.check() != z3.unsat:
            return 'after %d rounds, choices %s' % (rounds, M.choices)
    return None
