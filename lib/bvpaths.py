"""Path exploration over z3 bit vectors by re-execution."""
import time
import z3


class Budget(Exception):
    pass


class Paths:
    def __init__(self, timeout_ms=20000, max_paths=20000, logic='QF_ABV'):
        self.logic = logic
        self.queries = self.ms = 0
        self.timeout_ms, self.max_paths = timeout_ms, max_paths
        self.unknown = 0

    def check(self, *extra):
        t = time.time()
        r = self.s.check(*extra)
        self.queries += 1
        self.ms += 1000 * (time.time() - t)
        if r == z3.unknown:
            self.unknown += 1
        return r

    def assume(self, c):
        self.s.add(c)
        self.pc.append(c)

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            t = self.check(c) != z3.unsat
            f = self.check(z3.Not(c)) != z3.unsat if t else True
            v = t
            if t and f:
                self.todo.append(self.prefix[:self.k] + [False])
            self.prefix.append(v)
        self.k += 1
        self.assume(c if v else z3.Not(c))
        return v

    def pick(self, x, limit=600):
        """the word as a number: one path for each of its values"""
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_long()
        if self.k < len(self.prefix):
            v = self.prefix[self.k]
        else:
            vals, ex = [], []
            while len(vals) <= limit and self.check(*ex) == z3.sat:
                v = self.s.model().eval(x, model_completion=True).as_long()
                vals.append(v)
                ex.append(x != v)
            if len(vals) > limit:
                raise Budget('a word with more than %d values' % limit)
            if not vals:
                raise Budget('no value')
            for w in vals[1:]:
                self.todo.append(self.prefix[:self.k] + [w])
            v = vals[0]
            self.prefix.append(v)
        self.k += 1
        self.assume(x == z3.BitVecVal(v, x.size()))
        return v

    def run(self, fn):
        """(path condition, result or exception) of every path"""
        self.todo = [[]]
        n = 0
        while self.todo:
            self.prefix = self.todo.pop()
            self.k, self.pc = 0, []
            self.s = z3.SolverFor(self.logic)
            self.s.set('timeout', self.timeout_ms)
            r = fn()
            n += 1
            if n > self.max_paths:
                raise Budget('paths')
            yield r

    def valid(self, c):
        """(True, None) if c holds on the whole path, else (False, model)"""
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return True, None
        r = self.check(z3.Not(c))
        if r == z3.unsat:
            return True, None
        if r == z3.unknown:
            raise Budget('solver timeout')
        return False, self.s.model()
