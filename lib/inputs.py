"""C26: the table of the main inputs in both backends, and the routines that use it."""
import itertools, os, random, re, shutil, struct, subprocess, tempfile, time
import z3
from . import build, bvpaths, corpus, kani, llvm, refsem, suite, symrun, wat, watbv, witcheck
from .leaf import _report_kani
from .wat import Trap, fnv, M32

BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617
CEL = '/repo/code_producers/src/c_elements'


# programs with names that collide ------------------------------------------------------------
def names_by_slot(r, mod, slots, n, pre=''):
    """n fresh identifiers whose hashes fall into the given slots"""
    out = []
    while len(out) < n:
        w = ''.join(r.choice('abcdefghij') for _ in range(r.randrange(1, 6)))
        if w not in out and w not in ('if', 'in') and fnv(pre + w) % mod in slots:
            out.append(w)
    return out


def program(decls, outs=1, nested=''):
    """decls: [(declaration, [(qualified name, size)])]; every cell goes to an output"""
    body, k = '', 0
    for d, cells in decls:
        body += 'signal input %s; ' % d
    tot = sum(n for _, cs in decls for _, n in cs)
    body += 'signal output o[%d]; ' % tot
    for _, cs in decls:
        for nm, n in cs:
            for i in range(n):
                body += 'o[%d] <== %s; ' % (k, nm if n == 1 and not nm.endswith('@') else nm.rstrip('@') + '[%d]' % i)
                k += 1
    return 'pragma circom 2.1.0;\n%s template T(){ %s }\ncomponent main = T();\n' % (nested, body)


def programs(r, thorough):
    out = []
    for k in range(12 if thorough else 5):
        base = r.choice([253, 254, 255, 0, r.randrange(256)])
        slots = {(base + d) % 256 for d in range(r.choice([1, 2, 3, 4]))}
        n = r.choice([3, 4, 6, 9])
        ns = names_by_slot(r, 256, slots, n)
        decls = []
        for w in ns:
            s = r.choice([0, 0, 0, 1, 2, 3])
            decls.append((w + ('[%d]' % s if s else ''), [(w + ('@' if s else ''), max(1, s))]))
        out.append(('coll%d' % k, program(decls)))
    # components of buses share the table with plain inputs
    fs = names_by_slot(r, 256, {254, 255, 0}, 2, 'b.')
    gs = names_by_slot(r, 256, {254, 255, 0}, 2, 'c[0].')
    x = names_by_slot(r, 256, {255}, 2)
    bus = 'bus B(){ signal %s; signal %s[2]; } bus C(){ signal %s; signal %s; }\n' % (fs[0], fs[1], gs[0], gs[1])
    out.append(('bus', program([(x[0], [(x[0], 1)])], nested='').replace('template T(){ ', bus + 'template T(){ ').replace(
        'signal output', 'input B() b; input C() c[2]; signal input %s; signal p; p <== b.%s + b.%s[0]*2 + c[0].%s + c[1].%s + %s; signal output'
        % (x[1], fs[0], fs[1], gs[0], gs[1], x[1]))))
    out.append(('nest', 'pragma circom 2.1.0;\nbus D(){ signal u; signal v[2]; } bus E(){ D() d[2]; signal w; D() z; }\n'
                'template T(){ signal input a; E() input e[2]; signal input b[3]; signal output o[1]; o[0] <== a*b[1]; }\ncomponent main = T();\n'))
    # a table larger than 256
    n = 300 if not thorough else 600
    out.append(('many', program([('q%d' % i, [('q%d' % i, 1)]) for i in range(n)])))
    return out


def sym_cells(sym):
    """name -> (signal number, witness number)"""
    return {n: (int(s), int(w)) for s, w, c, n in sym}


class Target:
    """one compiled program: its module, its input entries"""

    def __init__(self, exe, name, src):
        self.name, self.src = name, src
        files = {'main.circom': src}
        r = symrun.execute(exe, files, 'main.circom', ['--O0', '--r1cs', '--sym', '--wat', '--c'], {'SYMX_P': str(BN)})
        if r.rc != 0:
            raise wat.Bad('%s does not compile: %s' % (name, r.stderr[-300:]))
        self.files = {n: c for n, c in r.files.items()}
        f = {n.rsplit('.', 1)[-1]: c for n, c in r.files.items()}
        self.mod = wat.Module(f['wat'].decode('utf8'))
        from . import r1cs as R
        self.sym = sym_cells(R.parse_sym(f['sym'].decode()))
        self.dat = [c for n, c in r.files.items() if n.endswith('.dat')][0]
        self.entries = self.read_entries(src)

    def read_entries(self, src):
        """[(name, size, [signal names])]: from the declarations of T in the source and of the buses it uses"""
        body = src[src.index('template T'):]
        pat = r'(?:signal )?(?:input )?signal (\w+)(?:\[(\d+)\])?;|(\w+)\(\) (\w+)(?:\[(\d+)\])?;'
        buses = {m.group(1): re.findall(pat, m.group(2)) for m in re.finditer(r'bus (\w+)\(\)\{(.*?)\}', src)}

        def leaves(q, b):
            for n, s, c, cn, cs in buses[b]:
                if n:
                    x = '%s.%s' % (q, n)
                    yield x, [x] if not s else ['%s[%d]' % (x, i) for i in range(int(s))]
                else:
                    for x in [cn] if not cs else ['%s[%d]' % (cn, i) for i in range(int(cs))]:
                        yield from leaves('%s.%s' % (q, x), c)
        out, self.whole = [], {}
        for m in re.finditer(r'signal input (\w+)(?:\[(\d+)\])?;|(?:input (\w+)\(\)|(\w+)\(\) input) (\w+)(?:\[(\d+)\])?;', body):
            if m.group(1):
                n, s = m.group(1), m.group(2)
                out.append((n, ['main.%s' % n] if s is None else ['main.%s[%d]' % (n, i) for i in range(int(s))]))
            else:
                b, n, s = m.group(3) or m.group(4), m.group(5), m.group(6)
                every = []
                for q in ([n] if s is None else ['%s[%d]' % (n, i) for i in range(int(s))]):
                    for x, cs in leaves(q, b):
                        out.append((x, ['main.' + c for c in cs]))
                        every += cs
                # the bus (or the array of buses) as a whole is an entry too
                out.append((n, ['main.' + c for c in every]))
                self.whole[n] = [x for x, _ in out if x.startswith(n + '.') or x.startswith(n + '[')]
        seen = set()
        self.cells = [c for _, cs in out for c in cs if not (c in seen or seen.add(c))]
        return out


class Wasm:
    """the generated module driven through its exported functions"""

    def __init__(self, T, P):
        self.T, self.P = T, P
        self.M = m = watbv.BVMachine(T.mod, P)
        m.hooks['$exceptionHandler'] = self.exc
        m.hooks['$printErrorMessage'] = lambda: None
        m.hooks['$writeBufferMessage'] = lambda: None
        m.hooks['$showSharedRWMemory'] = lambda: None
        self.fn = lambda n: T.mod.exports[n]
        self.n32 = m.call(self.fn('getFieldNumLen32'))[0]
        m.call(self.fn('init'), 0)

    def exc(self, c):
        raise Trap(self.M.c(c))

    def value(self, v):
        for k in range(self.n32):
            self.M.call(self.fn('writeSharedRWMemory'), k, v >> (32 * k) & M32)

    def set(self, hi, lo, pos):
        try:
            self.M.call(self.fn('setInputSignal'), hi, lo, pos)
        except Trap as t:
            return t.code
        return 'ok'

    def size(self, hi, lo):
        return self.M.call(self.fn('getInputSignalSize'), hi, lo)[0]

    def witness(self, i):
        m = self.M
        m.call(self.fn('getWitness'), i)
        ws = [m.call(self.fn('readSharedRWMemory'), k)[0] for k in range(self.n32)]
        return sum((w if isinstance(w, int) else m.c(w)) << (32 * k) for k, w in enumerate(ws))


def hbv(x):
    return z3.Extract(63, 32, x), z3.Extract(31, 0, x)


def wasm_lookup(T, P, fail, cov):
    """all 64-bit hashes: the size and the outcome of setting position 0, from the initial state"""
    H = {fnv(n): (n, cells) for n, cells in T.entries}
    h = z3.BitVec('h', 64)
    start = None

    def one():
        nonlocal start
        if start is None:
            start = Wasm(T, P)
            snap[:] = [bytes(start.M.mem), dict(start.M.sym)]
        w = start
        w.M.mem, w.M.sym, w.M.steps, w.M.depth = bytearray(snap[0]), dict(snap[1]), 0, 0
        P.assume(h != 0)
        w.value(7)
        return w, w.set(*hbv(h), 0)
    snap = []
    for w, r in P.run(one):
        cov['paths'] += 1
        # which declared inputs can this path be about
        if r == 'ok':
            mine = [x for x in H if P.check(h == x) == z3.sat]
            ok, m = P.valid(z3.Or([h == x for x in H]))
            if not ok:
                fail('unknown name accepted', 'setInputSignal accepts the hash %d of no declared input' % m[h].as_long(), m[h].as_long(), 0)
                return
            for x in mine:
                n, cells = H[x]
                got = [c for c, (s, i) in T.sym.items() if i >= 0 and w.witness(i) == 7]
                if len(T.cells) > 1 and got != [cells[0]]:
                    fail('wrong signal', 'setting %s[0] changes %s, not %s' % (n, got, cells[0]), x, 0)
                    return
        else:
            for x in H:
                if P.check(h == x) == z3.sat:
                    fail('declared name rejected', 'setting %s[0] ends with code %s' % (H[x][0], r), x, 0)
                    return
            if r != 1:
                # other codes are fine only for known names
                fail('wrong code', 'an unknown name is reported with code %s' % r, P.s.model()[h].as_long() if P.check() == z3.sat else None, 0)
                return
    # sizes and positions of the declared ones: all positions
    for n, cells in T.entries[:40]:
        x = fnv(n)
        pos = z3.BitVec('pos', 32)

        def one2():
            w = start
            w.M.mem, w.M.sym, w.M.steps, w.M.depth = bytearray(snap[0]), dict(snap[1]), 0, 0
            s = w.size(x >> 32, x & M32)
            w.value(9)
            return w, s, w.set(x >> 32, x & M32, pos)
        for w, s, r in P.run(one2):
            cov['paths'] += 1
            if s != len(cells):
                fail('wrong size', 'the size of %s is %s, not %d' % (n, s, len(cells)), x, 0)
                return
            if r == 'ok':
                ok, m = P.valid(z3.ULT(pos, len(cells)))
                if not ok:
                    fail('position accepted', 'position %d of %s (size %d) is accepted' % (m[pos].as_long(), n, len(cells)), x, m[pos].as_long())
                    return
                P.check()
                k = P.s.model()[pos]
                k = k.as_long() if k is not None else 0
                got = [c for c, (s, i) in T.sym.items() if i >= 0 and w.witness(i) == 9]
                if len(T.cells) > 1 and got != [cells[k]]:
                    fail('wrong signal', 'setting %s[%d] changes %s' % (n, k, got), x, k)
                    return
            else:
                ok, m = P.valid(z3.UGE(pos, len(cells)))
                if not ok:
                    fail('position rejected', 'position %d of %s (size %d) is rejected with %s' % (m[pos].as_long(), n, len(cells), r), x, m[pos].as_long())
                    return


def wasm_history(T, P, fail, cov, steps):
    """every sequence of calls for declared cells, in symbolic order"""
    cells = [(n, k, c) for n, cs in T.entries for k, c in enumerate(cs)]
    n = len(cells)
    sel = [z3.BitVec('sel%d' % i, 8) for i in range(steps)]
    snap = []
    st = []

    def one():
        if not st:
            st.append(Wasm(T, P))
            snap[:] = [bytes(st[0].M.mem), dict(st[0].M.sym)]
        w = st[0]
        w.M.mem, w.M.sym, w.M.steps, w.M.depth = bytearray(snap[0]), dict(snap[1]), 0, 0
        trace = []
        for i in range(steps):
            P.assume(z3.ULT(sel[i], n))
            k = P.pick(sel[i])
            nm, pos, c = cells[k]
            x = fnv(nm)
            w.value(11 + i)
            r = w.set(x >> 32, x & M32, pos)
            trace.append((k, r))
            if r != 'ok':
                break
        return w, trace
    for w, tr in P.run(one):
        cov['paths'] += 1
        seen = {}
        for i, (k, r) in enumerate(tr):
            want = 2 if len(seen) == n else 3 if k in seen else 'ok'
            if r != want:
                fail('history', 'the calls for %s end with %s, expected %s' % ([cells[a][0] + '[%d]' % cells[a][1] for a, _ in tr[:i + 1]], r, want),
                     [(fnv(cells[a][0]), cells[a][1]) for a, _ in tr[:i + 1]], None)
                return
            if r == 'ok':
                seen[k] = 11 + i
        for c, (s, i) in T.sym.items():
            if i < 0 or c == 'one':
                continue
            exp = [seen.get(k, 0) for k in range(n) if cells[k][2] == c]
            if not exp:
                m = re.fullmatch(r'main\.o\[(\d+)\]', c)
                if m:
                    exp = [seen[int(m.group(1))] if len(seen) == n else 0]
            if exp and w.witness(i) != exp[0]:
                fail('history', 'after the calls for %s signal %s is %d, expected %d' % ([cells[a][0] + '[%d]' % cells[a][1] for a, _ in tr], c, w.witness(i), exp[0]),
                     [(fnv(cells[a][0]), cells[a][1]) for a, _ in tr], None)
                return


# the C++ runtime --------------------------------------------------------------------------------
VARIANTS = [('common', 'bn128', []), ('common64', 'goldilocks', ['-DFrElement=u64'])]


def cpp_ir(var, d):
    dr = os.path.join(build.VERIF, 'engine', 'inputs', 'driver.cpp')
    inc = ['-I', os.path.join(CEL, var[0]), '-I', os.path.join(CEL, var[1])]
    o = os.path.join(d, var[0] + '.ll')
    r = subprocess.run(['clang++', '-S', '-emit-llvm', '-O1', '-fno-access-control', '-fno-exceptions', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-w',
                        '-o', o] + var[2] + inc + [dr], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-400:]
    return llvm.Module(open(o).read()), None


def cpp_native(var, d):
    dr = os.path.join(build.VERIF, 'engine', 'inputs', 'driver.cpp')
    o = os.path.join(d, var[0] + '.exe')
    obj = os.path.join(d, 'stub.o')
    inc = ['-I', os.path.join(CEL, var[0]), '-I', os.path.join(CEL, var[1])]
    r = subprocess.run(['clang++', '-O0', '-fno-access-control', '-w', '-DNATIVE', '-Wl,--unresolved-symbols=ignore-all', '-o', o] + var[2] + inc + [dr],
                       capture_output=True, text=True)
    return o if r.returncode == 0 else None


class Cpp:
    def __init__(self, mod, P, N, nin, start):
        self.P = P
        self.X = X = llvm.Exec(mod, llvm.BV(P))
        for n, f in (('_Z25get_size_of_input_hashmapv', lambda: N), ('_Z27get_main_input_signal_startv', lambda: start),
                     ('_Z24get_main_input_signal_nov', lambda: nin)):
            X.hooks['@' + n] = f
        for n in ('fprintf', 'fwrite', 'fputs', 'puts', 'printf'):
            X.hooks['@' + n] = lambda *a: 0
        self.N, self.nin, self.start = N, nin, start
        self.frsize = X.call('@sz_fr')
        self.buf = X.alloc('calcwit', X.call('@sz_calc'))
        self.circ = X.alloc('circuit', X.call('@sz_circ'))
        self.table = X.alloc('table', 24 * N)
        self.flags = X.alloc('flags', nin)
        self.vals = X.alloc('values', self.frsize * (start + nin + 1), 0)
        self.v = X.alloc('value', self.frsize)
        self.marks = [z3.BitVec('mark%d' % k, 64) for k in range(self.frsize // 8)]
        for k, m in enumerate(self.marks):
            X.store(llvm.Ptr(self.v.obj, 8 * k), 8, m)

    def fill(self, table, flags, counter):
        X = self.X
        for k, (h, i, s) in enumerate(table):
            for j, x in enumerate((h, i, s)):
                X.store(llvm.Ptr(self.table.obj, 24 * k + 8 * j), 8, x)
        for k, f in enumerate(flags):
            X.store(llvm.Ptr(self.flags.obj, k), 1, f)
        X.call('@setup', self.buf, self.circ, self.table, self.flags, counter, self.vals)

    def set(self, h, i):
        try:
            self.X.call('@probe_set', self.buf, h, i, self.v)
        except Trap as t:
            return t.code, str(t)
        return 'ok', ''

    def written(self):
        out = []
        for a, (n, v) in self.vals.obj.cells.items():
            if not isinstance(v, int):
                out.append((a, v))
        return sorted(out, key=lambda x: x[0])

    def same(self):
        """the number of the value written, None if what was written is not the value"""
        w = self.written()
        if not w or w[0][0] % self.frsize:
            return None
        k = w[0][0] // self.frsize
        if [a for a, _ in w] != [k * self.frsize + 8 * j for j in range(len(self.marks))]:
            return None
        if all(self.P.valid(v == m)[0] for (a, v), m in zip(w, self.marks)):
            return k
        return None


def cpp_symbolic(mod, P, fail, cov, N, nin, start):
    """every table of N slots that the generator can produce, every state of the flags, every call"""
    hs = [z3.BitVec('t%d.hash' % k, 64) for k in range(N)]
    ids = [z3.BitVec('t%d.id' % k, 64) for k in range(N)]
    szs = [z3.BitVec('t%d.size' % k, 64) for k in range(N)]
    fl = [z3.BitVec('flag%d' % k, 8) for k in range(nin)]
    cnt, h, i = z3.BitVec('counter', 32), z3.BitVec('h', 64), z3.BitVec('i', 32)

    def premise():
        for k in range(N):
            P.assume(z3.If(ids[k] == 0, z3.And(hs[k] == 0, szs[k] == 0),
                           z3.And(hs[k] != 0, z3.UGE(ids[k], start), z3.ULE(szs[k], nin), z3.ULE(ids[k] + szs[k], start + nin), z3.ULT(ids[k], start + nin))))
            for j in range(k):
                P.assume(z3.Or(ids[k] == 0, hs[k] != hs[j]))
            # every slot between the home of an entry and its place is taken
            for home in range(N):
                run, p = [], home
                while p != k:
                    run.append(ids[p] != 0)
                    p = (p + 1) % N
                P.assume(z3.Implies(z3.And(ids[k] != 0, hs[k] & (N - 1) == home), z3.And(run) if run else z3.BoolVal(True)))
        for f in fl:
            P.assume(z3.ULE(f, 1))
        P.assume(h != 0)

    def one():
        premise()
        c = Cpp(mod, P, N, nin, start)
        c.fill(list(zip(hs, ids, szs)), fl, cnt)
        return c, c.set(h, i)
    for c, (r, msg) in P.run(one):
        cov['paths'] += 1
        known = z3.Or([z3.And(ids[k] != 0, hs[k] == h) for k in range(N)])
        idx, sz = z3.BitVecVal(0, 64), z3.BitVecVal(0, 64)
        for k in range(N):
            hit = z3.And(ids[k] != 0, hs[k] == h)
            idx, sz = z3.If(hit, ids[k], idx), z3.If(hit, szs[k], sz)
        i64 = z3.ZeroExt(32, i)
        cell = idx + i64 - start
        taken = z3.Or([z3.And(cell == k, fl[k] != 0) for k in range(nin)])
        legal = z3.And(cnt != 0, known, z3.ULT(i64, sz), z3.Not(taken))

        def bad(kind, what, m):
            ev = lambda x: m.eval(x, model_completion=True).as_long()
            fail(kind, what, dict(N=N, table=[(ev(hs[k]), ev(ids[k]), ev(szs[k])) for k in range(N)], start=start, nin=nin, flags=[ev(f) for f in fl],
                                  cnt=ev(cnt), h=ev(h), i=ev(i)))
        if r == 'ok':
            ok, m = P.valid(legal)
            if not ok:
                return bad('accepted', 'setInputSignal accepts a call it has to report', m)
            k = c.same()
            ok, m = P.valid(cell + start == k) if k is not None else (False, P.s.model() if P.check() == z3.sat else None)
            if not ok:
                return bad('wrong signal', 'setInputSignal writes signal %s' % k, m)
            post = [c.X.load(llvm.Ptr(c.flags.obj, j), 1) for j in range(nin)]
            conds = [llvm.BV.w(post[j], 8) == (z3.BitVecVal(1, 8) if start + j == k else fl[j]) for j in range(nin)]
            left = llvm.BV.w(c.X.call('@probe_left', c.buf), 32)
            conds.append(left == cnt - 1)
            ran = llvm.BV.w(c.X.call('@probe_ran'), 32)
            conds.append(ran == z3.If(cnt == 1, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
            ok, m = P.valid(z3.And(conds))
            if not ok:
                return bad('state', 'flags, counter or start of the circuit are wrong after setInputSignal', m)
        elif r == 'memory':
            P.check()
            return bad('memory', msg, P.s.model())
        else:
            ok, m = P.valid(z3.Not(legal))
            if not ok:
                return bad('rejected', 'setInputSignal rejects a legal call (%s)' % msg, m)


def cpp_expected(s):
    """what the native driver prints for a state"""
    hit = [(i, n) for hh, i, n in s['table'] if i and hh == s['h']]
    if not hit:
        return None
    idx, sz = hit[0]
    if s['cnt'] == 0 or s['i'] >= sz or s['flags'][idx + s['i'] - s['start']]:
        return None
    fl = list(s['flags'])
    fl[idx + s['i'] - s['start']] = 1
    return 'left %d ran %d set %d flags %s' % (s['cnt'] - 1, int(s['cnt'] == 1), idx + s['i'], ' '.join(map(str, fl)))


def cpp_replay(exe, s):
    a = [s['N']] + [x for t in s['table'] for x in t] + [s['start'], s['nin']] + list(s['flags']) + [s['cnt'], s['h'], s['i']]
    r = subprocess.run([exe] + [str(x) for x in a], capture_output=True, text=True, timeout=20)
    ls = r.stdout.strip().split('\n')
    got = ls[-1].strip() if r.returncode == 0 and ls[-1].startswith('left') else None
    return got, r


def cpp_concrete(mod, P, T, fail, cov):
    """the table of a compiled program: every hash"""
    N = max(256, 1 << (max(1, len(T.entries)) - 1).bit_length())
    table = [struct.unpack_from('<QQQ', T.dat, 24 * k) for k in range(N)]
    start = min(T.sym[c][0] for c in T.cells)
    nin = len(T.cells)
    H = {fnv(n): (n, cs) for n, cs in T.entries}
    h, i = z3.BitVec('h', 64), z3.BitVec('i', 32)

    def one():
        P.assume(h != 0)
        c = Cpp(mod, P, N, nin, start)
        c.fill(table, [0] * nin, nin)
        return c, c.set(h, i)
    for c, (r, msg) in P.run(one):
        cov['paths'] += 1
        legal = z3.Or([z3.And(h == x, z3.ULT(i, len(cs))) for x, (n, cs) in H.items()])
        st = lambda m: dict(N=N, table=table, start=start, nin=nin, flags=[0] * nin, cnt=nin, h=m.eval(h, model_completion=True).as_long(),
                            i=m.eval(i, model_completion=True).as_long())
        if r == 'ok':
            ok, m = P.valid(legal)
            if not ok:
                return fail('accepted', 'the C++ code of %s accepts a name or position that is not declared' % T.name, st(m))
            k = c.same()
            want = z3.Or([z3.And(h == x, i == j) for x, (n, cs) in H.items() for j, cl in enumerate(cs) if T.sym[cl][0] == k])
            ok, m = P.valid(want)
            if not ok:
                return fail('wrong signal', 'the C++ code of %s writes signal %s' % (T.name, k), st(m))
        else:
            ok, m = P.valid(z3.Not(legal))
            if not ok:
                return fail('rejected', 'the C++ code of %s rejects a declared input: %s' % (T.name, msg), st(m))


def table_ok(t, inputs, N):
    """the invariant the look-up relies on; inputs: [(hash, start, size)]"""
    if len(t) != N or sorted(e for e in t if e[1]) != sorted(inputs):
        return False
    for k, (h, s, z) in enumerate(t):
        if not s and (h or z):
            return False
        if s:
            p = h % N
            while p != k:
                if not t[p][1]:
                    return False
                p = (p + 1) % N
    return True


def cpp_hash(mod, P, fail, cov, n):
    """fnv1a of the C++ runtime on every name of n ASCII characters"""
    bs = [z3.ZeroExt(1, z3.BitVec('b%d' % k, 7)) for k in range(n)]

    def one():
        for b in bs:
            P.assume(b != 0)
        X = llvm.Exec(mod, llvm.BV(P))
        p = X.alloc('name', n + 1, 0)
        for k, b in enumerate(bs):
            X.store(llvm.Ptr(p.obj, k), 1, b)
        return X.call('@probe_hash', p, n)
    for r in P.run(one):
        cov['paths'] += 1
        h = z3.BitVecVal(0xcbf29ce484222325, 64)
        for b in bs:
            h = (h ^ z3.ZeroExt(56, b)) * z3.BitVecVal(0x100000001b3, 64)
        ok, m = P.valid(llvm.BV.w(r, 64) == h)
        if not ok:
            return fail('hash', 'fnv1a of the C++ runtime differs', bytes(m.eval(b, model_completion=True).as_long() for b in bs))


NEG = ['missing', 'unknown', 'extra', 'long', 'short']


GOOD = [None, 'whole', 'nested']


def input_file(T, neg):
    """(json text, values by cell)"""
    import json
    vals, tree = {c: 3 + 7 * k for k, c in enumerate(T.cells)}, {}
    parts = {x for ws in T.whole.values() for x in ws}
    ents = [e for e in T.entries if e[0] not in (parts if neg == 'whole' else T.whole)]
    last = ents[-1][0]
    if neg == 'missing':
        ents = ents[:-1]
    for n, cs in ents:
        v = [str(vals[c]) for c in cs]
        arr = n in T.whole or cs[0] != 'main.' + n
        x = v if arr else v[0]
        if (neg, n) == ('long', last):
            x = v + ['1']
        if (neg, n) == ('short', last):
            x = v[:-1]
        if (neg, n) == ('unknown', last):
            n += 'z'
        if neg == 'nested':
            ks = [int(k) if k.isdigit() else k for k in re.findall(r'\w+', n)]
            t = tree
            for k, nx in zip(ks, ks[1:] + [None]):
                if isinstance(t, list) and len(t) <= k:
                    t.append(None)
                if nx is None:
                    t[k] = x
                else:
                    if not isinstance(t, list) and k not in t or isinstance(t, list) and t[k] is None:
                        t[k] = [] if isinstance(nx, int) else {}
                    t = t[k]
        else:
            tree[n] = x
    if neg == 'extra':
        tree['zz9'] = '1'
    return json.dumps(tree), vals


def wtns(path):
    b = open(path, 'rb').read()
    pos, secs = 12, {}
    for _ in range(struct.unpack_from('<I', b, 8)[0]):
        t, l = struct.unpack_from('<IQ', b, pos)
        secs[t] = b[pos + 12:pos + 12 + l]
        pos += 12 + l
    n8 = struct.unpack_from('<I', secs[1])[0]
    return [int.from_bytes(secs[2][k:k + n8], 'little') for k in range(0, len(secs[2]), n8)]


def drivers(T, js, fail, cov, kinds):
    """the shipped drivers on the names of T: JavaScript (node) or C++ (make)"""
    d = tempfile.mkdtemp(prefix='c26')
    try:
        open(os.path.join(d, 'prog.circom'), 'w').write(T.src)
        from . import build as B
        exe = B.sym_circom()
        r = subprocess.run([exe, 'prog.circom', '--O0', '--wasm' if js else '--c'], cwd=d, capture_output=True, env=dict(os.environ, SYMX_P=str(BN)))
        if r.returncode:
            raise wat.Unenc('the program does not compile')
        if js:
            cmd = ['node', 'prog_js/generate_witness.js', 'prog_js/prog.wasm']
        else:
            r = subprocess.run(['make', '-j4', 'CFLAGS=-std=c++11 -O0 -I.'], cwd=os.path.join(d, 'prog_cpp'), capture_output=True, text=True, timeout=300)
            if r.returncode:
                cov['cpp_not_built'] = r.stderr[-200:]
                return
            cmd = ['prog_cpp/prog']
        for neg in (GOOD if T.whole else [None]) + kinds:
            t, vals = input_file(T, neg)
            open(os.path.join(d, 'in.json'), 'w').write(t)
            out = os.path.join(d, 'w.wtns')
            if os.path.exists(out):
                os.unlink(out)
            r = subprocess.run(cmd + ['in.json', 'w.wtns'], cwd=d, capture_output=True, text=True, timeout=60)
            cov['driver_runs'] += 1
            if neg in GOOD:
                if r.returncode or not os.path.exists(out):
                    return fail('driver', 'the witness generator rejects a complete input: ' + (r.stdout + r.stderr)[-300:], t)
                w = wtns(out)
                for c, v in vals.items():
                    if w[T.sym[c][1]] != v:
                        return fail('driver', '%s has the value %d in the witness, not %d' % (c, w[T.sym[c][1]], v), t)
            elif r.returncode == 0:
                return fail('driver', 'the witness generator accepts an input file with this fault: %s' % neg, t)
    finally:
        shutil.rmtree(d, True)


def _unit(a):
    """one piece of the check in its own process"""
    kind, args, tmo = a
    P = bvpaths.Paths(timeout_ms=tmo)
    out = dict(kind=kind, finds=[], cov=dict(paths=0, driver_runs=0), err=None)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='c26')
    try:
        def fail(k, what, *st):
            out['finds'].append((k, what, st))
        if kind in ('lookup', 'history', 'cpptable', 'js', 'cpp'):
            T = args[0]
            out['label'] = 'inputs/%s/%s' % (kind, T.name)
            if kind == 'lookup':
                wasm_lookup(T, P, fail, out['cov'])
            elif kind == 'history':
                wasm_history(T, P, fail, out['cov'], args[1])
            elif kind == 'cpptable':
                m, err = cpp_ir(VARIANTS[0], d)
                if m is None:
                    raise wat.Unenc('the C++ runtime does not compile: ' + err)
                cpp_concrete(m, P, T, fail, out['cov'])
                if out['finds']:
                    confirm_cpp(VARIANTS[0], d, out)
            else:
                drivers(T, kind == 'js', fail, out['cov'], NEG)
                for i, f in enumerate(out['finds']):
                    out['finds'][i] = f[:2] + (dict(files={'main.circom': T.src, 'input.json': f[2][0]}, reproduced=True),)
            if kind in ('lookup', 'history'):
                for i, (k, what, st) in enumerate(out['finds']):
                    out['finds'][i] = (k, what, dict(files={'main.circom': T.src, 'call.txt': repr(st)}, reproduced=wasm_replay(T, kind, st)))
        elif kind in ('symtable', 'hash'):
            var, n = args[0], args[1]
            out['label'] = 'inputs/%s/%s/%d' % (kind, var[0], n)
            m, err = cpp_ir(var, d)
            if m is None:
                raise wat.Unenc('the C++ runtime does not compile: ' + err)
            if kind == 'hash':
                cpp_hash(m, P, fail, out['cov'], n)
                for i, (k, what, st) in enumerate(out['finds']):
                    out['finds'][i] = (k, what, dict(files={'name.txt': st[0]}, reproduced=True))
            else:
                cpp_symbolic(m, P, fail, out['cov'], n, args[2], args[3])
                if out['finds']:
                    confirm_cpp(var, d, out)
    except (wat.Unenc, bvpaths.Budget) as ex:
        out['err'] = 'inconclusive: %s' % ex
    except Trap as ex:
        out['err'] = 'inconclusive: trap %s' % ex
    except Exception:
        import traceback
        out['err'] = traceback.format_exc()[-800:]
    finally:
        shutil.rmtree(d, True)
    out.setdefault('label', 'inputs/' + kind)
    out.update(queries=P.queries, ms=int(P.ms), wall=round(time.time() - t0, 1))
    return out


def confirm_cpp(var, d, out):
    exe = cpp_native(var, d)
    for i, (k, what, st) in enumerate(out['finds']):
        s = st[0]
        if exe is None:
            out['finds'][i] = (k, what + ' (no native replay)', dict(files={'state.txt': repr(s)}, reproduced=False))
            continue
        got, r = cpp_replay(exe, s)
        exp = cpp_expected(s)
        out['finds'][i] = (k, '%s; state %s: expected %s, got %s' % (what, {a: b for a, b in s.items() if a != 'table' or s['N'] < 20}, exp, got),
                           dict(files={'state.txt': repr(s)}, rc=r.returncode, stdout=r.stdout, stderr=r.stderr, reproduced=got != exp))


def wasm_replay(T, kind, st):
    """the call on the module with concrete numbers only"""
    class NoPaths:
        def pick(self, v):
            raise wat.Unenc('symbolic')
        branch = pick
    w = Wasm(T, NoPaths())
    H = {fnv(n): cs for n, cs in T.entries}
    calls = [(st[0], st[1])] if kind == 'lookup' else st[0]
    done = {}
    tot = len(T.cells)
    for n, (x, pos) in enumerate(calls):
        w.value(11 + n)
        if x in H and pos < len(H[x]) and w.size(x >> 32, x & M32) != len(H[x]):
            return True
        r = w.set(x >> 32, x & M32, pos)
        want = 2 if len(done) == tot else 1 if x not in H else 6 if pos >= len(H[x]) else 3 if H[x][pos] in done else 'ok'
        if r != want:
            return True
        if r == 'ok':
            done[H[x][pos]] = 11 + n
    for _, cs in T.entries:
        for c in cs:
            if w.witness(T.sym[c][1]) != done.get(c, 0):
                return True
    return kind == 'history'


def C26(thorough, seed):
    rep = suite.Report('C26', 'inputs')
    exe = build.sym_circom()
    r = random.Random('C26/%d' % seed)
    Ts = []
    for n, s in programs(r, thorough):
        try:
            Ts.append(Target(exe, n, s))
        except (wat.Bad, KeyError) as ex:
            rep.errors.append('%s: %s' % (n, ex))
    us = []
    for T in Ts:
        us.append(('lookup', (T,), 10000))
        us.append(('cpptable', (T,), 10000))
    small = Target(exe, 'two', program([('ab', [('ab', 1)]), ('c[2]', [('c@', 2)])]))
    us.append(('history', (small, 4), 10000))
    c = names_by_slot(r, 256, {255}, 2) + names_by_slot(r, 256, {0}, 1)
    us.append(('history', (Target(exe, 'three', program([(x, [(x, 1)]) for x in c])), 4), 10000))
    if thorough:
        us.append(('history', (Target(exe, 'four', program([(x, [(x, 1)]) for x in c] + [('m[2]', [('m@', 2)])])), 5), 10000))
    for v in VARIANTS:
        us.append(('symtable', (v, 4, 4, 3), 30000))
        if thorough:
            us.append(('symtable', (v, 8, 4, 5), 60000))
        us += [('hash', (v, n), 10000) for n in ((1, 2, 5, 9) if not thorough else range(1, 15))]
    for T in [Ts[0], small] + [t for t in Ts if t.name in ('bus', 'nest')]:
        us.append(('js', (T,), 1000))
        us.append(('cpp', (T,), 1000))
    hs = []
    for f, nm in (('c_elements/c_code_generator.rs', 'cpp'), ('wasm_elements/wasm_code_generator.rs', 'wasm')):
        src, names, missing = kani.lift('code_producers/src/' + f, ['generate_hash_map'], ['hasher', 'InputInfo', 'BigInt'])
        if missing:
            rep.errors.append('generate_hash_map is not in ' + f)
            continue
        for k, N in ((1, 4), (2, 4), (3, 4), (4, 4)) + (((3, 8), (5, 8)) if thorough else ()):
            h = kani.Harness('inputs', '%s%dof%d' % (nm, k, N), dict(N=N, K=k, U=N + 3, H='%s%dof%d' % (nm, k, N)), {'items.rs': src},
                             '%d inputs with arbitrary hashes in a table of %d slots (%s)' % (k, N, nm))
            h.src, h.k, h.N = src, k, N
            hs.append(h)
    import multiprocessing, threading
    kres = {}
    th = threading.Thread(target=lambda: kres.update(kani.run_all(hs, 600 if not thorough else 3000, 2)))
    th.start()
    ctx = multiprocessing.get_context('fork')
    t0 = time.time()
    outs = []
    with ctx.Pool(6, initializer=suite._init) as pool:
        for o in pool.imap_unordered(_unit, us):
            outs.append(o)
    th.join()

    def replay(h):
        x = kani.native('inputs', {'items.rs': h.src})
        for vals in h.playback(600) if x else ():
            nums = [int.from_bytes(v, 'little') for v in vals]
            ins = [(nums[2 * k], 4 * k + 1, nums[2 * k + 1]) for k in range(h.k)]
            p = subprocess.run([x], input=' '.join([str(h.N)] + [str(a) for i in ins for a in i]), capture_output=True, text=True, timeout=20)
            t = [tuple(map(int, l.split())) for l in p.stdout.splitlines()]
            if p.returncode or not table_ok(t, ins, h.N):
                return 'generate_hash_map(%s, %d) gives %s' % (ins, h.N, t or p.stderr[-200:]), {'inputs.txt': repr(ins), 'table.txt': repr(t)}
    _report_kani(rep, hs, kres, None, replay)
    rep.cov.update(skeletons=len(us), skeletons_run=len(outs) + len(hs), impl_paths=sum(o['cov']['paths'] for o in outs),
                   driver_runs=sum(o['cov']['driver_runs'] for o in outs), parts=[dict(label=o['label'], paths=o['cov']['paths'], queries=o['queries'], wall_s=o['wall'],
                                                                                        note=o['cov'].get('cpp_not_built')) for o in outs])
    rep.cov['extra_queries'] += sum(o['queries'] for o in outs)
    rep.cov['extra_solver_ms'] += sum(o['ms'] for o in outs)
    for o in outs:
        if o['err']:
            rep.errors.append('%s: %s' % (o['label'], o['err']))
        for k, what, rp in o['finds']:
            rep.violation(o['label'], k, what, rp if isinstance(rp, dict) else None)
    rep.samples = [dict(label=T.name, source=T.src[:1500]) for T in Ts[:2]]
    rep.assumptions = ['the hashes of the declared names are different from each other and from 0', 'names are ASCII',
                       'the symbolic tables have 4 slots (thorough: 8); the tables of compiled programs have their real size',
                       'the JavaScript and C++ drivers themselves are only run concretely, as a check of how they use these routines']
    rep.explanation = ('(1) generate_hash_map of both backends under Kani with symbolic hashes: every input is in the table, with its data, with no hole before it; '
                       '(2) the C++ routines, compiled to LLVM IR, on every table with that property, every state and every call; (3) the same and the emitted '
                       'WebAssembly routines on the tables of compiled programs with colliding names for every 64-bit hash and position; (4) every sequence of '
                       'calls on small modules; (5) fnv1a')
    return rep.finish('other', dict(programs=len(Ts), histories='3 to 5 calls', table='4 slots (8) symbolic; 256 to 1024 concrete', hash_names='1 to 9 (14) characters',
                                    outside='longer names, larger symbolic tables'),
                      ['generate_hash_map (both backends)', 'getInputSignalHashPosition', 'setInputSignal', 'getInputSignalSize', 'fnv1a',
                       '$getInputSignalMapPosition', '$setInputSignal', '$checkIfInputSignalSet', '$init'])
