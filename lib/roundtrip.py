"""C29: what the r1cs writer writes, the r1cs reader reads back."""
import json, os, random, re, shutil, subprocess, tempfile, time
import multiprocessing as mp
import z3
from . import build, bvpaths, llvm, suite
from .wat import Trap, Unenc

CW = 'constraint_writers/src/'
ENG = os.path.join(build.VERIF, 'engine', 'r1cs')


# capacities of the models for larger files: a constraint of many terms; many constraints and wires
LARGE = {2: dict(FCAP=16384, BYTES=3200, ITEMS=264, TRIPLES=1, KEYS=264), 3: dict(FCAP=32768, ITEMS=304, TRIPLES=264, KEYS=4)}


def sources(native, large=None):
    out = {}
    for f in ('writer', 'reader'):
        t = open(os.path.join(build.REPO, CW + 'r1cs_%s.rs' % f)).read()
        if f == 'reader':
            t += open(os.path.join(ENG, 'access.txt')).read().replace('READ', 'read_r1cs(&p)' if native else 'read_r1cs("")')
        if not native:
            t = 'use crate::model::prelude::*;\n' + t.replace('.to_vec()', '.to_vec_()').replace('.to_string()', '.to_string_()').replace('.to_owned()', '.to_string_()')
        out[f + '.rs'] = t
    for f in ('scenario.rs',) + (('replay.rs',) if native else ('model.rs', 'lib.rs')):
        out[f] = open(os.path.join(ENG, f)).read()
    for k, n in LARGE.get(large, {}).items():
        out['model.rs'] = re.sub(r'(pub const %s: usize) = \d+' % k, r'\1 = %d' % n, out['model.rs'])
    return out


def ir(d, large=None):
    for f, t in sources(False, large).items():
        open(os.path.join(d, f), 'w').write(t)
    r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '-C', 'opt-level=1', '-C', 'panic=abort', '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp',
                        '-C', 'codegen-units=1', '--emit=llvm-ir', '-A', 'warnings', '-o', 'r.ll', 'lib.rs'], cwd=d, capture_output=True, text=True, env=dict(build.cargo_env()))
    return (llvm.Module(open(os.path.join(d, 'r.ll')).read()), None) if r.returncode == 0 else (None, r.stderr[-600:])


class Skip(Exception):
    pass


class Fail(Exception):
    pass


class Case:
    """args: chosen numbers; wb: bytes of the k-th unknown word (default), bb: significant bytes of the k-th unknown number"""

    def __init__(self, name, which, args, wb, bb):
        self.name, self.which, self.args, self.wb, self.bb = name, which, args, wb, bb


def width(k, case):
    """the number of bytes the format has for word k"""
    if case.which == 0:
        return 8 if k == 4 else 4
    return 8 if 60 <= k < 70 or 80 <= k < 90 or k == 94 else 4


def execute(mod, case, P, known):
    """one path: returns None or the line of the failed comparison"""
    X = llvm.Exec(mod, llvm.BV(P), 400000000)
    al = X.alloc
    X.alloc = lambda name, size, fill=None: al(name, size, 0)
    vals = {}

    def word(k):
        if ('w', k) not in vals:
            n = case.wb.get(k, 1)
            v = z3.BitVec('w%d' % k, 8 * n)
            if n > 1:
                P.assume(z3.Extract(8 * n - 1, 8 * n - 8, v) != 0)
            if case.which == 1 and k < 30:  # the wires of one linear combination differ
                for j in range(k // 10 * 10 + k % 10 // 3 * 3, k):
                    if ('w', j) in vals:
                        o = vals['w', j]
                        P.assume(z3.ZeroExt(64 - v.size(), v) != (o if o.size() == 64 else z3.ZeroExt(64 - o.size(), o)))
            vals['w', k] = v
        v = vals['w', k]
        return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)

    def byte(k):
        if k >= 9000:
            if ('b', k) not in vals:
                vals['b', k] = z3.BitVec('b%d' % k, 8)
                P.assume(vals['b', k] != 0)
                P.assume(z3.ULT(vals['b', k], 128))
            return vals['b', k]
        n = case.bb.get(k // 100, 1)
        if k % 100 >= n:
            return 0
        if ('b', k) not in vals:
            vals['b', k] = z3.BitVec('b%d' % k, 8)
            if n > 1 and k % 100 == n - 1:
                P.assume(vals['b', k] != 0)
        return vals['b', k]

    def stop(e):
        raise e
    X.hooks.update({'@vp_word': word, '@vp_byte': byte, '@vp_arg': lambda k: case.args.get(k, 0), '@vp_skip': lambda: stop(Skip()),
                    '@vp_fail': lambda l: stop(Fail(l))})
    for d in mod.decls:
        if 'panic' in d or 'unwrap_failed' in d or 'index_fail' in d or 'expect_failed' in d:
            X.hooks[d] = lambda *a, d=d: stop(Fail('panic: ' + re.sub(r'.*?(\d+)((?:panic|unwrap|expect|slice)\w*)$', r'\2', d)))
    try:
        X.call('@vp_run', min(case.which, 2))
        res = None
    except Skip:
        res = 'skip'
    except Fail as e:
        res = e.args[0]
    except Trap as e:
        res = 'memory: ' + ' '.join(map(str, e.args))
    known.update(X.calls)
    if res in (None, 'skip'):
        return res, None
    if P.check() != z3.sat:
        return None, None
    m = P.s.model()
    ev = lambda v: m.eval(v, model_completion=True).as_long()
    lines = ['a%d %d' % kv for kv in case.args.items()] + ['a99 %d' % min(case.which, 2)] + ['%s%d %d' % (k[0], k[1], ev(v)) for k, v in vals.items()]
    return res, '\n'.join(lines) + '\n'


MOD = None


def unit(a):
    case, limit = a
    t0 = time.time()
    P = bvpaths.Paths(20000, 2000, 'QF_BV')
    out = dict(name=case.name, paths=0, complete=0, bad=[], why=None)
    calls = set()
    try:
        for res, model in P.run(lambda: execute(MOD[case.which if case.which > 1 else 0], case, P, calls)):
            out['paths'] += 1
            out['complete'] += res is None
            if model is not None:
                out['bad'].append((str(res), model))
                break
            if time.time() - t0 > limit:
                out['why'] = 'time'
                break
    except (Unenc, bvpaths.Budget) as e:
        out['why'] = '%s: %s' % (type(e).__name__, e)
    except Exception as e:
        out['why'] = 'internal: %r' % (e,)
    if not out['bad'] and not out['why'] and not out['complete']:
        out['why'] = 'no path reaches the end'
    out.update(queries=P.queries, ms=int(P.ms), wall=round(time.time() - t0, 1), calls=sorted(calls))
    return out


def cases(thorough, seed):
    R = random.Random(seed)
    out = [Case('terms%d.%d.%d' % (nb, a, c), 2, {0: nb, 1: 1, 2: a, 3: c, 5: 3}, {60: 8}, {0: nb, 1: nb, 2: nb})
           for nb, a, c in [(8, 260, 1), (8, 1, 258), (8, 17, 20)] + ([(8, 256, 257)] if thorough else [])]
    out += [Case('many%d.%d.%d' % (nb, n, w), 3, {0: nb, 1: n, 2: 2, 3: 1, 5: w}, {60: 8}, {0: nb, 1: nb, 2: nb})
            for nb, n, w in [(8, 20, 300), (8, 260, 20)]]
    for nb in (32, 8) + ((16, 24) if thorough else ()):
        # header: every word over its whole width, one after the other, then drawn together
        full = {k: width(k, Case('', 0, {}, {}, {})) for k in range(6)}
        for k in range(6):
            for n in range(1, full[k] + 1):
                out.append(Case('header%d.w%d.%d' % (nb, k, n), 0, {0: nb}, dict(full, **{k: n}) if False else {**full, k: n}, {0: nb}))
        for n in range(1, nb + 1):
            out.append(Case('header%d.field%d' % (nb, n), 0, {0: nb}, full, {0: n}))
        shapes = [dict(zip(range(1, 12), s)) for s in
                  [(1, 2, 1, 0, 1, 0, 0), (2, 1, 1, 2, 2, 0, 0), (0, 0, 0, 0, 2, 0, 0), (1, 0, 0, 0, 0, 0, 0), (2, 1, 2, 1, 3, 1, 0), (3, 1, 0, 1, 1, 0, 0), (1, 2, 2, 1, 1, 0, 0),
                   (1, 1, 1, 1, 1, 0, 2, 2, 1, 1, 1), (0, 0, 0, 0, 1, 0, 3, 1, 2, 2, 2), (1, 1, 0, 0, 2, 0, 2, 3, 0, 2, 1), (0, 0, 0, 0, 1, 0, 1, 0, 0, 0, 0),
                   (1, 0, 1, 1, 1, 1, 2, 0, 1, 1, 2), (1, 1, 0, 1, 1, 0, 2, 1, 1, 0, 0), (1, 1, 0, 1, 1, 0, 1, 0, 0, 1, 2)]]
        for q, s in enumerate(shapes):
            a = {0: nb, **s}
            one = Case('', 1, a, {}, {})
            ws = sorted(words(a))
            bs = sorted(numbers(a))
            full = {k: width(k, one) for k in ws}
            fullb = {k: nb for k in bs}
            nm = 'file%d.%d' % (nb, q)
            out.append(Case(nm + '.full', 1, a, full, fullb))
            out.append(Case(nm + '.one', 1, a, {k: 1 for k in ws}, {k: 1 for k in bs}))
            for j in range(12 if thorough else 3):
                out.append(Case('%s.drawn%d' % (nm, j), 1, a, {k: R.randint(1, full[k]) for k in ws}, {k: R.randint(1, nb) for k in bs}))
            if thorough or q in (0, 7, 8):
                for k in ws:
                    for n in range(1, full[k]):
                        out.append(Case('%s.w%d.%d' % (nm, k, n), 1, a, {**full, k: n}, fullb))
                for k in bs:
                    for n in (range(1, nb) if thorough or nb == 8 else (1, 2, nb // 2, nb - 1)):
                        out.append(Case('%s.n%d.%d' % (nm, k, n), 1, a, full, {**fullb, k: n}))
    return out


def words(a):
    g = a.get
    t = [g(2, 0), g(3, 0), g(4, 0)]
    w = {10 * i + 3 * j + e for i in range(g(1, 0)) for j in range(3) for e in range(t[(i + j) % 3])}
    w |= {60 + i for i in range(g(5, 0))} | {91, 92, 93, 94}
    if g(7, 0):
        w |= {70 + i for i in range(g(10, 0))} | {80 + 4 * i + j for i in range(g(10, 0)) for j in range(g(11, 0))}
    return w


def numbers(a):
    g = a.get
    t = [g(2, 0), g(3, 0), g(4, 0)]
    b = {10 * i + 3 * j + e for i in range(g(1, 0)) for j in range(3) for e in range(t[(i + j) % 3])} | {50}
    if g(7, 0):
        b |= {40 + 3 * i + j for i in range(g(7) - 1) for j in range(g(9, 0))}
    return b


def native():
    d = os.path.join(build.BUILD, 'r1cs_replay')
    os.makedirs(d, exist_ok=True)
    for fn, t in sources(True).items():
        build.write_if_changed(os.path.join(d, fn), t)
    build.write_if_changed(os.path.join(d, 'Cargo.toml'), '[package]\nname = "r1cs_replay"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[[bin]]\nname = "r1cs_replay"\npath = "replay.rs"\n'
                           '[dependencies]\ncircom_algebra = { path = "%s/circom_algebra" }\n' % build.REPO)
    if not os.path.exists(os.path.join(d, 'Cargo.lock')):
        shutil.copy(os.path.join(build.REPO, 'Cargo.lock'), d)
    b = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, capture_output=True, text=True, env=dict(build.cargo_env(), CARGO_TARGET_DIR=os.path.join(d, 'target')))
    return (os.path.join(d, 'target/debug/r1cs_replay'), None) if b.returncode == 0 else (None, b.stderr[-500:])


def C29(thorough, seed):
    global MOD
    rep = suite.Report('C29', 'roundtrip')
    d = tempfile.mkdtemp(prefix='r1cs')
    cs, res = [], []
    try:
        MOD = {}
        for k in (0, 2, 3):
            MOD[k], err = ir(d, k)
            if err:
                break
        if err:
            rep.errors.append('the reader and writer do not compile with the models of the library types: ' + err)
        else:
            cs = cases(thorough, seed)
            t0 = time.time()
            with mp.Pool(os.cpu_count() or 4) as pool:
                for r in pool.imap_unordered(unit, [(c, 400 if c.which > 1 else 60) for c in cs], chunksize=1):
                    res.append(r)
                    if time.time() - t0 > (6000 if thorough else 600):
                        rep.errors.append('%d cases not run within the time limit' % (len(cs) - len(res)))
                        pool.terminate()
                        break
        exe = None
        for r in res:
            if r['why']:
                rep.errors.append('%s: inconclusive: %s' % (r['name'], r['why']))
            for what, model in r['bad'][:1]:
                if exe is None:
                    exe, e = native()
                    if e:
                        rep.errors.append('the replay program does not build: ' + e)
                        exe = False
                if not exe:
                    continue
                f = os.path.join(d, 'file.r1cs')
                p = subprocess.run([exe, f], input=model, capture_output=True, text=True, timeout=60)
                if p.returncode:
                    rep.violation(r['name'], 'roundtrip', 'what is read back differs from what was written: %s' % (p.stdout.strip() or p.stderr.strip()[-300:]),
                                  dict(files={'values.txt': model, 'file.r1cs.hex': open(f, 'rb').read().hex() if os.path.exists(f) else ''}, reproduced=True))
                else:
                    rep.errors.append('%s: the counterexample (%s) is not confirmed by the real code' % (r['name'], what))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    fns = sorted({x for r in res for x in r['calls']})
    rep.cov.update(skeletons_run=len(res), paths=sum(r['paths'] for r in res), extra_queries=sum(r['queries'] for r in res), extra_solver_ms=sum(r['ms'] for r in res),
                   functions_executed=len(fns))
    rep.assumptions = ['Vec, String, HashMap, BigInt, File, BufReader and BufWriter are replaced by bounded models (engine/r1cs/model.rs); maps iterate in insertion order',
                       'numbers fit their place in the format: coefficients and the prime the field size, counts and wires 4 bytes, labels 8; names of gates are ASCII without NUL']
    rep.explanation = ('r1cs_writer.rs and r1cs_reader.rs, compiled to LLVM code with models of the library types, write a file and read it back under symbolic execution; every '
                       'value of a given byte length at once; prime, field size, counts, coefficients, wires, wire map, gates, parameters and applications must be what was written')
    return rep.finish('other', dict(files='up to 3 constraints, 2 terms in each part, 3 wires, (two unknown coefficients) 260 terms, 260 constraints, 300 wires; 2 gates with 2 parameters, 2 applications with 2 signals; field sizes 8 and 32'
                                          + (', 16, 24' if thorough else ''), lengths='every byte length of one number with the others full, and drawn lengths of all',
                                    outside='larger files; numbers that do not fit their place'),
                      ['r1cs_writer.rs (all sections)', 'r1cs_reader.rs (read_r1cs and all sections)'])
