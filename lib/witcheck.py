"""The witness generators against the source semantics: joint symbolic execution of the reference interpreter and of the
generated code over symbolic inputs."""
import os, random, re, time, traceback
from . import refsem, relcheck, suite, symrun, wat, cppwit
from . import r1cs as R
from .terms import Eng, Inconclusive, Smt, Stats, explore


def input_list(inst):
    """[(name as in the input file, [cells])]"""
    out = []

    def leaf(n):
        while isinstance(n, list):
            if not n:
                return True
            n = n[0]
        return not isinstance(n, dict)

    def rec(name, node):
        if leaf(node):
            out.append((name, refsem.flat(node)))
        elif isinstance(node, list):
            for i, x in enumerate(node):
                rec('%s[%d]' % (name, i), x)
        else:
            for k, x in node.items():
                rec('%s.%s' % (name, k), x)
    for n in inst.order:
        s = inst.sigs[n]
        if s.dir == 'input':
            rec(n, s.tree)
    return out


class Names:
    """impl witness index -> reference signal name"""

    def __init__(self, sym):
        self.name = {s: n for s, w, c, n in sym}


class WitJob:
    def __init__(self, skel, level, obl, model=None, budget_s=30, max_paths=200, timeout_ms=5000, p=17, backend='wasm', extra=(), sched='e'):
        self.skel, self.level, self.obl, self.model = skel, level, obl, model or {}
        self.budget_s, self.max_paths, self.timeout_ms, self.p = budget_s, max_paths, timeout_ms, p
        self.backend, self.extra, self.sched = backend, list(extra), sched

    def label(self):
        return '%s@%s/O%s%s' % (self.skel.name, self.backend + ('' if self.sched == 'e' else '.' + self.sched), self.level, ''.join(' ' + x for x in self.extra))

    def args(self):
        lv = {0: ['--O0'], 1: ['--O1'], 2: ['--O2'], 'r1': ['--O2round', '1'], 'r2': ['--O2round', '2'],
              'old': ['--O2', '--use_old_simplification_heuristics']}[self.level]
        return lv + ['--r1cs', '--sym', '--wat' if self.backend == 'wasm' else '--c'] + self.extra


def run_job(exe, job):
    t0 = time.time()
    out = dict(label=job.label(), findings=[], error=None, paths=0, ok=0, fails=0, skipped={}, values=0, sat=0, truncated=False,
               inconclusive=[], stats={}, calls=[], rejected=False)
    stats = Stats()
    try:
        files = {n: (t if isinstance(t, bytes) else symrun.subst_lits(t, job.model)) for n, t in job.skel.files.items()}
        prog = suite.program(files, job.skel.main)
        r = symrun.execute(exe, files, job.skel.main, job.args(), {'SYMX_P': str(job.p)})
        if r.rc == 1:
            out['rejected'] = True
        elif r.rc != 0:
            out['findings'].append(dict(kind='crash', what='circom ends with %s: %s' % (r.rc, relcheck.errline(r)), model={},
                                        files=files, replay=dict(reproduced=True)))
        else:
            check(job, prog, r, out, stats, t0, files)
    except Inconclusive as ex:
        out['inconclusive'].append(str(ex))
    except Exception:
        out['error'] = traceback.format_exc()[-1500:]
    out['stats'] = stats.as_dict()
    out['wall'] = time.time() - t0
    return out


def backend_run(job, be, eng, path, ops, ins):
    if job.backend == 'wasm':
        c = wat.Circuit(be, eng, path, ops)
        w = wat.calculate(c, ins)
        return w, c.calls
    return be.calculate(eng, path, ops, ins)


def check(job, prog, r, out, stats, t0, files):
    f = {n.rsplit('.', 1)[-1]: c for n, c in r.files.items() if n.endswith(('.r1cs', '.sym', '.wat'))}
    sym = R.parse_sym(f['sym'].decode())
    rc = R.parse_r1cs(f['r1cs'])
    if job.backend == 'cpp':
        try:
            be = cppwit.Program(r.files, job.sched, job.p)
        except wat.Bad as ex:
            if 'value' in job.obl:
                out['findings'].append(dict(kind='malformed', what=str(ex), model={}, replay=dict(
                    files=files, main=job.skel.main, args=job.args(), field=job.p, reproduced=True)))
            return
        try:
            return check_with(job, prog, be, sym, rc, out, stats, t0, files)
        finally:
            be.close()
    return check_with(job, prog, wat.Module(f['wat'].decode('utf8')), sym, rc, out, stats, t0, files)


def check_with(job, prog, be, sym, rc, out, stats, t0, files):
    eng = Eng(job.p)
    smt = Smt(eng, stats, job.timeout_ms)
    calls = set()

    want = {'value': ('value', 'malformed', 'endless', 'spuriousfail', 'wrongfail'), 'sat': ('sat', 'malformed'),
            'fail': ('nofail', 'spuriousfail', 'wrongfail', 'malformed', 'endless')}
    kinds = {k for o in job.obl for k in want[o]}

    def find(kind, what, m):
        if kind not in kinds:
            return
        out['findings'].append(dict(kind=kind, what=what, model=showm(m), files=files, p=job.p,
                                    replay=dict(reproduced=True)))
    gen = explore(eng, smt, [], [{}], lambda path: joint(job, prog, be, eng, path, calls), max_paths=100000)
    for path, res in gen:
        out['paths'] += 1
        judge(job, eng, smt, path, res, out, sym, rc, find)
        if out['findings']:
            break
        if time.time() - t0 > job.budget_s or out['paths'] >= job.max_paths:
            out['truncated'] = True
            break
    out['calls'] = sorted(calls)
    for f in out['findings']:
        f['replay'] = replay(job, prog, be, f, sym, rc)


def replay(job, prog, be, f, sym, rc):
    """the same generated code and the reference run on the concrete input values of the model"""
    rep = dict(files=f.pop('files'), main=job.skel.main, args=job.args(), field=f.pop('p'), reproduced=False)
    vals = {k[4:]: v for k, v in f['model'].items() if k.startswith('sig.')}
    out = dict(findings=[], skipped={}, ok=0, fails=0, values=0, sat=0)
    try:
        eng = ConcreteEng(job.p, vals)
        stats = Stats()
        smt = Smt(eng, stats, job.timeout_ms)
        for path, res in explore(eng, smt, [], [{}], lambda path: joint(job, prog, be, eng, path, set()), max_paths=4):
            judge(job, eng, smt, path, res, out, sym, rc,
                  lambda kind, what, m: out['findings'].append(dict(kind=kind, what=what)))
            break
        rep['concrete'] = out['findings']
        rep['reproduced'] = any(x['kind'] == f['kind'] for x in out['findings'])
        rep['inputs'] = vals
    except Exception:
        rep['concrete_error'] = traceback.format_exc()[-1200:]
    return rep


def joint(job, prog, be, eng, path, calls):
    ops = refsem.Ops(eng, path)
    skip = None
    try:
        it = refsem.Interp(prog, eng, path, 'wit')
        it.run_main()
        ref = ('ok', it)
    except refsem.RuntimeFail as ex:
        ref = ('fail', ex.code)
    except refsem.Reject as ex:
        return ('skip', 'reference: ' + ex.code)
    except refsem.Unsupported as ex:
        return ('skip', 'reference: %s' % ex)
    # the interface is known from the declaration, whatever the outcome
    ins = [(n, [eng.sym(('sig', c.name)) for c in cs]) for n, cs in input_list(it.insts[0])]
    try:
        w, used = backend_run(job, be, eng, path, ops, ins)
        calls.update(used)
        imp = ('ok', w)
    except wat.Trap as ex:
        imp = ('fail', ex.code, str(ex))
    except refsem.Reject as ex:
        return ('skip', 'generated code: ' + ex.code)
    except wat.Unenc as ex:
        if str(ex) == 'step budget' and it.steps < 400 or str(ex) == 'call depth' and it.steps < 200:
            imp = ('endless', 'the source program ends after %d statements, the generator runs on' % it.steps)
        else:
            return ('skip', 'generated code: %s' % ex)
    except wat.Bad as ex:
        imp = ('bad', str(ex))
    return ('run', ref, imp, it)


def judge(job, eng, smt, path, res, out, sym, rc, find):
    if res[0] == 'skip':
        out['skipped'][res[1]] = out['skipped'].get(res[1], 0) + 1
        return
    _, ref, imp, it = res
    m0 = path.models[0] if path.models else None
    if m0 is None:
        m0 = smt.check(path.conds())
    if imp[0] in ('bad', 'endless'):
        find('malformed' if imp[0] == 'bad' else 'endless', imp[1], m0)
    elif ref[0] == 'fail' and imp[0] == 'fail':
        out['fails'] += 1
        if imp[1] != 4 and imp[1] != 'assert':
            find('wrongfail', 'the generator fails with %s instead of an assertion failure' % (imp[1:],), m0)
    elif ref[0] == 'fail':
        out['fails'] += 1
        find('nofail', 'a violated %s does not stop the generator' % ref[1].lower(), m0)
    elif imp[0] == 'fail':
        find('spuriousfail', 'the generator fails with %s, the source program does not' % (imp[1:],), m0)
    else:
        out['ok'] += 1
        compare(job, eng, smt, path, it, imp[1], sym, rc, out, find)


class ConcreteEng(Eng):
    """every input has its value of the model"""

    def __init__(self, p, vals):
        Eng.__init__(self, p)
        self.vals = vals

    def sym(self, name, hi=None):
        if isinstance(name, tuple) and name[0] == 'sig':
            return self.const(int(self.vals.get(name[1], 0)))
        return Eng.sym(self, name, hi)


class V:
    pass


def compare(job, eng, smt, path, it, w, sym, rc, out, find):
    pc = path.conds()
    v = V()
    v.name = {s: n for s, _, c, n in sym}
    ren = relcheck.anon_rename(v, it)
    if 'value' in job.obl:
        bad = []
        if not (0 < len(w)) or eng.val(w[0]) != 1:
            find('value', 'witness 0 is not one', path.models[0] if path.models else {})
            return
        seen = set()
        for s, wi, c, n in sym:
            if wi < 0:
                continue
            seen.add(wi)
            cell = it.cells.get(ren.get(n, n))
            if cell is None:
                out['skipped']['name'] = out['skipped'].get('name', 0) + 1
                continue
            if wi >= len(w):
                find('value', '%s has the witness position %d of %d' % (n, wi, len(w)), path.models[0] if path.models else {})
                return
            if not cell.set:
                continue
            out['values'] += 1
            cond = eng.c_eq(cell.val, w[wi])
            if cond is True:
                continue
            m = smt.check(pc + [('not', cond)]) if cond is not False else (path.models[0] if path.models else smt.check(pc))
            if m is not None:
                find('value', '%s is %s in the witness, %s by the source program' % (
                    n, eng.eval(w[wi], m), eng.eval(cell.val, m)), m)
                return
        if len(w) != len(rc.w2l):
            find('value', 'the witness has %d positions, the R1CS %d wires' % (len(w), len(rc.w2l)), path.models[0] if path.models else {})
            return
    if 'sat' in job.obl:
        for k, c in enumerate(rc.cons):
            ps = []
            for lc in c:
                acc = {}
                for wi, co in lc:
                    acc = eng.padd(acc, eng.pmul(eng.res[eng.const(co)], eng.res[w[wi]]))
                ps.append(acc)
            q = eng.padd(eng.pmul(ps[0], ps[1]), ps[2], True)
            out['sat'] += 1
            cond = eng.c_polyzero(q)
            if cond is True:
                continue
            m = smt.check(pc + [('not', cond)]) if cond is not False else (path.models[0] if path.models else smt.check(pc))
            if m is not None:
                find('sat', 'constraint %d of the R1CS does not hold of the computed witness' % k, m)
                return


def showm(m):
    return {('.'.join(map(str, k)) if isinstance(k, tuple) else str(k)): v for k, v in (m or {}).items()}
