"""Run obligations over many skeletons in parallel, replay what fails, report."""
import json, multiprocessing, os, resource, shutil, signal, sys, time, traceback
from . import build, cparse, symrun, relcheck, corpus
from .terms import Inconclusive, Stats

VERIF = build.VERIF
LEVEL_ARGS = {0: ['--O0'], 1: ['--O1'], 2: ['--O2'], 'r1': ['--O2round', '1'], 'r2': ['--O2round', '2'],
              'old': ['--O2', '--use_old_simplification_heuristics']}


class Job:
    """one skeleton at one simplification level with a set of obligations"""

    def __init__(self, skel, level, obl, max_paths=400, timeout_ms=20000, budget_s=60, env=None, extra=(), p=None):
        self.skel, self.level, self.obl = skel, level, tuple(obl)
        self.max_paths, self.timeout_ms, self.budget_s, self.env = max_paths, timeout_ms, budget_s, env or {}
        self.extra = list(extra)
        self.p = p or symrun.P

    def args(self):
        a = ['--r1cs', '--sym', '--json'] + LEVEL_ARGS[self.level] + self.extra
        if self.level != 0:
            a.append('--simplification_substitution')
        return a

    def label(self):
        return '%s@O%s%s' % (self.skel.name, self.level, '' if self.p == symrun.P else '/p%s' % (self.p if self.p < 10**6 else '%dbit' % self.p.bit_length()))


def program(files, main):
    """parse main and its includes with the reference parser"""
    P = cparse.parse(files[main])
    seen = {main}
    todo = list(P['includes'])
    while todo:
        n = todo.pop()
        cand = [f for f in files if f == n or f.endswith('/' + n)]
        if not cand or cand[0] in seen:
            continue
        seen.add(cand[0])
        Q = cparse.parse(files[cand[0]])
        for k in ('templates', 'functions', 'buses'):
            for a, b in Q[k].items():
                P[k].setdefault(a, b)
        todo += Q['includes']
    P['custom'] = any(p[:1] == ['custom_templates'] for p in P['pragmas'])
    return P


def lvl(level):
    return 0 if level == 0 else 1 if level == 1 else 2


def run_job(exe, job):
    t0 = time.time()
    out = dict(label=job.label(), findings=[], error=None, paths=0, refpaths=0, ok=0, rej=0, rejcodes={}, cons=0,
               truncated=False, inconclusive=[], symms=0, symq=0, stats={})
    try:
        prog = program(job.skel.files, job.skel.main)
        sp = symrun.SymProgram(exe, job.skel.files, job.skel.main, job.args(), dom=job.skel.dom,
                               max_paths=job.max_paths, env=job.env, p=job.p)
        ck = relcheck.Checker(prog, lvl(job.level), job.obl, dom=job.skel.dom, timeout_ms=job.timeout_ms, p=job.p)
        for run in sp:
            ck.path(run)
            if ck.findings:
                break
            if time.time() - t0 > job.budget_s:
                sp.truncated = True
                break
        out.update(paths=sp.paths, refpaths=ck.refpaths, ok=ck.ok_paths, rej=ck.rej_paths, rejcodes=ck.rejcodes,
                   cons=ck.cons, truncated=sp.truncated, inconclusive=ck.inconclusive, symms=sp.ms, symq=sp.queries,
                   stats=ck.stats.as_dict())
        for f in ck.findings[:4]:
            rep = replay(exe, job, f)
            out['findings'].append(dict(kind=f.kind, what=f.what, model=f.model, replay=rep))
    except Inconclusive as ex:
        out['error'] = 'inconclusive: %s' % ex
    except Exception:
        out['error'] = traceback.format_exc()[-1500:]
    out['wall'] = time.time() - t0
    return out


def replay(exe, job, f):
    """the finding on the concrete program obtained from the model, with ordinary integers"""
    model = dict(f.model)
    run, files = symrun.concrete(exe, job.skel.files, job.skel.main, job.args(), model, p=job.p, env=job.env)
    res = dict(files=files, main=job.skel.main, args=job.args(), rc=run.rc, stdout=run.stdout[-1500:],
               stderr=run.stderr[-1500:], reproduced=False)
    try:
        ck = relcheck.Checker(program(files, job.skel.main), lvl(job.level), job.obl, timeout_ms=job.timeout_ms, p=job.p)
        ck.path(run)
        res['concrete'] = [dict(kind=x.kind, what=x.what) for x in ck.findings]
        res['reproduced'] = any(x.kind == f.kind for x in ck.findings)
    except Exception:
        res['concrete_error'] = traceback.format_exc()[-800:]
    return res


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _one(a):
    exe, job = a
    return run_job(exe, job)


def run_jobs(exe, jobs, procs=None, deadline=None):
    procs = procs or max(1, min(8, os.cpu_count() or 1))
    res = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(procs, initializer=_init, maxtasksperchild=40) as pool:
        for r in pool.imap_unordered(_one, [(exe, j) for j in jobs]):
            res.append(r)
            if deadline and time.time() > deadline:
                pool.terminate()
                break
    return res


def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def write_replay(prop, n, label, f):
    d = os.path.join(VERIF, 'evidence', 'replay', '%s-%d' % (prop, n))
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(d)
    rep = f.get('replay') or {}
    for fn, t in (rep.get('files') or {}).items():
        p = os.path.join(d, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb' if isinstance(t, bytes) else 'w') as h:
            h.write(t)
    with open(os.path.join(d, 'report.txt'), 'w') as h:
        h.write('property %s\nskeleton %s\nkind %s\n%s\nsolver model %s\n\n' % (prop, label, f['kind'], f['what'],
                                                                             f.get('model')))
        for k in ('cmd', 'args', 'rc', 'stdout', 'stderr', 'concrete'):
            if k in rep:
                h.write('%s: %s\n' % (k, rep[k]))
    return d


class Report:
    """collects the outcome of a check, prints it and writes the evidence file"""

    def __init__(self, prop, title):
        self.prop, self.title = prop, title
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.t0 = time.time()
        self.viol = []
        self.errors = []
        self.cov = {}
        self.assumptions = []
        self.explanation = ''
        self.samples = []

    def add_jobs(self, jobs, results, accept=None):
        """accept: predicate on finding kinds that concern this property (None: all)"""
        st = Stats()
        tot = dict(skeletons=len(jobs), skeletons_run=len(results), impl_paths=0, reference_paths=0, accepted_paths=0,
                   rejected_paths=0, constraints_compared=0, truncated=[], inconclusive=0, engine_queries=0,
                   engine_solver_ms=0, reject_codes={})
        src = {j.label(): j.skel.files for j in jobs}
        for r in sorted(results, key=lambda r: r['label']):
            if len(self.samples) < 6 and r['paths'] and not r['error']:
                self.samples.append(dict(label=r['label'], source=src.get(r['label'], {}).get('main.circom'),
                                         implementation_paths=r['paths'], reference_paths=r['refpaths'],
                                         accepted=r['ok'], rejected=r['rejcodes'], constraints_compared=r['cons'],
                                         solver=r['stats']))
        for r in results:
            if r['error']:
                self.errors.append('%s: %s' % (r['label'], r['error']))
            tot['impl_paths'] += r['paths']
            tot['reference_paths'] += r['refpaths']
            tot['accepted_paths'] += r['ok']
            tot['rejected_paths'] += r['rej']
            tot['constraints_compared'] += r['cons']
            tot['engine_queries'] += r['symq']
            tot['engine_solver_ms'] += r['symms']
            tot['inconclusive'] += len(r['inconclusive'])
            for k, v in r['rejcodes'].items():
                tot['reject_codes'][k] = tot['reject_codes'].get(k, 0) + v
            if r['truncated']:
                tot['truncated'].append(r['label'])
            for k, v in r['stats'].items():
                tot['check_' + k] = tot.get('check_' + k, 0) + v
            for f in r['findings']:
                if accept is not None and not accept(f['kind']):
                    continue
                self.viol.append((r['label'], f))
        for k, v in tot.items():
            o = self.cov.get(k)
            if o is None:
                self.cov[k] = v
            elif isinstance(v, dict):
                for a, b in v.items():
                    o[a] = o.get(a, 0) + b
            else:
                self.cov[k] = o + v

    def violation(self, label, kind, what, replay=None, model=None):
        self.viol.append((label, dict(kind=kind, what=what, replay=replay, model=model)))

    def finish(self, level, bounds, functions):
        real = [(l, f) for l, f in self.viol if (f.get('replay') or {}).get('reproduced', True)]
        ghost = [(l, f) for l, f in self.viol if not (f.get('replay') or {}).get('reproduced', True)]
        known = known_findings(self.prop)
        rc = 0
        out = []
        kn = []
        for l, f in real:
            key = '%s %s' % (l, f['kind'])
            hit = [k for k in known if k.startswith(key)]
            if hit:
                kn.append(hit[0])
                continue
            out.append((l, f))
        for k in sorted(set(kn)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        lines = []
        for i, (l, f) in enumerate(out[:8]):
            d = write_replay(self.prop, i, l, f)
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
            print('  %s: %s: %s' % (l, f['kind'], f['what']))
            lines.append('%s: %s: %s' % (l, f['kind'], f['what']))
            rc = 1
        for l, f in ghost[:8]:
            print('note: %s: %s: %s -- not reproduced concretely, not reported' % (l, f['kind'], f['what']))
        for e in self.errors[:8]:
            print('note: %s' % e)
        cov = dict(self.cov)
        cov['explanation'] = self.explanation
        cov['bounds'] = bounds
        cov['functions_encoded'] = functions
        cov['errors'] = self.errors[:20]
        cov['not_reproduced'] = ['%s: %s' % (l, f['what']) for l, f in ghost[:20]]
        cov['known_findings'] = sorted(set(kn))
        cov['violations_found'] = lines
        cov['samples'] = self.samples
        if level == 'translation_validation':
            cov['programs'] = self.cov.get('skeletons_run', 0)
            cov['disagreements_checked'] = self.cov.get('check_queries', 0) + self.cov.get('check_by_normal_form', 0) + \
                self.cov.get('reference_paths', 0)
        cov['queries_discharged'] = self.cov.get('engine_queries', 0) + self.cov.get('check_queries', 0) + \
            self.cov.get('extra_queries', 0)
        cov['solver_time_s'] = round((self.cov.get('engine_solver_ms', 0) + self.cov.get('check_solver_ms', 0) +
                                      self.cov.get('extra_solver_ms', 0)) / 1000.0, 2)
        ev = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level,
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions,
                  violations=len(lines))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as h:
            json.dump(ev, h, indent=1, default=str)
        print('%s: %d skeleton runs, %d implementation paths, %d reference paths, %d queries, %.0f s solver, %.0f s wall'
              % (self.prop, self.cov.get('skeletons_run', 0), self.cov.get('impl_paths', 0),
                 self.cov.get('reference_paths', 0), cov['queries_discharged'], cov['solver_time_s'],
                 time.time() - self.t0))
        if rc == 0 and (self.errors or ghost):
            # a run that decided less than half of its units is not a pass
            total = max(1, self.cov.get('skeletons_run', 0))
            if (len(self.errors) + len(ghost)) * 2 > total:
                print('check incomplete')
                return 2
        return rc
