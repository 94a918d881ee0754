"""checks of the generated witness code (and of parts that are not compiler runs over program skeletons)"""
import random, time
from . import build, compgen, corpus, fam, progen, suite, symrun, witcheck
from .witcheck import WitJob

WIT_ASSUME = [
    'the compiler under test is the one of /repo with its big-integer crate replaced; its concrete results are those of num-bigint',
    'the field routines of the generated code (fr_*) are replaced by their language-level meaning over symbolic values',
    'the field is the prime field of 17 elements unless the label says otherwise; literals are fixed, all input signals are symbolic',
    'the reference semantics is lib/refsem.py; programs whose result the language leaves open (division by zero at run time) are skipped and counted',
    'the JavaScript driver is modelled by lib/wat.py calculate(): hash of the input name, setInputSignal, getWitness']
CPP_ASSUME = WIT_ASSUME[:1] + [
    'the routines of fr.hpp are replaced by their language-level meaning over symbolic values; calcwit.cpp, main.cpp, the generated C++ and the .dat file are '
    'the compiler\'s, compiled by g++ with AddressSanitizer and pattern-filled stack variables and run against the solver',
    'threads run to completion at the points where they are created (e) or when somebody waits, oldest first (f) or newest first (l); finer interleavings are outside'
    ] + WIT_ASSUME[2:4]
WIT_FUNCS = ['compiler (hir: merger, sugar_cleaner, component_preprocess, type_inference; intermediate_representation; circuit_design) and code_producers: '
             'through the code they emit for each program, interpreted instruction by instruction']
GOLD = 2 ** 64 - 2 ** 32 + 1


def load(names):
    out = []
    for n in names.split():
        out += corpus.load(n)
    return out


def with_models(skels, levels, obl, seed, tag, n_models=1, **kw):
    r = random.Random('%s/%d' % (tag, seed))
    js = []
    for s in skels:
        for k in range(n_models):
            m = {i: min(r.choice([0, 1, 2, 3, 4, 5, 7, 16, r.randrange(17)]), s.dom.get(i, 16)) for i in range(8)}
            for l in levels:
                js.append(WitJob(s, l, obl, model=m, **kw))
    return js


def report(prop, jobs, level, explain, deadline, assume=None):
    rep = suite.Report(prop, prop)
    exe = build.sym_circom()
    t0 = time.time()
    res = []
    import multiprocessing, os
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(max(1, min(8, os.cpu_count() or 1)), initializer=suite._init, maxtasksperchild=60) as pool:
        for r in pool.imap_unordered(_one, [(exe, j) for j in jobs]):
            res.append(r)
            if time.time() - t0 > deadline:
                pool.terminate()
                break
    skipped = {}
    for r in res:
        r.update(refpaths=r['paths'], rej=int(r['rejected']), rejcodes={}, cons=r['values'] + r['sat'], symq=0, symms=0)
        for k, v in r['skipped'].items():
            skipped[k] = skipped.get(k, 0) + v
    rep.add_jobs(jobs, res)
    rep.cov.update(witness_values_compared=sum(r['values'] for r in res), constraints_checked=sum(r['sat'] for r in res),
                   failing_paths_compared=sum(r['fails'] for r in res), skipped_paths=skipped,
                   programs_rejected_by_the_compiler=sum(r['rejected'] for r in res),
                   generated_functions_executed=sorted({c for r in res for c in r['calls'] if '_' not in c or not c[-1].isdigit()})[:60])
    rep.assumptions = assume or WIT_ASSUME
    rep.explanation = explain
    b = dict(fields=sorted({str(j.p) if j.p < 10 ** 6 else '%d bits' % j.p.bit_length() for j in jobs}), levels=sorted({str(j.level) for j in jobs}),
             programs=len({j.skel.name for j in jobs}), paths_per_program=max(j.max_paths for j in jobs),
             seconds_per_program=max(j.budget_s for j in jobs), solver_timeout_ms=max(j.timeout_ms for j in jobs),
             instructions_per_path=400000, outside='other programs; larger arrays and loops; the field routines themselves')
    return rep.finish(level, b, WIT_FUNCS)


def _one(a):
    return witcheck.run_job(*a)


EXPLAIN = ('joint symbolic execution of the source program by the reference interpreter and of the code the real compiler generates for it, '
           'over symbolic inputs; on every feasible path %s, by polynomial normal forms and z3')
ALLC = 'wit core ctl ctl2 inst bus bus2 tags idx sugar unk unk2 asrt quad gates div err asg pub'


def rnd(tag, seed):
    return random.Random('%s/%d' % (tag, seed))


def wit_jobs(prop, seed, thorough, obl, levels, n_pg, n_fam, backend='wasm'):
    kw = dict(backend=backend)
    big = dict(budget_s=60, max_paths=400, timeout_ms=10000) if thorough else dict(budget_s=6, max_paths=40, timeout_ms=3000)
    js = with_models(load('wit') + corpus.load('wit2'), levels, obl, seed, prop, 4 if thorough else 1, **big, **kw)
    js += with_models([s for n in ALLC.split()[1:] for s in corpus.load(n)], levels[:1] if not thorough else levels, obl, seed, prop + 'c',
                      4 if thorough else 1, **big, **kw)
    k = 10 if thorough else 1
    pgs = progen.progs(rnd('wit' + prop, seed), n_pg * k, 'wp%s.%d' % (prop, seed), progen.WIT)
    js += with_models(pgs, levels[:1] if not thorough else levels[:3], obl, seed, prop + 'p', 1,
                      budget_s=30 if thorough else 4, max_paths=200 if thorough else 25, timeout_ms=3000, **kw)
    r = rnd('wf' + prop, seed)
    js += with_models(fam.mixed(r, n_fam * k, 'wm%s.%d' % (prop, seed)), levels[:1], obl, seed, prop + 'f', 1,
                      budget_s=30 if thorough else 5, max_paths=100 if thorough else 20, timeout_ms=3000, **kw)
    if prop in ('C19', 'C21'):
        js += with_models(fam.funs(rnd('wu' + prop, seed), (90 if prop == 'C19' else 40) * k, 'wu%s.%d' % (prop, seed), True), levels[:1], obl, seed, prop + 'u', 1,
                          budget_s=30 if thorough else 4, max_paths=100 if thorough else 20, timeout_ms=3000, **kw)
    n = {'C19': 250, 'C20': 60, 'C21': 110, 'C22': 60}[prop]
    js += with_models(compgen.progs(rnd('cw' + prop, seed), n * k, 'cw%s.%d' % (prop, seed), prop == 'C22'), levels if prop == 'C22' else levels[:1],
                      obl, seed, prop + 'g', 1, budget_s=30 if thorough else 5, max_paths=100 if thorough else 20, timeout_ms=3000, **kw)
    return js


def C19(thorough, seed):
    js = wit_jobs('C19', seed, thorough, ['value'], [0, 1, 2], 220, 60)
    js += with_models(corpus.load('known'), [0], ['value'], seed, 'C19k', 1, budget_s=10)
    js += with_models(corpus.load('wit'), [0], ['value'], seed, 'C19g', 1, p=GOLD, extra=['--prime', 'goldilocks'], budget_s=8, max_paths=40,
                      timeout_ms=2000)
    return report('C19', js, 'translation_validation', EXPLAIN % 'each witness position is compared with the value of its signal', 3000 if thorough else 240)


def scheds(js):
    out = []
    for k, j in enumerate(js):
        out.append(j)
        if 'parallel' in j.skel.src:
            for s in 'fl':
                out.append(WitJob(j.skel, j.level, j.obl, j.model, j.budget_s, j.max_paths, j.timeout_ms, j.p, j.backend, j.extra, s))
    return out


def C21(thorough, seed):
    js = wit_jobs('C21', seed, thorough, ['value'], [0, 2, 1], 110, 50, backend='cpp')
    js += with_models(progen.progs(rnd('par', seed), 600 if thorough else 60, 'par.%d' % seed, progen.WIT, ('par', 'inst')), [0], ['value'], seed, 'C21q',
                      1, budget_s=30 if thorough else 4, max_paths=200 if thorough else 20, timeout_ms=3000, backend='cpp')
    return report('C21', scheds(js), 'translation_validation',
                  EXPLAIN % 'each position of the .wtns file is compared with the value of its signal', 3000 if thorough else 300, CPP_ASSUME)


def C20(thorough, seed):
    js = wit_jobs('C20', seed, thorough, ['fail'], [0, 2], 200, 20)
    js += scheds(with_models(corpus.load('wit') + corpus.load('asrt'), [0], ['fail'], seed, 'C20x', 1, budget_s=6, max_paths=40, timeout_ms=3000, backend='cpp'))
    js += scheds(with_models(progen.progs(rnd('asx', seed), 500 if thorough else 70, 'asx.%d' % seed, progen.WIT, ('par',)), [0], ['fail'], seed,
                             'C20y', 1, budget_s=20 if thorough else 4, max_paths=100 if thorough else 20, timeout_ms=3000, backend='cpp'))
    return report('C20', js, 'translation_validation',
                  EXPLAIN % 'the generated code stops with an assertion failure exactly if an assert or === of the source is violated',
                  3000 if thorough else 240)


def C22(thorough, seed):
    lv = [2, 1, 0, 'r1', 'r2', 'old']
    js = wit_jobs('C22', seed, thorough, ['sat'], lv, 160, 20)
    for j in progen.progs(rnd('wit22', seed), 400 if thorough else 40, 'wq.%d' % seed, progen.WIT):
        js += with_models([j], lv, ['sat'], seed, 'C22l', 1, budget_s=20 if thorough else 4, max_paths=100 if thorough else 15, timeout_ms=3000)
    return report('C22', js, 'translation_validation',
                  EXPLAIN % 'the computed witness is substituted into every constraint of the R1CS of the same compilation', 3000 if thorough else 240)


from .leaf import C25  # noqa: E402,F401
from .inputs import C26  # noqa: E402,F401
from .frwasm import C23  # noqa: E402,F401
from .primes import C36  # noqa: E402,F401
from .roundtrip import C29  # noqa: E402,F401
