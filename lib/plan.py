"""which programs, levels and obligations decide which property"""
import json, os, random
from . import compgen, corpus, fam, gen, progen, suite
from .suite import Job

COST = {}
_f = os.path.join(corpus.DIR, 'cost.json')
if os.path.exists(_f):
    COST = json.load(open(_f))
ALL = [0, 1, 2, 'r1', 'r2', 'old']


def sk(suites, names=None):
    out = []
    for s in suites.split():
        for x in corpus.load(s):
            if names is None or any(x.name.split('/')[1].startswith(n) for n in names.split()):
                out.append(x)
    return out


def jobs(skels, levels, obl, thorough, quick_total=300, quick_each=12, **kw):
    """quick: the cheapest jobs, up to quick_total cpu seconds by the committed cost table"""
    js = [Job(s, l, obl, budget_s=300 if thorough else 60, **kw) for s in skels for l in levels]
    js.sort(key=lambda j: COST.get(j.label(), 6.0))
    if thorough:
        return js
    out, tot = [], 0.0
    for j in js:
        c = COST.get(j.label(), 6.0)
        if c > quick_each or tot + c > quick_total:
            continue
        tot += c
        out.append(j)
    return out


def rnd(tag, seed):
    return random.Random('%s/%d' % (tag, seed))


# random programs: property -> (features always on, kinds of faults (None: any), boost, levels, obligations, quick number)
PG = {
    'C03': ((), None, 1, [0], None, 160),
    'C04': ((), None, 1, [1], None, 160),
    'C05': ((), None, 1, [2], None, 160),
    'C06': ((), (), 1, [0, 1, 2], ['outcome', 'iface'], 80),
    'C07': ((), (), 1, [0, 1, 2], ['outcome', 'form'], 80),
    'C08': ((), (), 1, [0, 1, 2], ['outcome', 'sym', 'json'], 80),
    'C09': ((), (), 1, [1, 2], ['outcome', 'subst'], 100),
    'C10': (('fault',), ('quad',), 6, [0], None, 160),
    'C11': (('fault', 'unk'), ('unk',), 10, [0], None, 200),
    'C12': (('fault', 'inst', 'unk'), ('asg', 'read'), 4, [0], None, 260),
    'C13': (('fault', 'arr'), ('idx', 'shape'), 5, [0], None, 260),
    'C14': (('inst', 'arr'), (), 1, [0], ['outcome', 'rel', 'sym'], 220),
    'C15': (('tag', 'inst', 'fault'), ('tag',), 3, [0], None, 220),
    'C16': (('anon', 'tag'), (), 1, [0, 1], None, 160),
    'C17': (('bus', 'inst'), ('idx', 'asg'), 1, [0, 2], ['outcome', 'rel', 'sym', 'iface'], 140),
    'C18': (('fun', 'ctl', 'arr'), ('ass',), 1, [0], None, 220),
    'C30': (('ctl', 'fault'), ('ass',), 3, [0], None, 100),
    'C38': (('inst',), (), 1, [0], ['outcome', 'inspect'], 160),
    'C33': (('arr', 'bus'), (), 1, [0, 1, 2], ['outcome', 'iface', 'sym'], 50),
}


def pg(prop, thorough, seed):
    if prop not in PG:
        return []
    must, kinds, boost, levels, obl, n = PG[prop]
    feats = [f for f in progen.FEATS if kinds is None or kinds or f != 'fault']
    r = rnd('pg' + prop, seed)
    sk = progen.progs(r, n * 8 if thorough else n, 'pg%s.%d' % (prop, seed), feats, must, kinds or None, boost)
    if thorough:
        return [Job(s, l, obl or ['outcome', 'rel'], budget_s=30, max_paths=60, timeout_ms=5000) for s in sk for l in levels]
    return [Job(s, l, obl or ['outcome', 'rel'], budget_s=5, max_paths=10, timeout_ms=2000) for s in sk for l in levels]


# random families: property -> (family, quick number, levels, obligations)
FAM = {
    'C14': (fam.reshape, 150, [0], ['outcome', 'rel', 'sym']),
    'C15': (fam.tags, 300, [0], ['outcome', 'rel']),
    'C18': (fam.funs, 160, [0], ['outcome', 'rel']),
    'C38': (fam.reshape, 60, [0], ['outcome', 'inspect']),
    'C28': (fam.gates, 120, [0, 1, 2], ['outcome', 'rel', 'gates', 'iface', 'form']),
}


def fm(prop, thorough, seed):
    if prop not in FAM:
        return []
    f, n, levels, obl = FAM[prop]
    sk = f(rnd('fam' + prop, seed), n * 10 if thorough else n, 'fam%s.%d' % (prop, seed))
    return [Job(s, l, obl, budget_s=60 if thorough else 8, max_paths=100 if thorough else 20,
                timeout_ms=10000 if thorough else 3000) for s in sk for l in levels]


# programs around component arrays and buses: property -> (quick number, levels, obligations)
CG = {
    'C03': (150, [0], ['outcome', 'rel']),
    'C04': (80, [1], ['outcome', 'rel']),
    'C05': (40, [2, 'r1', 'old'], ['outcome', 'rel']),
    'C06': (80, [0, 1, 2], ['outcome', 'iface']),
    'C07': (50, [0, 1, 2], ['outcome', 'form']),
    'C08': (80, [0, 1, 2], ['outcome', 'sym', 'json']),
    'C09': (50, [1, 2, 'old'], ['outcome', 'subst']),
    'C13': (60, [0], ['outcome', 'rel']),
    'C14': (80, [0], ['outcome', 'rel', 'sym']),
    'C17': (120, [0, 2], ['outcome', 'rel', 'sym', 'iface']),
    'C38': (120, [0], ['outcome', 'inspect']),
}


def cg(prop, thorough, seed):
    if prop not in CG:
        return []
    n, levels, obl = CG[prop]
    sk = compgen.progs(rnd('cg' + prop, seed), n * 12 if thorough else n, 'cg%s.%d' % (prop, seed), True)
    return [Job(s, l, obl, budget_s=40 if thorough else 8, max_paths=10, timeout_ms=10000 if thorough else 3000) for s in sk for l in levels]


def plan(prop, thorough, seed):
    out = cg(prop, thorough, seed) + plan0(prop, thorough, seed) + fm(prop, thorough, seed) + pg(prop, thorough, seed)
    if prop == 'C38':
        for j in out:
            j.extra = j.extra + ['--inspect']
    return out


def plan0(prop, thorough, seed):
    """list of jobs"""
    J = lambda skels, levels, obl, **kw: jobs(skels, levels, obl, thorough, **kw)
    T = thorough
    rel = ['outcome', 'rel']
    if prop == 'C01':
        out = J(gen.lits() + gen.arith() + gen.prec(), [0], rel, quick_total=360, quick_each=30)
        out += [Job(s, 0, rel, budget_s=40, p=p) for s in gen.arith() for p in (5, 7)]
        if T:
            for p in (5, 7, 11, 13, 23, 31, 61):
                out += J(gen.arith() + gen.lits(), [0], rel, p=p)
            out += J(gen.prec(), [0], rel, p=13)
        else:
            cheap = [s for s in gen.arith() if s.name.split('[')[-1][:-1] not in ('**',)]
            out += [Job(s, 0, rel, budget_s=40, p=11) for s in cheap]
        return out
    if prop == 'C02':
        out = J(sk('div') + sk('err', 'div0'), [0, 1], ['outcome', 'rel'])
        for p in ((7, 11, 13, 19, 23) if T else (7, 13)):
            out += [Job(s, 0, ['outcome', 'rel'], budget_s=60, p=p) for s in sk('div')]
        out += [Job(s, 0, ['outcome'], budget_s=60, p=13) for s in gen.arith() if s.name[-2] in '/\\%']
        return out
    if prop == 'C03':
        out = J(sk('core ctl bus sugar inst tags gates pub'), [0], rel)
        n = 60 if T else 12
        out += [Job(s, 0, rel, budget_s=200 if T else 20, max_paths=400 if T else 12)
                for s in gen.algebra(rnd('alg', seed), n, 'alg%d' % seed)]
        out += [Job(s, 0, rel, budget_s=200 if T else 15, max_paths=60 if T else 6)
                for s in gen.systems(rnd('sys', seed), n // 2, 'sys%d' % seed)]
        return out
    if prop in ('C04', 'C05'):
        lv = [1] if prop == 'C04' else [2, 'r1', 'old', 'r2']
        out = J(sk('core'), lv, rel, quick_total=300)
        if T:
            out += J(sk('ctl bus sugar inst tags gates pub'), lv, rel)
        else:
            out += J(sk('inst sugar gates pub bus'), lv[:1], rel, quick_total=50, quick_each=4)
        for l in lv if T else lv[:1]:
            out += [Job(s, l, rel, budget_s=300 if T else 15, max_paths=60 if T else 5, timeout_ms=20000 if T else 6000)
                    for s in gen.systems(rnd('sys', seed), 40 if T else 6, 'sys%d' % seed)]
        out += fixed(rel, lv, seed, 1500 if T else 200)
        if prop == 'C05':
            r = rnd('big', seed)
            big = []
            for k in range(60 if T else 12):
                s = gen.bigcluster(r.randrange(352, 440), 'cluster%d/%d' % (seed, k), r, pub=r.choice([' {public [a,b]}', ' {public [a]}', '']),
                                   affine=r.choice([0, 0, .02, .5]), deps=r.choice([0, 1, 1, 2, 3]),
                                   extra=r.choice(['', '', 's[1][2][3] === s[3][2][1];', 's[2][0][0] === 5*s[4][1][1]+a;']))
                big += [Job(s, l, rel, budget_s=60, timeout_ms=5000) for l in (2, 'old', 'r1')]
            out = big + out
        return out
    iface = sk('core pub gates bus inst sugar ctl tags')
    if prop == 'C06':
        out = J(iface, ALL if T else [0, 1, 2], ['outcome', 'iface'], quick_total=200, quick_each=4)
        return out + fixed(['outcome', 'iface'], ALL if T else [1, 2, 'old'], seed, 800 if T else 60)
    if prop == 'C07':
        out = J(iface, ALL if T else [0, 1, 2], ['outcome', 'form'], quick_total=200, quick_each=4)
        out += [Job(s, 0, ['outcome', 'form'], budget_s=60 if T else 10, max_paths=100 if T else 6)
                for s in gen.algebra(rnd('alg', seed), 60 if T else 12, 'alg%d' % seed)]
        return out + fixed(['outcome', 'form'], ALL if T else [0, 1, 2], seed, 800 if T else 60)
    if prop == 'C08':
        o = ['outcome', 'sym', 'json']
        out = J(iface, ALL if T else [0, 1, 2], o, quick_total=220, quick_each=4)
        return out + fixed(o, ALL if T else [0, 1, 2], seed, 800 if T else 60)
    if prop == 'C09':
        o = ['outcome', 'subst']
        out = J(sk('core'), ALL[1:], o, quick_total=300)
        out += J(sk('ctl bus sugar inst tags gates pub'), ALL[1:] if T else [1, 2], o, quick_total=80, quick_each=4)
        return out + fixed(o, ALL[1:] if T else [1, 2, 'old'], seed, 1200 if T else 90)
    o = ['outcome', 'rel']
    if prop == 'C10':
        out = J(sk('err', 'nq') + sk('quad'), [0, 1], o)
        out += [Job(s, 0, o, budget_s=100 if T else 20, max_paths=200 if T else 8)
                for s in gen.algebra(rnd('alg', seed), 60 if T else 10, 'alg%d' % seed)]
        return out
    if prop == 'C11':
        return J(sk('err', 'unk') + sk('unk'), [0, 1, 2], o, quick_total=500)
    if prop == 'C12':
        return J(sk('err', 'dbl assigninput unassigned outunassigned missinput comp') + sk('asg unk2'), [0, 1], o)
    if prop == 'C13':
        return J(sk('err', 'oob shape') + sk('idx') + sk('ctl', 'var') + sk('core', 'arr'), [0, 1], o)
    if prop == 'C14':
        return J(sk('inst') + sk('core', 'sub'), [0, 1, 2, 'r1'] if T else [0, 1], o + ['sym'], quick_total=330, quick_each=25)
    if prop == 'C15':
        return J(sk('tags') + sk('err', 'tag') + sk('bus', 'bustag') + sk('sugar', 'anontags') + sk('core', 'signtag'),
                 ALL if T else [0, 1, 2], o, quick_each=20)
    if prop == 'C16':
        return J(sk('sugar') + sk('bus', 'busanon') + sk('tags', 'taganon'), ALL if T else [0, 1, 2], o + ['sym'], quick_each=20)
    if prop == 'C17':
        return J(sk('bus') + sk('err', 'bus') + sk('bus2'), ALL if T else [0, 1, 2], o + ['sym', 'iface'], quick_each=20)
    if prop == 'C18':
        return J(sk('ctl') + sk('err', 'noret infinite') + sk('ctl2'), ALL if T else [0, 1], o, quick_each=20)
    if prop == 'C27':
        out = []
        r = rnd('hash', seed)
        base = sk('core') + sk('inst sugar bus gates pub')
        for s in base:
            for l in ((1, 2, 'r2', 'old') if T else (2,)):
                if not T and COST.get('%s@O%s' % (s.name, l), 9) > 4:
                    continue
                for k in range(6 if T else 2):
                    out.append(Job(s, l, o, budget_s=200 if T else 20,
                                   env={'SYMX_HASHSEED': str(r.randrange(1, 10 ** 6)), 'SYMX_SCHED': str(r.randrange(1, 10 ** 6))}))
        for s, l, p in fixedp(seed, 400 if T else 40, ALL[1:] if T else [1, 2, 'old']):
            for k in range(8 if T else 3):
                out.append(Job(s, l, o, budget_s=30, timeout_ms=4000, p=p,
                               env={'SYMX_HASHSEED': str(r.randrange(1, 10 ** 6)), 'SYMX_SCHED': str(r.randrange(1, 10 ** 6))}))
        return out
    if prop == 'C38':
        return J(sk('insp'), [0], ['outcome', 'inspect']) + J(sk('core bus sugar inst ctl tags bus2 gates ctl2'), [0],
                                                              ['outcome', 'inspect'], quick_total=300, quick_each=8)
    if prop == 'C28':
        return J(sk('gates') + sk('gates2'), ALL, o + ['gates', 'iface', 'form'], quick_each=20)
    if prop == 'C30':
        return J(sk('asrt') + sk('err', 'assert') + sk('ctl', 'assertct'), [0, 1], o)
    if prop == 'C33':
        return J(sk('pub') + sk('core', 'publist'), ALL if T else [0, 1, 2], o + ['iface', 'sym'], quick_each=20)
    raise KeyError(prop)


BN = 21888242871839275222246405745257275088548364400416034343698204186575808495617


def fixedp(seed, n, levels):
    r = rnd('fixed', seed)
    for k in range(n):
        p = 17 if k % 3 else BN
        ns = r.choice([4, 8, 16, 16, 30, 30, 60, 100])
        s = gen.bigsys(r, 1, 'fixed%d.%d' % (seed, k), nsig=ns, ncon=ns + r.choice([1, 3, 8, ns // 2]), prime=p)[0]
        for l in levels:
            yield s, l, p


def fixed(obl, levels, seed, n):
    return [Job(s, l, obl, budget_s=30, timeout_ms=4000, p=p) for s, l, p in fixedp(seed, n, levels)]
