"""Obligations that relate what circom emitted on one symbolic path to the
reference semantics of the same source program."""
import itertools, re
from . import cparse, refsem, r1cs as R
from .terms import Eng, Smt, Stats, Path, explore, Inconclusive, eliminate, complete
from . import symrun


# conditions, sizes, parameters and indexes that may be unknown are rejected by a
# static analysis, whatever the values of the parameters: such a rejection is right
# when some execution of the program does depend on an unknown value
STATIC = {'T2005', 'T2049', 'T2050', 'T20460', 'T20461', 'T20462'}


class Finding:
    def __init__(self, kind, what, model):
        self.kind, self.what, self.model = kind, what, model

    def __repr__(self):
        return 'Finding(%s, %s, %s)' % (self.kind, self.what, self.model)


class View:
    """the emitted files as terms"""

    def __init__(self, eng, mp, run, level):
        self.e, self.mp, self.run, self.level = eng, mp, run, level
        f = {n.rsplit('.', 1)[-1] if not n.endswith('.json') else n: c for n, c in run.files.items()}
        self.r = R.parse_r1cs(f['r1cs']) if 'r1cs' in f else None
        self.sym = R.parse_sym(f['sym'].decode()) if 'sym' in f else None
        self.json = self.sub = None
        for n, c in run.files.items():
            if n.endswith('_constraints.json'):
                self.json = R.parse_json_constraints(c.decode())
            if n.endswith('_substitutions.json'):
                self.sub = R.parse_json_subst(c.decode())
        if self.sym is not None:
            self.name = {s: n for s, w, c, n in self.sym}
            self.rename = {}

    def coef(self, v):
        if R.is_token(v):
            return self.e.residue(self.mp[v - R.TOK])
        return self.e.const(v)

    def sigatom(self, label):
        n = self.name[label]
        return self.e.sym(('sig', self.rename.get(n, n)))

    def lc_poly(self, lc, wires=True):
        e = self.e
        acc = {}
        for w, c in lc:
            t = e.res[self.coef(c)]
            if w != 0:
                lab = self.r.w2l[w] if wires else w
                t = e.pmul(t, e.res[self.sigatom(lab)])
            acc = e.padd(acc, t)
        return acc

    def con_poly(self, c, wires=True):
        e = self.e
        a, b, cc = (self.lc_poly(x, wires) for x in c)
        return e.padd(e.pmul(a, b), cc, True)


def anon_rename(view, interp):
    """impl name -> reference name for anonymous components (matched by template and source order)"""
    ref = set(interp.cells)
    names = [n for n in view.name.values()]
    if all(n in ref for n in names):
        return {}
    out = {}
    # collect, for every path prefix, the reference's anonymous segments
    seg = re.compile(r'^([A-Za-z_$][\w$]*)~(\d+)((?:\[\d+\])*)$')
    refseg = {}
    for n in ref:
        parts = n.split('.')
        for i, s in enumerate(parts):
            m = seg.match(s)
            if m:
                refseg.setdefault(('.'.join(parts[:i]), m.group(1)), set()).add((int(m.group(2))))
    impseg = {}
    iseg = re.compile(r'^(.*?)_(\d+)_(\d+)((?:\[\d+\])*)$')

    def process(prefix_i, prefix_r, names):
        """names: list of (rest parts, full name)"""
        groups = {}
        for rest, full in names:
            groups.setdefault(rest[0], []).append((rest[1:], full))
        anon = {}
        for g in groups:
            m = iseg.match(g)
            key = (prefix_r, m.group(1)) if m else None
            if m and key in refseg and not any(True for n in ref if n == prefix_r + '.' + g or n.startswith(prefix_r + '.' + g + '.')):
                anon.setdefault(m.group(1), set()).add((int(m.group(2)), int(m.group(3))))
        mapping = {}
        for t, poss in anon.items():
            ns = sorted(refseg[(prefix_r, t)])
            ps = sorted(poss)
            if len(ns) != len(ps):
                continue
            for n, p in zip(ns, ps):
                mapping[(t, p)] = n
        for g, sub in groups.items():
            m = iseg.match(g)
            rg = g
            if m and (m.group(1), (int(m.group(2)), int(m.group(3)))) in mapping:
                rg = '%s~%d%s' % (m.group(1), mapping[(m.group(1), (int(m.group(2)), int(m.group(3))))], m.group(4))
            leaf = [x for x in sub if not x[0]]
            for x in leaf:
                out[x[1]] = prefix_r + '.' + rg if prefix_r else rg
            deep = [x for x in sub if x[0]]
            if deep:
                process((prefix_i + '.' + g) if prefix_i else g, (prefix_r + '.' + rg) if prefix_r else rg, deep)

    process('', '', [(n.split('.'), n) for n in names])
    return {a: b for a, b in out.items() if a != b}


def interpret(prog, eng, path, mode, dom):
    try:
        it = refsem.Interp(prog, eng, path, mode)
        it.lit_dom = dom
        it.run_main()
        return ('ok', it)
    except refsem.Reject as ex:
        return ('reject', ex.code, str(ex))
    except refsem.RuntimeFail as ex:
        return ('runtime', ex.code, str(ex))


def by_path(eng, pc, cs):
    """rewrite polynomials with the linear equations among the path conditions"""
    if eng.p.bit_length() < 20:
        return cs
    for c in pc:
        if isinstance(c, bool) or c[0] != 'pz' or any(len(m) > 1 for m, _ in c[1]):
            continue
        (x,), k = next((m, k) for m, k in c[1] if m)
        px = {m: -v * pow(k, -1, eng.p) % eng.p for m, v in c[1] if m != (x,)}
        out = []
        for q in cs:
            if not isinstance(q, bool):
                r = {m: v for m, v in q[1] if x not in m}
                for m, v in q[1]:
                    if x in m:
                        t = {(): v}
                        for y in m:
                            t = eng.pmul(t, px if y == x else {(y,): 1})
                        r = eng.padd(r, t)
                q = eng.c_polyzero(r)
            out.append(q)
        cs = out
    return cs


class Checker:
    """obligations: subset of
       outcome   accept / reject agreement
       rel       constraint system equivalent to the source's
       iface     labels, public interface, wire layout, header
       form      r1cs well-formedness
       sym       sym file
       json      constraints json = r1cs
       subst     substitution json
       gates     custom gate sections"""

    def __init__(self, prog, level, obligations, dom=None, p=symrun.P, timeout_ms=20000, args=()):
        self.prog, self.level, self.obl, self.dom, self.p = prog, level, set(obligations), dom or {}, p
        self.stats = Stats()
        self.timeout = timeout_ms
        self.findings = []
        self.ok_paths = self.rej_paths = self.refpaths = 0
        self.cons = 0
        self.inconclusive = []
        self.rejcodes = {}

    def f(self, kind, what, model):
        self.findings.append(Finding(kind, what, {k[1]: v for k, v in (model or {}).items() if k[0] == 'lit'}))

    def path(self, run):
        eng = Eng(self.p)
        smt = Smt(eng, self.stats, self.timeout)
        base, known = [], []
        mp = []
        models = [{}]
        if run.trace:
            mp = eng.import_nodes(run.trace['nodes'])
            for c, o, free in run.trace['path']:
                c = eng.import_cond(c, mp)
                if c is True or c is False:
                    if c != o:
                        raise Inconclusive('imported condition disagrees')
                    continue
                known.append((c, o))
                if free:
                    base.append(c if o else ('not', c))
            models = [{('lit', k): v for k, v in run.model.items()}]
            models = [m for m in models if all(eng.evcond(c, m) is o for c, o in known)]
            if not models:
                m = smt.check(base)
                if m is None:
                    raise Inconclusive('infeasible implementation path')
                models = [m]
        view = None
        if run.rc not in (0, 1):
            self.f('crash', 'compiler terminated with %s: %s' % (run.rc, run.stderr[-400:]), models[0])
            return
        if run.rc == 0:
            try:
                view = View(eng, mp, run, self.level)
            except (R.Malformed, ValueError, IndexError) as ex:
                self.f('form', 'malformed output: %s' % ex, models[0])
                return

        def fn(path):
            for c, o in known:
                path.known.setdefault(c, o)
            return interpret(self.prog, eng, path, 'cons', self.dom)

        static = run.rc == 1 and STATIC & set(re.findall(r'error\[(T\d+)\]', run.stdout + run.stderr))
        excuse, pending = False, []
        for rp, res in explore(eng, smt, base, models, fn):
            self.refpaths += 1
            m = rp.models[0] if rp.models else {}
            if res[0] == 'ok':
                if run.rc == 1:
                    self.ok_paths += 1
                    pending.append(m)
                    continue
                self.ok_paths += 1
                self.obligations(eng, smt, rp, view, res[1], m)
            else:
                self.rej_paths += 1
                self.rejcodes[res[1]] = self.rejcodes.get(res[1], 0) + 1
                if res[1].startswith('UNKNOWN') or res[1] == 'NONQUADRATIC':
                    excuse = True
                if run.rc == 0:
                    self.f('accepts:' + res[1], 'program that must be rejected (%s) was accepted' % res[2], m)

        if not (static and excuse):
            for m in pending:
                self.f('rejects', 'valid program rejected: ' + errline(run), m)

    # -------------------------------------------------------------
    def unsat(self, smt, conds):
        return smt.check(conds)

    def obligations(self, eng, smt, rp, v, it, m0):
        pc = rp.conds()
        v.rename = anon_rename(v, it)
        names = [v.rename.get(n, n) for n in v.name.values()]
        if 'iface' in self.obl:
            self.iface(v, it, names, m0)
        if 'form' in self.obl:
            self.form(eng, smt, pc, v, m0)
        if 'field' in self.obl:
            if v.r.prime != self.p:
                self.f('field', 'the prime in the header is %d' % v.r.prime, m0)
            if v.r.fs != -(-self.p.bit_length() // 64) * 8:
                self.f('field', 'numbers of %d bytes for a prime of %d bits' % (v.r.fs, self.p.bit_length()), m0)
        if 'sym' in self.obl:
            self.symfile(v, it, names, m0)
        if 'json' in self.obl:
            self.jsonfile(eng, smt, pc, v, m0)
        if 'gates' in self.obl:
            self.gates(eng, smt, pc, v, it, m0)
        if 'inspect' in self.obl:
            self.inspect(eng, smt, pc, v, it, m0)
        if self.obl & {'rel', 'relk', 'subst'}:
            if set(names) != set(it.cells):
                self.f('labels', 'signals differ from the declared ones: %s' %
                       sorted(set(names) ^ set(it.cells))[:6], m0)
                return
            self.rel(eng, smt, pc, v, it, m0)

    def rel(self, eng, smt, pc, v, it, m0):
        ref = []
        for t in it.constraints:
            ref.append(eng.c_polyzero(eng.res[t]))
        try:
            imp = [eng.c_polyzero(v.con_poly(c)) for c in v.r.cons]
        except (KeyError, IndexError) as ex:
            self.f('form', 'constraint mentions an unknown wire %s' % ex, m0)
            return
        self.cons += len(imp)
        refset = {c for c in ref if c is not True}
        impset = {c for c in imp if c is not True}
        if self.level == 0:
            if 'rel' not in self.obl:
                return
            self.implies(smt, pc, refset, impset, 'extra', 'constraint not implied by the source')
            self.implies(smt, pc, impset, refset, 'missing', 'source constraint not enforced')
            return
        # simplified: signals outside the witness are existentially quantified
        kept = {v.r.w2l[w] for w in range(1, v.r.nwires)}
        subst = []
        subs = v.sub or {}
        for lab, lc in subs.items():
            if lab not in v.name:
                self.f('subst', 'substituted label %d unknown' % lab, m0)
                return
            if 'subst' in self.obl:
                if lab in kept:
                    self.f('subst', 'substituted signal %s is still in the witness' % v.name[lab], m0)
                for l2, _ in lc:
                    if l2 != 0 and l2 in subs:
                        self.f('subst', '%s is replaced by an expression over a removed signal' % v.name[lab], m0)
            d = eng.padd(v.lc_poly(lc, wires=False), eng.res[v.sigatom(lab)], True)
            subst.append(eng.c_polyzero(d))
        if 'subst' in self.obl:
            # the listed expressions are consequences of the source constraints
            self.implies(smt, pc, refset, set(subst) - {True}, 'subst',
                         'substitution does not follow from the source constraints')
        if 'rel' in self.obl:
            self.implies(smt, pc, refset, impset, 'extra', 'constraint not implied by the source')
            m = self.entails(smt, pc, impset | set(subst), refset)
            if m is None:
                return
            # counterexample to the Skolem witness; look for another extension
            fix = []
            for lab in kept:
                a = v.sigatom(lab)
                fix.append(eng.c_polyzero(eng.padd(eng.res[a], eng.res[eng.const(m.get(eng.kind[a][1], 0))], True)))
            lits = [eng.c_eq(eng.sym(k), eng.const(val)) for k, val in m.items() if k[0] == 'lit']
            h2, _, defs = eliminate(eng, [c for c in fix if c is not True] + sorted(refset - {False}, key=repr), [])
            m2 = None
            if False not in refset and False not in h2:
                m2 = self.ask(smt, pc + lits + h2)
            if m2 is None:
                self.f('missing', 'constraint lost by simplification: an assignment of the remaining signals '
                       'satisfies the output and cannot be extended (%s)' % showm(m), m)
            else:
                self.f('subst', 'the substitutions do not reconstruct the removed signals (%s)' % showm(m), m)

    def ask(self, smt, conds):
        try:
            return smt.check(conds)
        except Inconclusive as ex:
            self.inconclusive.append(str(ex))
            return None

    def entails(self, smt, pc, hyp, concl):
        """model of pc & hyp & not all(concl), or None.  hyp, concl: 'pz' conditions / booleans"""
        eng = smt.e
        hyp = [c for c in sorted(hyp, key=repr) if c is not True]
        concl = sorted(concl, key=repr)
        if any(c is False for c in hyp):
            return None
        hyp, concl = by_path(eng, pc, hyp), by_path(eng, pc, concl)
        h2, c2, defs = eliminate(eng, hyp, concl)
        if any(c is False for c in h2):
            self.stats.by_normal_form += len(concl)
            return None
        hs = set(h2)
        c3 = [c for c in c2 if c is not True and c not in hs]
        self.stats.by_normal_form += len(concl) - len(c3)
        if not c3:
            return None
        q = pc + h2
        if all(c is not False for c in c3):
            q = q + [('or', tuple(neg(c) for c in c3))]
        m = self.ask(smt, q)
        if m is None:
            return None
        for c in h2 + c2 + hyp + concl:     # signals the solver did not mention
            if not isinstance(c, bool):
                for mo, _ in c[1]:
                    for a in mo:
                        k = eng.kind[a]
                        if k[0] == 'sym':
                            m.setdefault(k[1], 0)
        return complete(eng, m, defs)

    def implies(self, smt, pc, hyp, concl, kind, text):
        """every condition of concl follows from pc and hyp"""
        m = self.entails(smt, pc, hyp, concl)
        if m is not None:
            self.f(kind, '%s (%s)' % (text, showm(m)), m)

    # -------------------------------------------------------------
    def iface(self, v, it, names, m0):
        r = v.r
        if (r.nout, r.npub, r.nprv) != (len(it.outputs), len(it.pub), len(it.priv)):
            self.f('iface', 'header says %d outputs, %d public and %d private inputs; the main component has %d, %d, %d'
                   % (r.nout, r.npub, r.nprv, len(it.outputs), len(it.pub), len(it.priv)), m0)
            return
        nm = {s: v.rename.get(n, n) for s, n in v.name.items()}
        want = it.outputs + it.pub
        got = [nm.get(x) for x in r.w2l[1:1 + len(want)]]
        if got != want:
            self.f('iface', 'first wires are %s instead of %s' % (got, want), m0)
        rest = [nm.get(x) for x in r.w2l[1 + len(want):]]
        pr = [x for x in rest if x in set(it.priv)]
        if pr != rest[:len(pr)] or [x for x in it.priv if x in set(pr)] != pr:
            self.f('iface', 'private inputs are not laid out after the public ones in declaration order: %s' % rest, m0)
        if self.level == 0 and pr != it.priv:
            self.f('iface', 'private inputs missing from the witness', m0)
        # label order of main: outputs, inputs (public first), and so on is given by the sym file
        if len(names) != len(set(names)) or set(names) != set(it.cells):
            self.f('iface', 'signals differ from the declared ones: %s' % sorted(set(names) ^ set(it.cells))[:6], m0)

    def form(self, eng, smt, pc, v, m0):
        r = v.r
        if r.sections.count(1) != 1 or r.fs % 8 or r.fs * 8 < self.p.bit_length():
            self.f('form', 'field size %d' % r.fs, m0)
        if r.prime != self.p:
            self.f('form', 'prime in the header is %d' % r.prime, m0)
        if len(r.w2l) != r.nwires or r.w2l[:1] != [0]:
            self.f('form', 'wire map has %d entries for %d wires' % (len(r.w2l), r.nwires), m0)
            return
        if len(set(r.w2l)) != len(r.w2l):
            self.f('form', 'wire map repeats a label', m0)
        if r.nlabels != len(v.sym) + 1:
            self.f('form', 'header has %d labels for %d signals' % (r.nlabels, len(v.sym)), m0)
        for c in r.cons:
            for lc in c:
                ws = [w for w, _ in lc]
                if any(w >= r.nwires for w in ws):
                    self.f('form', 'wire index out of range', m0)
                for w, x in lc:
                    t = v.coef(x) if not R.is_token(x) else v.mp[x - R.TOK]
                    if not R.is_token(x) and not 0 < x < r.prime:
                        self.f('form', 'coefficient %d is not in 1..p-1' % x, m0)
                        continue
                    if R.is_token(x):
                        if not eng.infield(t):
                            bad = self.ask(smt, pc + [('or', (eng.c_lt(t, eng.const(0)),
                                                              neg(eng.c_lt(t, eng.const(self.p)))))])
                            if bad is not None:
                                self.f('form', 'coefficient outside the field', bad)
                        z = eng.c_polyzero(eng.res[t])
                        if z is True:
                            self.f('form', 'zero coefficient written', m0)
                        elif z is not False and ('not', z) not in pc:
                            bad = self.ask(smt, pc + [z])
                            if bad is not None:
                                self.f('form', 'zero coefficient written', bad)

    def symfile(self, v, it, names, m0):
        r = v.r
        labs = [s for s, _, _, _ in v.sym]
        if sorted(labs) != list(range(1, len(labs) + 1)):
            self.f('sym', 'signal numbers are not 1..n', m0)
        if len(set(names)) != len(names):
            self.f('sym', 'qualified name repeated', m0)
        if set(names) != set(it.cells):
            self.f('sym', 'names differ from the declared signals: %s' % sorted(set(names) ^ set(it.cells))[:6], m0)
        l2w = {l: w for w, l in enumerate(r.w2l)}
        for s, w, c, n in v.sym:
            if w != l2w.get(s, -1):
                self.f('sym', 'signal %s: witness position %d, r1cs wire %d' % (n, w, l2w.get(s, -1)), m0)
                break
        # every signal of a component carries that component's (template instance) number
        owner = {}
        for (s, w, c, n), rn in zip(v.sym, names):
            inst = it.cell_owner.get(rn)
            if inst is not None:
                owner.setdefault(inst, set()).add(c)
        for inst, cs in owner.items():
            if len(cs) != 1:
                self.f('sym', 'signals of component %s carry several component numbers' % inst, m0)

    def jsonfile(self, eng, smt, pc, v, m0):
        r = v.r
        if v.json is None:
            self.f('json', 'no constraints json', m0)
            return
        if len(v.json) != len(r.cons):
            self.f('json', 'json has %d constraints, r1cs %d' % (len(v.json), len(r.cons)), m0)
            return
        for i, (a, b) in enumerate(zip(v.json, r.cons)):
            for x, y in zip(a, b):
                dx, dy = dict(x), dict(y)
                if set(dx) != set(dy) or len(x) != len(dx):
                    self.f('json', 'constraint %d mentions different signals' % i, m0)
                    return
                for w in dx:
                    p, q = v.coef(dx[w]), v.coef(dy[w])
                    c = eng.c_eq(p, q)
                    if c is True:
                        self.stats.by_normal_form += 1
                        continue
                    bad = m0 if c is False else self.ask(smt, pc + [neg(c)])
                    if bad is not None:
                        self.f('json', 'constraint %d: different coefficients' % i, bad)
                        return

    def gates(self, eng, smt, pc, v, it, m0):
        r = v.r
        want = it.gates
        if not self.prog.get('custom'):
            if r.used is not None:
                self.f('gates', 'custom gate sections present', m0)
            return
        if r.used is None or r.applied is None:
            self.f('gates', 'custom gate sections missing', m0)
            return
        names = {s: v.rename.get(n, n) for s, n in v.name.items()}
        got = []
        for g, ws in r.applied:
            if g >= len(r.used):
                self.f('gates', 'gate index out of range', m0)
                return
            nm, ps = r.used[g]
            try:
                got.append((nm, tuple(names[r.w2l[w]] for w in ws), [v.coef(x) for x in ps]))
            except (KeyError, IndexError):
                self.f('gates', 'gate uses an unknown signal', m0)
                return
        wanted = []
        for inst in want:
            sigs = []
            for n in sorted(inst.order, key=declorder(inst.tmpl['body']).index):
                sigs += [c.name for c in refsem.flat(inst.sigs[n].tree)]
            wanted.append((inst.tmpl['name'], sigs, [x[1] for x in refsem.flat(inst.params)]))
        if len(got) != len(wanted):
            self.f('gates', '%d gate applications for %d custom components' % (len(got), len(wanted)), m0)
            return
        for nm, sigs, ps in wanted:
            c = [g for g in got if g[0] == nm and set(g[1]) == set(sigs)]
            if len(c) != 1:
                self.f('gates', 'application of %s to %s not found' % (nm, sigs), m0)
                return
            g = c[0]
            if list(g[1]) != sigs:
                self.f('gates', 'signal order of %s: %s instead of %s' % (nm, g[1], sigs), m0)
            if len(g[2]) != len(ps):
                self.f('gates', 'parameters of %s' % nm, m0)
                return
            for a, b in zip(g[2], ps):
                q = eng.c_eq(a, b)
                if q is True:
                    continue
                bad = m0 if q is False else self.ask(smt, pc + [neg(q)])
                if bad is not None:
                    self.f('gates', 'parameter of %s differs' % nm, bad)

    # -------------------------------------------------------------
    def inspect(self, eng, smt, pc, v, it, m0):
        """warnings CA01/CA02 = signals of a template instance (its own and the inputs and outputs of its
        components) that occur in no constraint of that instance, for every value on this path"""
        sig = lambda a: eng.kind[a][0] == 'sym' and eng.kind[a][1][0] == 'sig'
        memo = {}

        def ev(items):
            return eng.evpoly(items, m0, memo) % eng.p

        def coeffs(poly):
            """signal monomial -> polynomial over the literals"""
            out = {}
            for mo, c in poly.items():
                s = tuple(a for a in mo if sig(a))
                r = tuple(a for a in mo if not sig(a))
                if s:
                    d = out.setdefault(s, {})
                    d[r] = d.get(r, 0) + c
            return out

        byinst, names = {}, {}
        for c, o in zip(it.constraints, it.owner):
            byinst.setdefault(id(o), []).append(coeffs(eng.res[c]))
        marks = {}
        for o, val in it.marked:
            for x in refsem.flat(val) if isinstance(val, (list, dict)) else [val]:
                if x[0] in ('L', 'Q'):
                    marks.setdefault(id(o), []).append(coeffs(eng.res[x[1]]))
                else:
                    marks.setdefault(id(o), []).append(None)
        back = {v.rename.get(n, n): n for n in v.name.values()}
        atoms = {v.sigatom(l): back.get(n2, n2) for l, n in v.name.items() for n2 in [v.rename.get(n, n)]}
        # which emitted constraints state (syntactically) a constraint of which instance: same signals and value
        emitted = []
        if v.level == 0:
            for c in v.r.cons:
                # with a coefficient that is not zero in A, B or C
                syn = {v.sigatom(v.r.w2l[w]) for lc in c for w, x in lc if w and ev(list(eng.res[v.coef(x)].items()))}
                val = coeffs(v.con_poly(c))
                emitted.append((syn, self._norm({s: ev(list(d.items())) for s, d in val.items()}, eng.p)))
        got = {}
        for x in re.finditer(r'warning\[CA0([12])\]: In template "([^"]*)": (?:Array of )?(?:[Ll]ocal signals?|[Ss]ubcomponent input/output signals?) '
                             r'(\S+) (?:contains a total of (\d+) signals|does not appear)(?:[^\n]*\n[^\n]*?For example: (\S+), (\S+)\.)?',
                             v.run.stdout + '\n' + v.run.stderr):
            k, t, g, n, e1, e2 = x.groups()
            got.setdefault(t, []).append((k, g, int(n or 1), tuple(z for z in (e1, e2) if z)))
        expected = []
        for inst in it.insts:
            if 'custom' in inst.tmpl['flags']:
                continue
            own = [c.name for n in inst.order for c in refsem.flat(inst.sigs[n].tree)]
            io = [c.name for ch in inst.children for n in ch.order if ch.sigs[n].dir in ('input', 'output')
                  for c in refsem.flat(ch.sigs[n].tree)]
            prefix = back.get(own[0], own[0])[:-len(own[0]) + len(inst.name) + 1] if own else None
            if prefix is None:
                continue
            occ, may = set(), set()
            for q in byinst.get(id(inst), []):
                vals = {s: ev(list(d.items())) for s, d in q.items()}
                for s, val in vals.items():
                    if val:
                        occ.update(s)
                nv = self._norm(vals, eng.p)
                for syn, e in emitted:
                    if e == nv:
                        may |= syn
                if v.level:
                    if any(len(s) > 1 for s in q):
                        for s in q:
                            may.update(s)
            for q in marks.get(id(inst), []):
                for s, d in (q or {}).items():
                    may.update(s)
                    if ev(list(d.items())):
                        occ.update(s)
                if q is None:
                    may.update(a for a in atoms)
            # the classification is the same for every value on the path
            for x in own + io:
                a = eng.sym(('sig', x))
                cs = []
                for q in byinst.get(id(inst), []) + [m for m in marks.get(id(inst), []) if m]:
                    for s, d in q.items():
                        if a in s:
                            cs.append(eng.c_polyzero(d))
                if a not in occ and a in may:
                    continue
                want = a in occ
                if want:
                    if any(c is False for c in cs):
                        self.stats.by_normal_form += 1
                        continue
                    bad = self.ask(smt, pc + [c for c in cs if c is not True])
                else:
                    cs = [c for c in cs if c is not True]
                    if not cs:
                        self.stats.by_normal_form += 1
                        continue
                    bad = dict(m0) if False in cs else self.ask(smt, pc + [('or', tuple(neg(c) for c in cs))])
                if bad is not None:
                    self.f('inspect', 'signal %s of %s occurs in a constraint for some values of this path and in none for others, '
                           'with the same warnings' % (x, inst.name), bad)
                    return
            lists = {}
            for kind, xs in (('1', own), ('2', io)):
                for x in xs:
                    a = eng.sym(('sig', x))
                    if a in occ:
                        continue
                    n = back.get(x, x)[len(prefix):]
                    h, _, t = n.rpartition('.')
                    g = (h + '.' if h else '') + t.split('[')[0]
                    lists.setdefault((kind, g), []).append((n, a in may))
            expected.append((inst, lists))
        # every printed label describes one instance (or several that print alike), and every instance is described
        def group(n):
            h, _, t = n.rpartition('.')
            return (h + '.' if h else '') + t.split('[')[0]

        def takes(xs, n, ex):
            must = {x for x, m in xs if not m}
            return len(must) <= n <= len(xs) and set(ex) <= {x for x, _ in xs} and (n > 1 or must <= set(ex))

        def fits(warn, ls):
            w = {}
            for k, g, n, ex in warn:
                w.setdefault((k, group(g)) if n == 1 else (k, g), []).append((n, (g,) if n == 1 else ex))
            keys = set(w).union(*ls)
            for key in keys:
                xs = [l[key] for l in ls if key in l]
                es = w.get(key, [])
                if len(es) > len(xs):
                    return False
                es = es + [(0, ())] * (len(xs) - len(es))
                if not any(all(takes(x, *e) for x, e in zip(p, es)) for p in itertools.permutations(xs)):
                    return False
            return True
        kinds = {}
        for inst, l in expected:
            kinds.setdefault(inst.tmpl['name'], {}).setdefault(repr(sorted(l.items())), l)
        covered = set()
        for t, warn in got.items():
            c = kinds.get(t.split('(')[0], {})
            ok = False
            for k in (1, 2, 3):
                for combo in itertools.combinations(sorted(c), k):
                    if fits(warn, [c[x] for x in combo]):
                        ok = True
                        covered.update((t.split('(')[0], x) for x in combo)
            if not ok:
                self.f('inspect', 'warnings of "%s" name %s; the signals that occur in no constraint are %s' % (
                    t, sorted(warn), [sorted(x for y in l.values() for x, _ in y) for l in c.values()][:3]), m0)
                return
        for inst, l in expected:
            if (inst.tmpl['name'], repr(sorted(l.items()))) not in covered and not fits([], [l]):
                self.f('inspect', 'no warnings say that in %s (%s) %s occur in no constraint' % (
                    inst.name, inst.tmpl['name'], sorted(x for y in l.values() for x, m in y if not m)), m0)
                return

    @staticmethod
    def _norm(vals, p):
        """polynomial without constant term, up to a factor"""
        it = sorted((s, c) for s, c in vals.items() if c % p)
        if not it:
            return ()
        k = pow(it[0][1], -1, p)
        return tuple((s, c * k % p) for s, c in it)


def declorder(body):
    out = []

    def rec(s):
        if isinstance(s, (list, tuple)):
            if len(s) > 2 and s[0] == 'decl' and s[1][0] in ('signal', 'bus'):
                out.append(s[2])
                return
            for y in s:
                rec(y)
    rec(body)
    return out


def neg(c):
    return (not c) if isinstance(c, bool) else (c[1] if c[0] == 'not' else ('not', c))


def showm(m):
    return ', '.join('%s=%d' % (k[1] if k[0] == 'sig' else 'c%d' % k[1], v) for k, v in sorted(m.items(), key=repr)
                     if not isinstance(k, int))[:400]


def errline(run):
    t = (run.stdout + run.stderr).strip().splitlines()
    return ' | '.join(x.strip() for x in t if x.strip())[:300]
