"""C36: every --prime option selects one and the same field in the compiler, the files and both kinds of witness code."""
import json, os, shutil, subprocess, tempfile, time
import z3
from . import build, bvpaths, suite, symrun, relcheck, wat
from . import r1cs as R
from .corpus import Skel
from .frwasm import ALL, DOC, Field, FrMachine
from .gen import prog
from .inputs import wtns
from .suite import Job
from .wat import Trap, Unenc

EXPRS = ['x0+x1', 'x0-x1', '2*x0-x1', '-x0', 'x0*3', 'x0/3', '5-x0', 'x0<x1', 'x0>3', 'x0>=x1', 'x0<=0-3', 'x0==x1', 'x0!=0-1', '!x0', 'x0&&x1', 'x0||0',
         'x0&x1', 'x0|x1', 'x0^x1', '~x0', 'x0&255', 'x0|1', 'x0>>3', 'x0>>200', 'x0<<2', 'x0<<200', 'x0>>x1', '(0-x0)>>1', '2**x0', 'x0 ? x1 : 3', 'x0\\1024',
         '2**300+x0']
PROG = ('pragma circom 2.0.0;\ntemplate T(){ signal input a; signal input b; signal output c; signal output d; signal output e; '
        'c <== a+b; d <== a; e <-- a > b; }\ncomponent main = T();\n')
LIN = ('template A(k){ signal input x; signal output y; y <== k*x+1; }\ntemplate T(x0){ signal input a; signal input b; signal output c; component q = A(x0); '
       'q.x <== a; signal s; s <== q.y+b; c <== s*a+x0; }\ncomponent main = T(@0);\n')


def skels(pr, q):
    out = [Skel('%s/%s' % (pr, e), prog([e], 2 if 'x1' in e else 1), {}) for e in EXPRS]
    for n, k in (('p', q), ('pm1', q - 1), ('pp1', q + 1), ('half', q // 2), ('half1', q // 2 + 1), ('hex', hex(q + 2)), ('twice', 2 * q + 3)):
        out.append(Skel(pr + '/lit.' + n, prog(['%s + x0' % k, '%s > 0 ? x0 : 3' % k], 1), {}))
    return out


def compile_jobs(thorough):
    js = []
    env = {'SYMX_NOMAP': '1'}
    for pr, q in DOC.items():
        kw = dict(p=q, extra=['--prime', pr], env=env, budget_s=120 if thorough else 20, timeout_ms=60000 if thorough else 5000, max_paths=300 if thorough else 12)
        js += [Job(s, 0, ['outcome', 'rel', 'field'], **kw) for s in skels(pr, q)]
        js += [Job(Skel(pr + '/linear', LIN, {}), l, ['outcome', 'rel', 'iface', 'form', 'field', 'sym', 'json', 'subst'], **kw) for l in (0, 1, 2, 'r1', 'old')]
    return js


# ---- the WebAssembly module: everything it says about its field, and unknown inputs through it -----------------------
def wasm_unit(exe, pr, fail, cov, P):
    q = DOC[pr]
    r = symrun.execute(exe, {'main.circom': PROG}, 'main.circom', ['--O0', '--wat', '--sym', '--prime', pr], {'SYMX_NOMAP': '1'})
    if r.rc:
        return fail('--prime %s does not compile: %s' % (pr, r.stderr[-200:]))
    mod = wat.Module([c for n, c in r.files.items() if n.endswith('.wat')][0].decode())
    F = Field(pr, mod)
    if F.n32 != -(-q.bit_length() // 64) * 2:
        raise Unenc('limb count')
    wire = {n: w for s, w, c, n in R.parse_sym([c for n, c in r.files.items() if n.endswith('.sym')][0].decode())}

    def one():
        M = FrMachine(F, P, ALL)
        n32 = M.call('$getFieldNumLen32')[0]
        if n32 != F.n32:
            return M, 'the module says a number has %s words; the prime needs %d' % (n32, F.n32), None
        M.call('$getRawPrime')
        x = 0
        for k in range(n32):
            x |= M.c(M.call('$readSharedRWMemory', k)[0]) << 32 * k
        if x != q:
            return M, 'getRawPrime gives %d' % x, None
        M.call('$init', 1)
        vs = {}
        for nm in 'ab':
            v = z3.BitVec(nm, F.W)
            P.assume(z3.ULT(v, M.B.k(q)))
            vs[nm] = v
            for k in range(n32):
                M.call('$writeSharedRWMemory', k, z3.Extract(32 * k + 31, 32 * k, v))
            h = 0xcbf29ce484222325
            for ch in nm.encode():
                h = ((h ^ ch) * 0x100000001b3) & (1 << 64) - 1
            M.call('$setInputSignal', h >> 32, h & 0xffffffff, 0)
        want = dict(c=M.B.add(vs['a'], vs['b']), d=vs['a'], e=M.B.b(M.B.gt(vs['a'], vs['b'])), a=vs['a'], b=vs['b'])
        for s, w in want.items():
            M.call('$getWitness', wire['main.' + s])
            ws = [M.call('$readSharedRWMemory', k)[0] for k in range(n32)]
            from .watbv import bv
            got = z3.Concat(*[bv(x, 32) for x in reversed(ws)])
            ok, m = P.valid(got == w)
            if not ok:
                return M, 'witness of %s' % s, {n: m.eval(v, model_completion=True).as_long() for n, v in vs.items()}
        return M, None, None
    for M, what, m in P.run(one):
        cov['paths'] += 1
        if what:
            return fail('%s%s' % (what, ' for %s' % m if m else ''))


# ---- the shipped drivers and the C++ code: constants and one computation per prime ------------------------------------
def header(f):
    b = open(f, 'rb').read()
    if b[:4] != b'wtns':
        raise ValueError('not a .wtns file')
    o = 12
    n = int.from_bytes(b[8:12], 'little')
    for _ in range(n):
        t, l = int.from_bytes(b[o:o + 4], 'little'), int.from_bytes(b[o + 4:o + 12], 'little')
        if t == 1:
            n8 = int.from_bytes(b[o + 12:o + 16], 'little')
            return n8, int.from_bytes(b[o + 16:o + 16 + n8], 'little')
        o += 12 + l
    raise ValueError('no header')


def driver_unit(exe, pr, kind, fail, cov):
    q = DOC[pr]
    d = tempfile.mkdtemp(prefix='c36')
    try:
        open(os.path.join(d, 'prog.circom'), 'w').write(PROG)
        args = ['--wasm'] if kind == 'js' else ['--c'] + (['--no_asm'] if kind == 'noasm' else [])
        r = subprocess.run([exe, 'prog.circom', '--O0', '--sym', '--r1cs', '--prime', pr] + args, cwd=d, capture_output=True, text=True, env=dict(os.environ, SYMX_NOMAP='1'))
        if r.returncode:
            return fail('--prime %s %s does not compile: %s' % (pr, args, (r.stdout + r.stderr)[-300:]))
        if kind == 'js':
            cmd = ['node', 'prog_js/generate_witness.js', 'prog_js/prog.wasm']
        else:
            r = subprocess.run(['make', 'CFLAGS=-std=c++11 -O0 -I.'], cwd=os.path.join(d, 'prog_cpp'), capture_output=True, text=True, timeout=400)
            if r.returncode:
                return fail('the C++ code for --prime %s%s does not build: %s' % (pr, ' --no_asm' if kind == 'noasm' else '', r.stderr[-300:]))
            cmd = ['prog_cpp/prog']
        wire = {n: w for s, w, c, n in R.parse_sym(open(os.path.join(d, 'prog.sym')).read())}
        rc = R.parse_r1cs(open(os.path.join(d, 'prog.r1cs'), 'rb').read())
        for a, b in ((q - 1, q - 1), (q // 2, q // 2 + 1), (q // 2 + 1, 1), (3, q - 5)):
            json.dump(dict(a=str(a), b=str(b)), open(os.path.join(d, 'in.json'), 'w'))
            out = os.path.join(d, 'w.wtns')
            if os.path.exists(out):
                os.unlink(out)
            r = subprocess.run(cmd + ['in.json', 'w.wtns'], cwd=d, capture_output=True, text=True, timeout=60)
            cov['runs'] += 1
            if r.returncode or not os.path.exists(out):
                return fail('the witness generator fails for a=%d, b=%d: %s' % (a, b, (r.stdout + r.stderr)[-200:]))
            n8, p = header(out)
            if p != q:
                return fail('the .wtns header has the prime %d' % p)
            if n8 != rc.fs:
                return fail('numbers have %d bytes in the .wtns file and %d in the .r1cs file' % (n8, rc.fs))
            w = wtns(out)
            s = lambda x: x - q if x > q // 2 else x
            for n, v in dict(a=a, b=b, c=(a + b) % q, d=a, e=int(s(a) > s(b))).items():
                if w[wire['main.' + n]] != v:
                    return fail('%s is %d in the witness, not %d, for a=%d, b=%d' % (n, w[wire['main.' + n]], v, a, b))
    finally:
        shutil.rmtree(d, True)


def _unit(u):
    exe, pr, kind = u
    P = bvpaths.Paths(timeout_ms=60000)
    out = dict(label='%s/%s' % (kind, pr), finds=[], err=None, cov=dict(paths=0, runs=0))
    t0 = time.time()
    try:
        def fail(what):
            out['finds'].append((kind, what))
        if kind == 'wasm':
            wasm_unit(exe, pr, fail, out['cov'], P)
        else:
            driver_unit(exe, pr, kind, fail, out['cov'])
    except wat.Bad as ex:
        out['finds'].append((kind, str(ex)))
    except (Unenc, Trap, bvpaths.Budget, Exception) as ex:
        out['err'] = '%s: %s' % (type(ex).__name__, ex)
    out.update(queries=P.queries, ms=P.ms, wall=round(time.time() - t0, 2))
    return out


def C36(thorough, seed):
    rep = suite.Report('C36', 'primes')
    exe = build.sym_circom()
    import multiprocessing
    us = [(exe, pr, k) for k in ('cpp', 'noasm', 'wasm', 'js') for pr in DOC if (k, pr) != ('noasm', 'goldilocks')]
    with multiprocessing.get_context('fork').Pool(8, initializer=suite._init, maxtasksperchild=1) as pool:
        outs = pool.map(_unit, us, chunksize=1)
    js = compile_jobs(thorough)
    rep.add_jobs(js, suite.run_jobs(exe, js, deadline=time.time() + (3000 if thorough else 300)))
    rep.cov['skeletons_run'] = rep.cov.get('skeletons_run', 0) + len(outs)
    rep.cov.update(extra_queries=sum(o['queries'] for o in outs), extra_solver_ms=int(sum(o['ms'] for o in outs)),
                   parts={k: dict(units=sum(o['label'].startswith(k) for o in outs), paths=sum(o['cov']['paths'] for o in outs if o['label'].startswith(k)),
                                  concrete_runs=sum(o['cov']['runs'] for o in outs if o['label'].startswith(k))) for k in ('wasm', 'js', 'cpp', 'noasm')})
    for o in outs:
        if o['err']:
            rep.errors.append('%s: %s' % (o['label'], o['err']))
        for k, what in o['finds']:
            rep.violation(o['label'], k, what, dict(files={'main.circom': PROG}, args=['--prime', o['label'].split('/')[1]], reproduced=True))
    rep.assumptions = ['inputs are below the prime when they reach the module (the JavaScript driver reduces them)',
                       'the documented primes are those of docs (mkdocs/docs/circom-language/basic-operators.md and the curve definitions)']
    rep.explanation = ('compile time: the compiler runs over symbolic integers at the full size of every prime; each operation on unknown constants is compared '
                       'with the language definition over that prime by polynomial normal forms and z3 bit-vectors, and the field of the .r1cs header with the documented prime; '
                       'WebAssembly: the emitted module is executed over z3 bit-vectors with unknown inputs of full size from setInputSignal to getWitness; '
                       'JavaScript and C++ (assembly and portable): the constants in the .wtns header and four computations at the edges of the field, run natively')
    return rep.finish('translation_validation', dict(primes=list(DOC), expressions=len(EXPRS) + 7, paths_per_program=12, solver_timeout_ms=5000,
                      wasm='two unknown inputs below the prime, all paths', cpp='constants only; not symbolic',
                      outside='products, inverses, powers and remainders by other than powers of two of two unknown constants at full field size (decided over the small field by C01)'),
                      ['UsefulConstants::new', 'modular_arithmetic (add, sub, neg, mul, div by constants, shifts, bit operations, comparisons, booleans)', 'R1CS header writers',
                       'fr_code/fr_data/fr_types', 'generated $getRawPrime $getFieldNumLen32 $setInputSignal $getWitness', 'generate_fr_hpp_file', 'generate_fr_cpp_file', 'generate_fr_asm_file'])
