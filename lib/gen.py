"""Generated skeletons: operator programs and random constraint systems."""
import random
from .corpus import Skel

BIN = ['+', '-', '*', '/', '\\', '%', '**', '<<', '>>', '&', '|', '^', '==', '!=', '<', '<=', '>', '>=', '&&', '||']
WIDE = 'template T(%s){ signal input a; signal output c[%d]; %s }\ncomponent main = T(%s);\n'


def prog(exprs, nlit, pre=''):
    ps = ','.join('x%d' % i for i in range(nlit))
    body = pre + ' '.join('c[%d] <== a*(%s);' % (i, e) for i, e in enumerate(exprs))
    return WIDE % (ps, len(exprs), body, ','.join('@%d' % i for i in range(nlit)))


def arith():
    """each operator on two arbitrary field elements"""
    out = []
    for o in BIN:
        dom = {}
        if o == '**':
            dom = {}
        out.append(Skel('arith/bin[%s]' % o, prog(['x0 %s x1' % o], 2), dom))
    out.append(Skel('arith/unary', prog(['-x0', '!x0', '~x0', '-(-x0)', '~(~x0)', '!(!x0)'], 1)))
    out.append(Skel('arith/ternary', prog(['x0 ? x1 : 3', 'x0 == x1 ? x0 : 2*x1', '!x0 ? 1 : (x1 ? 2 : 3)'], 2)))
    return out


def prec(stride=1, phase=0):
    """every pair of operators, without parentheses: precedence and associativity; the operands are symbolic in
    turn, the others fixed"""
    out = []
    for n, o1 in enumerate(BIN):
        for pos in range(3):
            ops = ['x0' if i == pos else str(v) for i, v in enumerate((7, 3, 2))]
            ex = ['%s %s %s %s %s' % (ops[0], o1, ops[1], o2, ops[2]) for o2 in BIN]
            # shifts and powers by a symbolic amount fork 17 ways: keep them in programs of their own
            if (n * 3 + pos) % stride != phase % stride:
                continue
            for part in (ex[:7], ex[7:14], ex[14:]):
                out.append(Skel('prec/%s.%d.%d' % (o1, pos, len(part) * 10 + ex.index(part[0])), prog(part, 1)))
    un = ['-x0 ** 2', '-x0 * 3', '!x0 == 1', '~x0 & 6', '-x0 % 5', '!x0 && 1', '~x0 << 1', '-x0 < 3', '2 - (-x0)',
          '!(x0 == 1)', '-(x0 + 1) \\ 2', '~x0 + 1', '-x0 - 1', '2 ** (-x0)', '!x0 + (!x0)', '-x0 >> 1', '~x0 ^ 5']
    for i in range(0, len(un), 6):
        out.append(Skel('prec/unary%d' % i, prog(un[i:i + 6], 1)))
    tern = ['x0 == 1 ? 2 : (x0 == 3 ? 4 : 5)', 'x0 && x0 > 3 ? x0 + 1 : x0 - 1', 'x0 | 1 ? x0 * 2 : 3', '(x0 ? 1 : 2) + x0',
            'x0 > 2 || x0 == 1 ? 1 : 0', 'x0 + 1 > 5 && x0 * 2 < 9 || x0 == 4', 'x0 & 3 == 1', 'x0 ^ 3 | 4 & x0',
            '1 + 2 << x0', 'x0 * x0 - 1 % 4', '2 ** x0 ** 2', '6 / x0 * x0', '100 - x0 - 3', '16 \\ 3 \\ 2 + x0',
            '1 << 2 << x0', '9 - 3 + x0', 'x0 == 1 == 0', 'x0 != x0 + 1 & 1', 'x0 < 3 == 1']
    for i in range(0, len(tern), 5):
        out.append(Skel('prec/mixed%d' % i, prog(tern[i:i + 5], 1)))
    return out


def lits():
    """number literals, reduced into the field"""
    return [Skel('lits/dec', prog(['17 + x0', '18 * x0', '34 - x0', '100 & x0', '16 * x0', '0 + x0'], 1)),
            Skel('lits/hex', prog(['0x11 + x0', '0xff * x0', '0x0 - x0', '0x10 & x0', '0xABCDEF * x0',
                                   '0xabcdef * x0'], 1)),
            Skel('lits/big', prog(['123456789012345678901234567890 + x0', '0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF * x0',
                                   '340282366920938463463374607431768211456 * x0'], 1)),
            Skel('lits/lead0', prog(['007 + x0', '0x007 * x0', '0000 + x0'], 1))]


def algebra(rng, n, name, nlit=2):
    """random expressions of degree <= 2 over signals with symbolic coefficients"""
    out = []
    for k in range(n):
        sig = ['a', 'b', 'e']

        def num(d):
            r = rng.random()
            if d == 0 or r < .35:
                return rng.choice(['x%d' % rng.randrange(nlit)] * 3 + [str(rng.randrange(20))])
            if r < .45:
                return '(-%s)' % num(d - 1)
            return '(%s %s %s)' % (num(d - 1), rng.choice(['+', '-', '*']), num(d - 1))

        def lin(d):
            r = rng.random()
            if d == 0 or r < .25:
                return rng.choice(sig + [num(1)])
            if r < .4:
                return '(%s * %s)' % (num(1), lin(d - 1)) if rng.random() < .5 else '(%s * %s)' % (lin(d - 1), num(1))
            if r < .48:
                return '(-%s)' % lin(d - 1)
            if r < .55:
                return '(%s / %s)' % (lin(d - 1), rng.choice(['3', '5', 'x0']))
            return '(%s %s %s)' % (lin(d - 1), rng.choice('+-'), lin(d - 1))

        def quad(d):
            r = rng.random()
            if r < .6 or d == 0:
                return '(%s * %s)' % (lin(2), lin(2))
            if r < .7:
                return '(%s * %s)' % (num(1), quad(d - 1))
            if r < .8:
                return '(-%s)' % quad(d - 1)
            return '(%s %s %s)' % (quad(d - 1), rng.choice('+-'), lin(2)) if rng.random() < .5 else \
                '(%s %s %s)' % (lin(2), rng.choice('+-'), quad(d - 1))
        body = ' '.join('c[%d] <== %s;' % (i, quad(2)) for i in range(2))
        body += ' %s === %s;' % (quad(1), lin(2))
        src = 'template T(x0,x1){ signal input a; signal input b; signal input e; signal output c[2]; %s }\n' % body
        out.append(Skel('%s/%d' % (name, k), src + 'component main = T(@0,@1);\n'))
    return out


def systems(rng, n, name, nsig=7, ncon=9, sub=True):
    """random systems: chains of linear definitions with symbolic coefficients, equalities, constants, products,
    redundant and conflicting equations, spread over the main component and instances of a sub-component"""
    out = []
    for k in range(n):
        names = ['s[%d]' % i for i in range(nsig)]
        lines = []
        avail = ['a', 'b']

        def co():
            return rng.choice(['x0', 'x1', '@%d' % rng.randrange(2, 4), '1', '2', '-1', '1', '1'])

        def lin(m):
            ts = []
            for _ in range(m):
                ts.append('%s*%s' % (co(), rng.choice(avail)))
            if rng.random() < .4:
                ts.append(co())
            return '+'.join(ts)
        order = names[:]
        for i, s in enumerate(order):
            r = rng.random()
            if r < .2:
                lines.append('%s <== %s;' % (s, rng.choice(avail)))
            elif r < .3:
                lines.append('%s <== %s;' % (s, co()))
            elif r < .62:
                lines.append('%s <== %s;' % (s, lin(rng.randrange(1, 3))))
            elif r < .85:
                lines.append('%s <== (%s)*(%s);' % (s, lin(1), rng.choice(avail)))
            else:
                lines.append('%s <-- %s;' % (s, rng.choice(avail)))
            avail.append(s)
        if sub:
            for j in range(2):
                lines.append('component k%d = S(%s); k%d.u <== %s; k%d.v <== %s;' % (
                    j, co(), j, rng.choice(avail), j, lin(1)))
                avail.append('k%d.w' % j)
        for _ in range(ncon - nsig):
            r = rng.random()
            if r < .4:
                lines.append('%s === %s;' % (rng.choice(avail), lin(1)))
            elif r < .7:
                lines.append('%s === %s;' % (lin(1), lin(2)))
            else:
                lines.append('%s*%s === %s;' % (rng.choice(avail), rng.choice(avail), lin(1)))
        lines.append('c <== %s;' % rng.choice(avail[2:]))
        lines.append('d <== %s;' % lin(2))
        src = ('template S(x0){ signal input u; signal input v; signal output w; signal t; signal r; t <== %s; r <== t*%s;'
               ' w <== r + %s; }\n' % (rng.choice(['u', 'x0*v+u', 'v-u', 'x0']), rng.choice(['v', 'u', '2', 't']),
                                       rng.choice(['x0', 'u', 'x0*t'])))
        src += ('template T(x0,x1){ signal input a; signal input b; signal output c; signal output d; signal s[%d]; %s }\n'
                'component main%s = T(@0,@1);\n' % (nsig, ' '.join(lines), rng.choice(['', ' {public [a]}', ' {public [b,a]}'])))
        out.append(Skel('%s/%d' % (name, k), src))
    return out


def bigcluster(n, name, rng, coef=None, extra='', pub='', affine=.5, deps=0):
    """one linear cluster of more than n constraints; arrays of three dimensions keep the indexes below the prime.
    pub: the public list, affine: how often an equation has a constant, deps: further, dependent equations"""
    def nm(i):
        return 's[%d][%d][%d]' % (i // 64, i // 8 % 8, i % 8)
    body = ['%s <== a;' % nm(0), '%s <== b;' % nm(1)]
    for i in range(2, n):
        r = rng.random()
        c = coef if coef and rng.random() < .05 else str(rng.randrange(1, 17))
        j, k = i - 1, rng.randrange(max(0, i - 6), i)
        if r < .1:
            body.append('%s <== %s;' % (nm(i), nm(j)))
        elif r < .5:
            body.append('%s <== %s + %s*%s;' % (nm(i), nm(j), c, nm(k)))
        elif r < .8:
            body.append('%s <== %s*%s + %s;' % (nm(i), c, nm(k), rng.randrange(17) if rng.random() < affine else nm(j)))
        else:
            body.append('%s <-- 1; %s*%s === %s + %s;' % (nm(i), rng.randrange(1, 17), nm(i), nm(j), nm(k)))

    def dep():
        i, j, k = rng.sample(range(n), 3)
        r = rng.random()
        k = nm(k) if r < .7 else '1' if r < .7 + .3 * affine else '0'
        return '%s*%s === %s*%s + %s;' % (rng.randrange(1, 17), nm(i), rng.randrange(1, 17), nm(j), k)
    src = ('template T(x0){ signal input a; signal input b; signal output c; signal output d; signal s[%d][8][8]; %s '
           'c <== %s; d <== %s; %s }\ncomponent main%s = T(@0);\n'
           % (n // 64 + 1, '\n'.join(body), '%s*%s' % (nm(n - 1), nm(n // 2)) if rng.random() < .6 else nm(n // 2), nm(n - 3),
              extra + ' '.join(dep() for _ in range(deps)), pub))
    # the trailing elements of the array are unused: give them a value
    tail = ' '.join('%s <-- 0;' % nm(i) for i in range(n, (n // 64 + 1) * 64))
    return Skel(name, src.replace(' }\ncomponent', tail + ' }\ncomponent'))


def bigsys(rng, n, name, nsig=60, ncon=75, prime=17):
    """large systems with fixed coefficients (small, or spread over the whole field) and symbolic signals: linear
    chains, equality classes, constants, redundant and conflicting equations, products of linear combinations"""
    out = []
    for k in range(n):
        dense = rng.choice([1, 2, 3, 4])
        pconst, peq, plin, pquad = rng.choice([(.1, .2, .4, .2), (.05, .4, .3, .15), (.2, .1, .2, .4), (.02, .05, .7, .15)])
        wide = rng.random() < .4

        def nm(i):
            return 's[%d][%d]' % (i // 8, i % 8)

        def co():
            r = rng.random()
            if r < .4:
                return '1'
            if r < .55:
                return '-1'
            if r < .85 or not wide:
                return str(rng.randrange(1, min(17, prime)))
            return str(rng.randrange(prime))
        avail = ['a', 'b[0]', 'b[1]']
        lines = []

        def pick():
            return rng.choice(avail[-12:] if rng.random() < .7 else avail)

        def lin(m):
            ts = ['%s*%s' % (co(), pick()) for _ in range(m)]
            if rng.random() < .25:
                ts.append(co())
            return '+'.join(ts)
        free = []
        for i in range(nsig):
            s = nm(i)
            r = rng.random()
            if r < pconst:
                lines.append('%s <== %s;' % (s, co()))
            elif r < pconst + peq:
                lines.append('%s <== %s;' % (s, pick()))
            elif r < pconst + peq + plin:
                lines.append('%s <== %s;' % (s, lin(rng.randrange(1, dense + 1))))
            elif r < pconst + peq + plin + pquad:
                lines.append('%s <== (%s)*(%s);' % (s, lin(rng.randrange(1, dense + 1)), lin(1)))
            else:
                lines.append('%s <-- 0;' % s)
                free.append(s)
            avail.append(s)
        for s in range(nsig, (nsig + 7) // 8 * 8):
            lines.append('%s <-- 0;' % nm(s))
        for j in range(3):
            lines.append('k[%d] = S(%s); k[%d].u <== %s; k[%d].v <== %s;' % (j, co(), j, pick(), j, lin(1)))
            avail.append('k[%d].w' % j)
        for _ in range(ncon - nsig):
            r = rng.random()
            t = rng.choice(free) if free and rng.random() < .6 else pick()
            if r < .35:
                lines.append('%s === %s;' % (t, pick()))
            elif r < .8:
                lines.append('%s*%s === %s;' % (co(), t, lin(rng.randrange(1, dense + 1))))
            elif r < .9:
                lines.append('%s === %s;' % (t, co()))
            else:
                lines.append('%s*%s === %s;' % (t, pick(), lin(1)))
        lines.append('c <== %s;' % pick())
        lines.append('d <== %s;' % lin(2))
        src = ('template S(x0){ signal input u; signal input v; signal output w; signal t; signal r; t <== %s; r <== t*%s;'
               ' w <== r + %s; }\n' % (rng.choice(['u', 'x0*v+u', 'v-u', 'x0']), rng.choice(['v', 'u', '2', 't']),
                                       rng.choice(['x0', 'u', 'x0*t'])))
        src += ('template T(){ signal input a; signal input b[2]; signal output c; signal output d; signal s[%d][8]; '
                'component k[3];\n%s }\ncomponent main%s = T();\n' %
                ((nsig + 7) // 8, '\n'.join(lines), rng.choice(['', ' {public [a]}', ' {public [b,a]}'])))
        out.append(Skel('%s/%d' % (name, k), src))
    return out
