"""Random families aimed at one part of the language each ('@k': symbolic literal)."""
import random, re
from .corpus import Skel


def _lit(r, vals, dims):
    if not dims:
        return vals.pop(0)
    return '[%s]' % ','.join(_lit(r, vals, dims[1:]) for _ in range(dims[0]))


SHAPES = {2: [(2, 1), (1, 2)], 4: [(2, 2), (4, 1), (1, 4)], 6: [(2, 3), (3, 2), (6, 1), (1, 6)],
          8: [(2, 4), (4, 2), (8, 1)], 12: [(3, 4), (4, 3), (2, 6), (6, 2)]}


def reshape(rng, n, name):
    """instances (and calls, and buses) whose array arguments hold the same elements in another shape, or whose
    arguments are equal except in one element"""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        tot = r.choice(list(SHAPES))
        m = r.randrange(2, 4)
        base = [str(r.choice([0, 1, 2, 3, 5, 7, 12])) if r.random() < .8 else 'n' for _ in range(tot)]
        lits = []
        for _ in range(m):
            v = list(base)
            if r.random() < .3:
                v[r.randrange(tot)] = r.choice(['n', '9', 'n+1'])
            lits.append(_lit(r, v, r.choice(SHAPES[tot])))
        order = r.random() < .5
        acc = ['a[0][0]', 'a[%d][0]' % r.randrange(0, 2), 'a[0][%d]' % r.randrange(0, 2)]
        body = 'y <== (%s)*x + %s;' % (r.choice(acc), r.choice(acc))
        par, arg = 'a', '%s'
        if r.random() < .4:
            par, arg = ('a, z', '%s, 3') if order else ('z, a', '3, %s')
        src = ''
        kind = r.randrange(4)
        if kind == 0:
            src += 'template T(%s){ signal input x; signal output y; %s }\n' % (par, body)
        elif kind == 1:
            src += 'function f(a){ return a; }\ntemplate T(%s){ signal input x; signal output y; var b[1] = a[0]; %s }\n' % (par, body)
        elif kind == 2:
            src += ('template U(a){ signal input x; signal output y; %s }\ntemplate T(%s){ signal input x; signal output y; '
                    'component u = U(a); u.x <== x; y <== u.y; }\n' % (body, par))
        else:
            src += ('function g(a){ return %s; }\ntemplate T(%s){ signal input x; signal output y; y <== g(a)*x; }\n'
                    % (r.choice(acc), par))
        inst = ''
        if r.random() < .5:
            inst = ' '.join('component c%d = T(%s); c%d.x <== x;' % (i, arg % l, i) for i, l in enumerate(lits))
            ref = ['c%d.y' % i for i in range(m)]
        else:
            inst = 'component c[%d]; ' % m + ' '.join('c[%d] = T(%s); c[%d].x <== x+%d;' % (i, arg % l, i, i) for i, l in enumerate(lits))
            ref = ['c[%d].y' % i for i in range(m)]
        inst += ' ' + ' '.join('o[%d] <== %s;' % (i, x) for i, x in enumerate(ref))
        src += 'template M(n){ signal input x; signal output o[%d]; %s }\ncomponent main = M(%s);\n' % (
            m, inst, '@0' if r.random() < .5 else '4')
        out.append(Skel('%s/%d' % (name, k), src))
    return out


def gates(rng, n, name):
    """custom templates: several instances, parameters that print alike, arrays of parameters, nested users"""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        g = []
        src = 'pragma circom 2.1.5; pragma custom_templates;\n'
        for i in range(r.randrange(1, 4)):
            np = r.choice([0, 1, 1, 2])
            ar = r.random() < .3
            nm = 'G' + 'x' * i if r.random() < .5 else 'G%d' % i
            ps = ['p%d' % j for j in range(np)] + (['q'] if ar else [])
            nin = r.choice([1, 1, 2])
            nou = r.choice([1, 1, 2])
            ns = r.choice([0, 0, 1])
            d = ['signal input x%s;' % ('[%d]' % nin if nin > 1 else ''), 'signal output y%s;' % ('[%d]' % nou if nou > 1 else '')]
            if ns:
                d.append('signal s;')
            r.shuffle(d)
            v = '(%s)*x%s' % ('+'.join([p for p in ps if p != 'q'] + (['q[0]'] if ar else []) + ['1']), '[0]' if nin > 1 else '')
            a = ['y%s <-- %s;' % ('[%d]' % j if nou > 1 else '', v) for j in range(nou)] + (['s <-- %s;' % v] if ns else [])
            r.shuffle(a)
            src += 'template custom %s(%s){ %s %s }\n' % (nm, ', '.join(ps), ' '.join(d), ' '.join(a))
            g.append((nm, np, ar, nin, nou))

        def use(c, x, par):
            nm, np, ar, nin, nou = r.choice(g)
            val = lambda: r.choice(['1', '12', '2', '123', '0', '3', '31', par, par + '+1', '16'])
            ps = [val() for _ in range(np)] + (['[%s]' % ','.join(val() for _ in range(2))] if ar else [])
            s = '%s = %s(%s);' % (c, nm, ', '.join(ps))
            for j in range(nin):
                s += ' %s.x%s <== %s;' % (c, '[%d]' % j if nin > 1 else '', x if j == 0 else r.choice([x, x + '*%d' % (j + 2), x + '+1', '7']))
            return s, '%s.y%s' % (c, '[%d]' % r.randrange(nou) if nou > 1 else '')
        b, x = '', 'x'
        for i in range(r.randrange(1, 4)):
            s, y = use('g%d' % i, r.choice([x, 'x', 'x*x', x + '+2']), 'k')
            b += 'component ' + s + ' '
            if r.random() < .3:
                b += 'signal t%d; t%d <== %s; ' % (i, i, y)
                y = 't%d' % i
            x = y
        src += 'template M(k){ signal input x; signal output y; %s y <== %s; }\n' % (b, r.choice([x, x + '*x', x + '+k']))
        b, x = '', 'a'
        for i in range(r.randrange(1, 4)):
            if r.random() < .5:
                b += 'component m%d = M(%s); m%d.x <== %s; ' % (i, r.choice(['n', '3', '1', '12']), i, r.choice([x, x + '*a']))
                x = 'm%d.y' % i
            else:
                s, x = use('h%d' % i, r.choice([x, 'a', 'a+' + x]), 'n')
                b += 'component ' + s + ' '
        src += 'template T(n){ signal input a; signal output c; %s c <== %s; }\ncomponent main%s = T(%s);\n' % (
            b, x, r.choice(['', ' {public [a]}']), r.choice(['@0', '5', '1', '12']))
        out.append(Skel('%s/%d' % (name, k), src))
    return out


def tags(rng, n, name):
    """tag values through element by element assignment, copies, sub-arrays, buses and instances"""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        lit = lambda: r.choice(['n', 'n+1', '5', '5', '3', '7', '5'])
        body, srcs = [], [('u', False)]
        uid = [0]

        def fresh():
            uid[0] += 1
            return 's%d' % uid[0]
        for _ in range(r.randrange(1, 4)):
            s = fresh()
            body.append('signal {t%s} %s;' % (', w' if r.random() < .2 else '', s))
            if r.random() < .8:
                body.append('%s.t = %s;' % (s, lit()))
            body.append('%s <== %s;' % (s, r.choice(['u', 'u*u', 'x'])))
            srcs.append((s, True))
        srcs.append(('x', True))
        arrs = []
        for _ in range(r.randrange(1, 4)):
            s = fresh()
            d = r.choice([(2,), (3,), (2, 2)])
            cells = ['[%d]' % i for i in range(d[0])] if len(d) == 1 else ['[%d][%d]' % (i, j) for i in range(2) for j in range(2)]
            r.shuffle(cells)
            body.append('signal %s%s%s;' % (r.choice(['{t} ', '{t} ', '{t, w} ', '']), s, ''.join('[%d]' % i for i in d)))
            if r.random() < .2:
                body.append('%s.t = %s;' % (s, lit()))
            same = [a for a, e in arrs if e == d]
            if same and r.random() < .25:
                body.append('%s <== %s;' % (s, r.choice(same)))
            else:
                rows = [a for a, e in arrs if e == (2,)]
                if len(d) == 2 and rows and r.random() < .5:
                    for i in range(2):
                        body.append('%s[%d] <== %s;' % (s, i, r.choice(rows)))
                else:
                    main = r.choice(srcs)
                    for c in cells:
                        e = main if r.random() < .7 else r.choice(srcs)
                        if r.random() < .3 and arrs:
                            a, ed = r.choice(arrs)
                            e = (a + ''.join('[%d]' % r.randrange(i) for i in ed), True)
                        body.append('%s%s %s %s%s;' % (s, c, '<==' if r.random() < .92 else '<--', e[0], '' if r.random() < .93 else '*2'))
            arrs.append((s, d))
            srcs.append((s + ''.join('[0]' for _ in d), True))
        reads = []
        for _ in range(r.randrange(1, 3)):
            a, d = r.choice(arrs)
            q = r.random()
            if q < .4:
                reads.append('%s.t' % a)
            elif q < .6:
                body.append('component g%d = G(%d); g%d.x <== %s;' % (uid[0], 1, uid[0], a + ''.join('[%d]' % r.randrange(i) for i in d)))
                reads.append('g%d.y' % uid[0])
                uid[0] += 1
            elif q < .8 and len(d) == 1:
                body.append('component h%d = H(%d); h%d.x <== %s;' % (uid[0], d[0], uid[0], a))
                reads.append('h%d.y' % uid[0])
                uid[0] += 1
            else:
                reads.append(r.choice(srcs)[0])
        src = ('template G(k){ signal input {t} x; signal output {t} y; %sy <== x*%s; }\n' % (
            r.choice(['', 'y.t = x.t + 1; ']), r.choice(['2', 'x.t', '(x.t+1)'])))
        src += 'template H(k){ signal input {t} x[k]; signal output y; signal {t} z[k]; for (var i=0;i<k;i++) { z[i] <== x[i]; } y <== %s; }\n' % (
            r.choice(['x[0]', 'x[0]*x.t', 'z[0]*z.t']))
        src += 'template T(n){ signal input {t} x; signal input u; signal output {t} y; %s y <== u*(%s); }\n' % ('\n '.join(body), ' + '.join(
            x for x in reads if x.endswith('.t')) or '1')
        sg = [x for x in reads if not x.endswith('.t')]
        if sg:
            src = src.replace(' y <== u*', ' signal zz; zz <== %s; y <== u*' % ' + '.join(sg))
        src += ('template M(n){ signal input a; signal input b; signal output o; signal {t} e; %se <== a; component c = T(n); '
                'c.x <== e; c.u <== b; o <== c.y%s; }\ncomponent main = M(%s);\n' % (
                    r.choice(['', 'e.t = n; ', 'e.t = 5; ', 'e.t = 5; ']), r.choice(['', '*c.y.t']), r.choice(['@0', '@0', '4', '5'])))
        out.append(Skel('%s/%d' % (name, k), src))
    return out


def mixed(rng, n, name):
    """component arrays whose elements are instances with different parameters, sizes and templates' interfaces"""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        bus = r.random() < .5
        par = lambda: 'parallel ' if r.random() < .15 else ''
        src = ''
        if bus:
            src += 'bus B(k){ %s }\n' % ' '.join(r.sample(['signal f[k];', 'signal g;', 'signal h[2];'], 3))
        d = ['signal input x;', 'signal input a[n];', 'signal output y[n];', 'signal output z;', 'signal m[n];']
        if r.random() < .3:
            d.append('signal input e[2][n];')
        else:
            d.append('')
        if bus:
            d += ['input B(n) b;', 'output B(n) q;']
        r.shuffle(d)
        body = ['for (var i=0;i<n;i++) { m[i] <== a[i]*%s; y[i] <== m[i] + %s; }' % (r.choice(['x', 'n', 'a[0]']), r.choice(['i', 'x', 'n'])),
                'z <== %s;' % r.choice(['x*x', 'm[0]', 'y[n-1]*x'])]
        if bus:
            body.append(r.choice(['q <== b;', 'for (var i=0;i<n;i++) { q.f[i] <== b.f[n-1-i]; } q.g <== b.g*x; q.h <== b.h;']))
        sub = r.random() < .4
        if sub:
            src += 'template %sS(k){ signal input u[k]; signal output v; var t = 0; for (var i=0;i<k;i++) t += u[i]*i; v <== t; }\n' % par()
            if r.random() < .5:
                body.append('component s = S(n); for (var i=0;i<n;i++) { s.u[i] <== a[n-1-i]; } signal w; w <== s.v;')
            else:
                body.append('component s[n]; for (var j=0;j<n;j++) { s[j] = %sS(j+1); for (var i=0;i<=j;i++) { s[j].u[i] <== a[i]+j; } }'
                            ' signal w[n]; for (var j=0;j<n;j++) { w[j] <== s[j].v; }' % par())
        src += 'template %sA(n){ %s %s }\n' % (par(), ' '.join(d), '\n '.join(body))
        m = r.randrange(2, 4)
        form = r.choice(['i+1', str(m) + '-i', 'i%2+1', '2', 'i == 1 ? 3 : 1'])
        sz = [eval({'i+1': 'i+1', 'i%2+1': 'i%2+1', '2': '2'}.get(form, '(3 if i == 1 else 1)' if '?' in form else 'm-i'), {'i': i, 'm': m}) for i in range(m)]
        tot = sum(sz)
        b = ['component c[%d];' % m]
        inp = ['for (var j=0;j<%s;j++) { c[i].a[j] <== in[%s]; }' % ('(%s)' % form, r.choice(['j', '(i+j)%3', '2-j'])),
               'c[i].x <== %s;' % r.choice(['in[i]', 'in[0]*in[i]', 'i', 'i == 0 ? in[0] : c[i-1].z'][:3] if r.random() < .7 else ['in[i]'])]
        if any('e[2]' in x for x in d):
            inp.append('for (var j=0;j<2;j++) { for (var l=0;l<(%s);l++) { c[i].e[j][l] <== in[(j+l)%%3]; } }' % form)
        if bus:
            inp.append('for (var j=0;j<(%s);j++) { c[i].b.f[j] <== in[j]*in[0]; } c[i].b.g <== in[1]; for (var j=0;j<2;j++) { c[i].b.h[j] <== in[j]+i; }' % form)
        r.shuffle(inp)
        b.append('for (var i=0;i<%d;i++) { c[i] = %sA(%s); %s }' % (m, par(), form, ' '.join(inp)))
        outs = []
        for i in range(m):
            outs.append('c[%d].y[%d]' % (i, r.randrange(sz[i])))
            outs.append('c[%d].z' % i)
            if bus:
                outs.append('c[%d].q.%s' % (i, r.choice(['f[%d]' % r.randrange(sz[i]), 'g', 'h[1]'])))
        r.shuffle(outs)
        b += ['o[%d] <== %s;' % (i, x) for i, x in enumerate(outs)]
        if r.random() < .3:
            b.append('signal t; var q = 0; for (var i=0;i<%d;i++) { q += c[i].z; } t <== q;' % m)
        src += 'template M(k){ signal input in[3]; signal output o[%d]; %s }\ncomponent main%s = M(@0);\n' % (
            len(outs), '\n '.join(b), r.choice(['', ' {public [in]}']))
        out.append(Skel('%s/%d' % (name, k), 'pragma circom 2.2.0;\n' + src))
    return out


def _body(r, par):
    """the body of a function over the parameters: every variable starts with a number (mostly) and is changed in at most one or two places"""
    vs = ['v%d' % i for i in range(r.randrange(1, 4))]
    w = r.random() < .35
    n = r.randrange(2, 5)
    s = ['var k = %d;' % n] if w else []
    out = ['var %s = %s;' % (v, str(r.randrange(0, 6)) if r.random() < .75 else r.choice(par)) for v in vs]
    if w:
        out += ['var w[k];' if r.random() < .7 else 'var w[%d];' % n]
    cnt = [0]

    def atom():
        return r.choice(par + vs + [str(r.randrange(0, 7))])

    def cond():
        return '%s %s %s' % (r.choice(par + vs), r.choice(['==', '!=', '<', '>=']), r.choice([str(r.randrange(0, 5)), r.choice(par)]))

    def assign():
        if w and r.random() < .3:
            return 'w[%s] = %s;' % (r.choice([str(r.randrange(n)), 'k-1']), r.choice(['%s', '%s + 1', '2*%s']) % atom())
        v = r.choice(vs)
        return r.choice(['%s = %s;' % (v, r.choice(['%s', '%s + 2', '3*%s']) % atom()), '%s += %s;' % (v, atom()), '%s++;' % v,
                         '%s = %d;' % (v, r.randrange(9))])

    def block(d):
        return '{ %s }' % ' '.join(stmt(d - 1) for _ in range(r.randrange(1, 3)))

    def stmt(d):
        x = r.random()
        if d <= 0 or x < .3:
            return assign()
        if x < .45:
            return 'if (%s) %s' % (cond(), block(d))
        if x < .68:
            return 'if (%s) %s else %s' % (cond(), block(d), block(d) if r.random() < .8 else assign())
        if x < .86:
            cnt[0] += 1
            i = 'i%d' % cnt[0]
            if r.random() < .5:
                return 'for (var %s = 0; %s < %d; %s++) %s' % (i, i, r.randrange(1, 4), i, block(d))
            return 'var %s = %d; while (%s < %d) { %s %s++; }' % (i, r.randrange(2), i, r.randrange(1, 4), stmt(d - 1), i)
        if x < .93:
            v = r.choice(vs)
            return '{ var %s = %d; %s %s }' % (v, r.randrange(9), stmt(d - 1), stmt(d - 1))
        return block(d)
    out += [stmt(3) for _ in range(r.randrange(1, 4))]
    if r.random() < .2:
        out.insert(r.randrange(len(vs) + bool(w), len(out)), 'if (%s) { return %s; }' % (cond(), r.choice(vs)))
    e = ' + '.join('%d*%s' % (k + 1, v) for k, v in enumerate(vs))
    if w:
        e += ' + w[0] + 2*w[k-1]'
    return ' '.join(s + out) + ' return %s;' % e


def funs(rng, n, name, wit=False):
    """functions whose variables start with constants and are changed in one place: a loop, one case of a conditional, an inner block"""
    out = []
    for k in range(n):
        r = random.Random(rng.random())
        par = ['p', 'q'][:r.randrange(1, 3)]
        src = 'function f(%s){ %s }\n' % (', '.join(par), _body(r, par))
        if wit:
            args = ', '.join(r.choice(['a', 'b', 'a+b', '3']) if i else 'a' for i in range(len(par)))
            src += 'template T(){ signal input a; signal input b; signal output o; o <-- f(%s)%s; }\ncomponent main = T();\n' % (args, r.choice(['', ' + b', '*b']))
        elif r.random() < .7:
            args = ', '.join(r.choice(['n', '@1', '2', 'n+1']) if i else 'n' for i in range(len(par)))
            src += 'template T(n){ signal input a; signal output o; o <== f(%s)*a; }\ncomponent main = T(@0);\n' % args
        else:
            src = 'template T(p, q){ signal input a; signal output o; %s }\ncomponent main = T(@0, %s);\n' % (
                re.sub(r' return ([^;]*);$', r' o <== (\1)*a;', re.sub(r'if \([^()]*\) \{ return v\d; \}', '', _body(r, ['p', 'q']))), r.choice(['@1', '3']))
        out.append(Skel('%s/%d' % (name, k), src))
    return out
