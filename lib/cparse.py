"""Independent parser for the circom language (reference semantics side).

Written from the language documentation; shares nothing with /repo's parser."""
import re


class SyntaxErr(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>"[^"]*")
 |(?P<hex>0x[0-9A-Fa-f]+)
 |(?P<num>[0-9]+)
 |(?P<id>[$_]*[a-zA-Z][a-zA-Z$_0-9]*)
 |(?P<op>===|<==|==>|<--|-->|\*\*=|<<=|>>=|\*\*|\+\+|--|\+=|-=|\*=|/=|%=|\\=|&=|\|=|\^=|&&|\|\||==|!=|<=|>=|<<|>>|[-+*/\\%&|^~!<>?:;,.(){}\[\]=_])
''', re.X | re.S)


def lex(src):
    out = []
    i = 0
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise SyntaxErr('bad character at %d: %r' % (i, src[i:i + 20]))
        k = m.lastgroup
        if k not in ('ws', 'lc', 'bc'):
            out.append((k, m.group(), m.start()))
        i = m.end()
    out.append(('eof', '', len(src)))
    return out


BIN = [['||'], ['&&'], ['==', '!=', '<', '>', '<=', '>='], ['|'], ['^'], ['&'], ['<<', '>>'], ['+', '-'],
       ['*', '/', '\\', '%'], ['**']]
KEYWORDS = {'signal', 'input', 'output', 'var', 'component', 'template', 'function', 'if', 'else', 'for', 'while',
            'return', 'log', 'assert', 'pragma', 'include', 'bus', 'public', 'parallel', 'custom', 'extern_c'}
ASSIGN = {'=', '<==', '<--'}
OPASSIGN = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '\\=': '\\', '**=': '**', '<<=': '<<', '>>=': '>>',
            '&=': '&', '|=': '|', '^=': '^'}


class Parser:
    def __init__(self, src):
        self.t = lex(src)
        self.i = 0

    @property
    def cur(self):
        return self.t[self.i]

    def at(self, v):
        return self.cur[1] == v and self.cur[0] != 'str'

    def peek(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def eat(self, v=None):
        t = self.cur
        if v is not None and not self.at(v):
            raise SyntaxErr('expected %r, found %r at %d' % (v, t[1], t[2]))
        self.i += 1
        return t

    def opt(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def ident(self):
        t = self.eat()
        if t[0] != 'id' or t[1] in KEYWORDS:
            raise SyntaxErr('identifier expected, found %r at %d' % (t[1], t[2]))
        return t[1]

    # ---- program ----
    def program(self):
        P = dict(templates={}, functions={}, buses={}, main=None, pragmas=[], includes=[])
        while self.at('pragma'):
            self.eat()
            w = []
            while not self.at(';'):
                w.append(self.eat()[1])
            self.eat(';')
            P['pragmas'].append(w)
        while self.at('include'):
            self.eat()
            P['includes'].append(self.eat()[1].strip('"'))
            self.eat(';')
        while self.cur[0] != 'eof':
            if self.at('function'):
                self.eat()
                n = self.ident()
                args = self.params()
                P['functions'][n] = dict(name=n, params=args, body=self.block())
            elif self.at('template'):
                self.eat()
                fl = set()
                while self.cur[1] in ('custom', 'extern_c', 'parallel'):
                    fl.add(self.eat()[1])
                n = self.ident()
                args = self.params()
                P['templates'][n] = dict(name=n, params=args, flags=fl, body=self.block())
            elif self.at('bus'):
                self.eat()
                n = self.ident()
                args = self.params() if self.at('(') else []
                P['buses'][n] = dict(name=n, params=args, body=self.block())
            elif self.at('component'):
                self.eat()
                if self.ident() != 'main':
                    raise SyntaxErr('main expected')
                pub = []
                if self.opt('{'):
                    self.eat('public')
                    self.eat('[')
                    pub = self.idlist(']')
                    self.eat(']')
                    self.eat('}')
                self.eat('=')
                P['main'] = dict(public=pub, init=self.expr())
                self.eat(';')
            else:
                raise SyntaxErr('definition expected, found %r' % (self.cur[1],))
        return P

    def idlist(self, end):
        out = []
        if not self.at(end):
            out.append(self.ident())
            while self.opt(','):
                out.append(self.ident())
        return out

    def params(self):
        self.eat('(')
        r = self.idlist(')')
        self.eat(')')
        return r

    # ---- statements ----
    def block(self):
        self.eat('{')
        out = []
        while not self.at('}'):
            out.append(self.stmt(True))
        self.eat('}')
        return ('block', out)

    def is_busdecl(self):
        # IDENT IDENT | IDENT ( ... ) IDENT|input|output|{ | input/output IDENT
        if self.cur[0] != 'id' or self.cur[1] in KEYWORDS:
            return False
        n = self.peek()
        if n[0] == 'id' and (n[1] not in KEYWORDS or n[1] in ('input', 'output')):
            return True
        if n[1] == '{':
            return True
        if n[1] == '(':
            j, d = self.i + 1, 0
            while True:
                if self.t[j][1] == '(':
                    d += 1
                elif self.t[j][1] == ')':
                    d -= 1
                    if d == 0:
                        break
                elif self.t[j][0] == 'eof':
                    return False
                j += 1
            m = self.t[j + 1]
            return (m[0] == 'id' and (m[1] not in KEYWORDS or m[1] in ('input', 'output'))) or m[1] == '{'
        return False

    def tags(self):
        if self.opt('{'):
            r = self.idlist('}')
            self.eat('}')
            return r
        return []

    def decl(self):
        """declaration without the trailing semicolon"""
        bus = None
        if self.at('var'):
            self.eat()
            xt = ('var',)
        elif self.at('component'):
            self.eat()
            xt = ('component',)
        elif self.at('signal'):
            self.eat()
            d = self.eat()[1] if self.cur[1] in ('input', 'output') else 'inter'
            xt = ('signal', d, self.tags())
        elif self.cur[1] in ('input', 'output'):
            d = self.eat()[1]
            if self.opt('signal'):
                xt = ('signal', d, self.tags())
            else:
                bn = self.ident()
                ar = self.args() if self.at('(') else []
                xt = ('bus', d, None)
                bus = (bn, ar)
                xt = ('bus', d, self.tags(), bn, ar)
        else:
            bn = self.ident()
            ar = self.args() if self.at('(') else []
            d = self.eat()[1] if self.cur[1] in ('input', 'output') else 'inter'
            xt = ('bus', d, self.tags(), bn, ar)
        if self.at('(') and xt[0] in ('var', 'signal', 'component'):
            self.eat('(')
            syms = [self.symbol()]
            while self.opt(','):
                syms.append(self.symbol())
            self.eat(')')
            out = [('decl', xt, n, dims) for n, dims in syms]
            if self.cur[1] in ASSIGN:
                op = self.eat()[1]
                out.append(('assign', ('tuple', [('var', n, []) for n, _ in syms]), op, self.expr()))
            return ('seq', out)
        out = []
        while True:
            n, dims = self.symbol()
            out.append(('decl', xt, n, dims))
            if self.cur[1] in ASSIGN:
                op = self.eat()[1]
                out.append(('assign', ('var', n, []), op, self.expr()))
            elif xt[0] == 'var' and not self.noinit:
                out.append(('zeroinit', n))
            if not self.opt(','):
                break
        return ('seq', out)

    noinit = False

    def symbol(self):
        n = self.ident()
        dims = []
        while self.opt('['):
            dims.append(self.expr())
            self.eat(']')
        return n, dims

    def args(self):
        self.eat('(')
        out = []
        if not self.at(')'):
            out.append(self.expr())
            while self.opt(','):
                out.append(self.expr())
        self.eat(')')
        return out

    def simple(self):
        """substitution statement without semicolon"""
        e = self.expr()
        o = self.cur[1]
        if o in ASSIGN:
            self.eat()
            return ('assign', e, o, self.expr())
        if o == '-->':
            self.eat()
            return ('assign', self.expr(), '<--', e)
        if o == '==>':
            self.eat()
            return ('assign', self.expr(), '<==', e)
        if o in OPASSIGN:
            self.eat()
            return ('assign', e, '=', ('bin', OPASSIGN[o], e, self.expr()))
        if o in ('++', '--'):
            self.eat()
            return ('assign', e, '=', ('bin', o[0], e, ('num', 1)))
        if o == '===':
            self.eat()
            return ('ceq', e, self.expr())
        if e[0] == 'anon':
            return ('anonstmt', e)
        raise SyntaxErr('statement expected at %d' % self.cur[2])

    def stmt(self, decls):
        if self.at('{'):
            return self.block()
        if self.at('if'):
            self.eat()
            self.eat('(')
            c = self.expr()
            self.eat(')')
            a = self.stmt(False)
            b = None
            if self.opt('else'):
                b = self.stmt(False)
            return ('if', c, a, b)
        if self.at('for'):
            self.eat()
            self.eat('(')
            init = self.decl() if self.at('var') else self.simple()
            self.eat(';')
            c = self.expr()
            self.eat(';')
            step = self.simple()
            self.eat(')')
            body = self.stmt(False)
            return ('block', [init, ('while', c, ('block', [body, step]))])
        if self.at('while'):
            self.eat()
            self.eat('(')
            c = self.expr()
            self.eat(')')
            return ('while', c, self.stmt(False))
        if self.at('return'):
            self.eat()
            e = self.expr()
            self.eat(';')
            return ('return', e)
        if self.at('log'):
            self.eat()
            self.eat('(')
            a = []
            while not self.at(')'):
                if self.cur[0] == 'str':
                    a.append(('str', self.eat()[1]))
                else:
                    a.append(self.expr())
                if not self.opt(','):
                    break
            self.eat(')')
            self.eat(';')
            return ('log', a)
        if self.at('assert'):
            self.eat()
            self.eat('(')
            e = self.expr()
            self.eat(')')
            self.eat(';')
            return ('assert', e)
        if self.cur[1] in ('var', 'signal', 'component', 'input', 'output') or self.is_busdecl():
            d = self.decl()
            self.eat(';')
            return d
        s = self.simple()
        self.eat(';')
        return s

    # ---- expressions ----
    def expr(self):
        if self.at('parallel'):
            self.eat()
            return ('parallel', self.expr())
        c = self.binary(0)
        if self.opt('?'):
            a = self.binary(0)
            self.eat(':')
            b = self.binary(0)
            return ('tern', c, a, b)
        return c

    def binary(self, lvl):
        if lvl == len(BIN):
            return self.unary()
        e = self.binary(lvl + 1)
        while self.cur[0] == 'op' and self.cur[1] in BIN[lvl]:
            o = self.eat()[1]
            e = ('bin', o, e, self.binary(lvl + 1))
        return e

    def unary(self):
        if self.cur[0] == 'op' and self.cur[1] in ('-', '!', '~'):
            o = self.eat()[1]
            return ('un', o, self.postfix())
        return self.postfix()

    def postfix(self):
        t = self.cur
        if t[0] == 'num':
            self.eat()
            return ('num', int(t[1]))
        if t[0] == 'hex':
            self.eat()
            return ('num', int(t[1], 16))
        if self.at('('):
            self.eat()
            es = [self.expr()]
            while self.opt(','):
                es.append(self.expr())
            self.eat(')')
            return es[0] if len(es) == 1 else ('tuple', es)
        if self.at('['):
            self.eat()
            es = [self.expr()]
            while self.opt(','):
                es.append(self.expr())
            self.eat(']')
            return ('array', es)
        if self.at('_'):
            self.eat()
            return ('var', '_', [])
        n = self.ident()
        if self.at('('):
            pos = t[2]
            a = self.args()
            if self.at('('):
                self.eat()
                ins = []
                if not self.at(')'):
                    while True:
                        if self.cur[0] == 'id' and self.peek()[1] in ASSIGN:
                            nm = self.ident()
                            op = self.eat()[1]
                            ins.append((nm, op, self.expr()))
                        else:
                            ins.append((None, '<==', self.expr()))
                        if not self.opt(','):
                            break
                self.eat(')')
                return ('anon', n, a, ins, pos, pos)
            return ('call', n, a)
        acc = []
        while True:
            if self.opt('['):
                acc.append(('ix', self.expr()))
                self.eat(']')
            elif self.opt('.'):
                acc.append(('fld', self.ident()))
            else:
                break
        return ('var', n, acc)


def parse(src):
    return Parser(src).program()
