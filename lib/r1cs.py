"""Readers for circom's outputs (r1cs, sym, json).  Coefficients may be tokens
that stand for symbolic terms of the run that produced the file."""
import json, re

TOK = 99119911991199119911991100000000
TOKN = 100000000
TOKB = (TOK.bit_length() + 7) // 8


class Malformed(Exception):
    pass


class R1cs:
    pass


def is_token(n):
    return TOK <= n < TOK + TOKN


class Rd:
    def __init__(self, b, i, end):
        self.b, self.i, self.end = b, i, end

    def n(self, k):
        if self.i + k > self.end:
            raise Malformed('truncated')
        v = int.from_bytes(self.b[self.i:self.i + k], 'little')
        self.i += k
        return v

    def fe(self, fs):
        if self.i + TOKB <= len(self.b):
            v = int.from_bytes(self.b[self.i:self.i + TOKB], 'little')
            if is_token(v) and fs < TOKB:
                self.i += TOKB
                return v
            if fs >= TOKB:
                v = int.from_bytes(self.b[self.i:self.i + fs], 'little')
        return self.n(fs)


def parse_r1cs(b):
    if b[:4] != b'r1cs':
        raise Malformed('magic')
    if int.from_bytes(b[4:8], 'little') != 1:
        raise Malformed('version')
    ns = int.from_bytes(b[8:12], 'little')
    i = 12
    secs = []
    for _ in range(ns):
        if i + 12 > len(b):
            raise Malformed('section header')
        t = int.from_bytes(b[i:i + 4], 'little')
        sz = int.from_bytes(b[i + 4:i + 12], 'little')
        i += 12
        if i + sz > len(b):
            raise Malformed('section %d longer than the file' % t)
        secs.append((t, i, i + sz))
        i += sz
    if i != len(b):
        raise Malformed('%d trailing bytes' % (len(b) - i))
    r = R1cs()
    r.sections = [s[0] for s in secs]
    if len(set(r.sections)) != len(secs):
        raise Malformed('duplicate section')
    d = {t: (s, e) for t, s, e in secs}
    for t in (1, 2, 3):
        if t not in d:
            raise Malformed('section %d missing' % t)
    h = Rd(b, *d[1])
    r.fs = h.n(4)
    r.prime = h.n(r.fs)
    r.nwires, r.nout, r.npub, r.nprv = h.n(4), h.n(4), h.n(4), h.n(4)
    r.nlabels = h.n(8)
    r.ncons = h.n(4)
    if h.i != h.end:
        raise Malformed('header size')
    c = Rd(b, *d[2])
    r.cons = []
    for _ in range(r.ncons):
        lcs = []
        for _ in range(3):
            n = c.n(4)
            lc = []
            for _ in range(n):
                w = c.n(4)
                lc.append((w, c.fe(r.fs)))
            if len({w for w, _ in lc}) != n:
                raise Malformed('wire repeated in a linear combination')
            lcs.append(lc)
        r.cons.append(tuple(lcs))
    if c.i != c.end:
        raise Malformed('constraint section size')
    m = Rd(b, *d[3])
    r.w2l = []
    while m.i < m.end:
        r.w2l.append(m.n(8))
    r.used = r.applied = None
    if 4 in d:
        u = Rd(b, *d[4])
        r.used = []
        for _ in range(u.n(4)):
            s = b''
            while True:
                x = u.n(1)
                if x == 0:
                    break
                s += bytes([x])
            r.used.append((s.decode(), [u.fe(r.fs) for _ in range(u.n(4))]))
        if u.i != u.end:
            raise Malformed('custom gates list size')
    if 5 in d:
        u = Rd(b, *d[5])
        r.applied = []
        for _ in range(u.n(4)):
            g = u.n(4)
            r.applied.append((g, [u.n(8) for _ in range(u.n(4))]))
        if u.i != u.end:
            raise Malformed('custom gates application size')
    return r


def parse_sym(t):
    out = []
    for l in t.splitlines():
        s, w, c, name = l.split(',', 3)
        out.append((int(s), int(w), int(c), name))
    return out


def parse_json_constraints(t):
    d = json.loads(t)
    if list(d) != ['constraints']:
        raise Malformed('constraints json keys')
    return [tuple([(int(k), int(v)) for k, v in lc.items()] for lc in c) for c in d['constraints']]


def parse_json_subst(t):
    d = json.loads(t)
    return {int(k): [(int(a), int(v)) for a, v in lc.items()] for k, lc in d.items()}
