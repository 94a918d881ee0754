"""Run the real circom (symbolic-integer build) over every feasible path of a
program skeleton."""
import json, os, shutil, subprocess, tempfile
from . import build
from .terms import Inconclusive

LIT = 9900990099009900990099000000
P = 17


def lit(i):
    return str(LIT + i)


def subst_lits(text, model):
    """concrete program for a model {id: value}"""
    import re
    return re.sub(r'99009900990099009900990\d{5}', lambda m: str(model.get(int(m.group()) - LIT, 0)), text)


class Run:
    """one path"""
    pass


ANSI = __import__('re').compile(r'\x1b\[[0-9;]*m')


def execute(exe, files, main, args, env, timeout=120, keep=None):
    d = tempfile.mkdtemp(prefix='symx')
    try:
        for n, t in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb' if isinstance(t, bytes) else 'w') as f:
                f.write(t)
        os.mkdir(os.path.join(d, 'out'))
        e = {k: v for k, v in os.environ.items() if not k.startswith('SYMX')}
        e['RUST_BACKTRACE'] = '0'
        e.update(env)
        e['SYMX_OUT'] = os.path.join(d, 'trace.json')
        try:
            r = subprocess.run([exe, main] + args + ['-o', 'out'], cwd=d, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
            rc, out, err = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = 'timeout', b'', b''
        res = Run()
        res.rc = rc
        res.stdout = ANSI.sub('', out.decode('utf8', 'replace'))
        res.stderr = ANSI.sub('', err.decode('utf8', 'replace'))
        res.trace = None
        tf = os.path.join(d, 'trace.json')
        if os.path.exists(tf):
            res.trace = json.load(open(tf))
        res.files = {}
        for root, _, fs in os.walk(os.path.join(d, 'out')):
            for fn in fs:
                p = os.path.join(root, fn)
                if os.path.getsize(p) < 20000000:
                    res.files[os.path.relpath(p, os.path.join(d, 'out'))] = open(p, 'rb').read()
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


class SymProgram:
    """all paths of `circom main args` for a skeleton"""

    def __init__(self, exe, files, main, args, dom=None, p=P, max_paths=600, env=None, timeout=120):
        self.exe, self.files, self.main, self.args = exe, files, main, args
        self.dom = dom or {}
        self.p = p
        self.max_paths = max_paths
        self.env = env or {}
        self.timeout = timeout
        self.paths = 0
        self.queries = 0
        self.ms = 0
        self.truncated = False

    def base_env(self):
        e = {'SYMX': '1', 'SYMX_P': str(self.p)}
        if self.dom:
            e['SYMX_DOM'] = ','.join('%d:%d' % kv for kv in sorted(self.dom.items()))
        e.update(self.env)
        return e

    def __iter__(self):
        work = [('', '')]
        while work:
            prefix, model = work.pop()
            if self.paths >= self.max_paths:
                self.truncated = True
                return
            e = self.base_env()
            e['SYMX_PREFIX'] = prefix
            e['SYMX_MODEL'] = model
            r = execute(self.exe, self.files, self.main, self.args, e, self.timeout)
            self.paths += 1
            t = r.trace
            if t is None and r.rc in (0, 1, 101) and not any(b'99009900990099009900990' in
                                                          (x if isinstance(x, bytes) else x.encode())
                                                          for x in self.files.values()):
                t = r.trace = dict(nodes=[], path=[], alts=[], models=[''], queries=0, solver_ms=0, unknowns=0,
                                   aborted=None)
            if t is None:
                raise Inconclusive('engine left no trace (rc %s): %s' % (r.rc, r.stderr[-300:]))
            if t.get('aborted') or r.rc == 97:
                raise Inconclusive('engine abort: %s' % t.get('aborted'))
            if t.get('unknowns'):
                raise Inconclusive('solver unknown in execution')
            self.queries += t['queries']
            self.ms += t['solver_ms']
            path = t['path']
            enc = ''.join(('T' if o else 'F') if f else ('t' if o else 'f') for _, o, f in path)
            for i, m in t['alts']:
                work.append((enc[:i] + ('F' if path[i][1] else 'T'), m))
            r.prefix = enc
            r.model = parse_model(t['models'][0]) if t['models'] else {}
            yield r


def parse_model(s):
    return {int(a): int(b) for a, b in (x.split(':') for x in s.split(',') if x)}


def concrete(exe, files, main, args, model, p=P, env=None):
    """replay: the same binary, no symbolic engine, literals replaced by values"""
    fs = {n: (t if isinstance(t, bytes) else subst_lits(t, model)) for n, t in files.items()}
    e = {'SYMX_P': str(p)}
    e.update(env or {})
    return execute(exe, fs, main, args, e), fs
