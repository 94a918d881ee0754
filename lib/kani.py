"""Kani runs over functions lifted out of /repo's current source, with library types replaced by small models."""
import hashlib, os, re, shutil, subprocess, time
from . import build

ENGINE = os.path.join(build.VERIF, 'engine', 'kani')
REPO = build.REPO


def strip(src):
    """src with comments and the insides of strings and characters blanked (same length)"""
    out, i, n = list(src), 0, len(src)

    def blank(a, b):
        for k in range(a, b):
            if out[k] != '\n':
                out[k] = ' '
    while i < n:
        c = src[i]
        if src.startswith('//', i):
            j = src.find('\n', i)
            j = n if j < 0 else j
            blank(i, j)
            i = j
        elif src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j):
                    d, j = d + 1, j + 2
                elif src.startswith('*/', j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            blank(i, j)
            i = j
        elif c == '"' or (c in 'br' and re.match(r'(?:b?r#*|b)"', src[i:i + 8]) and not (i and (src[i - 1].isalnum() or src[i - 1] == '_'))):
            m = re.match(r'(b?)(r?)(#*)"', src[i:])
            j = i + m.end()
            if m.group(2):
                k = src.find('"' + m.group(3), j)
                k = n if k < 0 else k
                blank(i + m.end(), k)
                i = k + 1 + len(m.group(3))
            else:
                k = j
                while k < n and src[k] != '"':
                    k += 2 if src[k] == '\\' else 1
                blank(j, k)
                i = k + 1
        elif c == "'":
            m = re.match(r"'(?:\\(?:u\{[0-9a-fA-F]*\}|x..|.)|[^\\'])'", src[i:])
            if m:
                blank(i + 1, i + m.end() - 1)
                i += m.end()
            else:
                i += 1
        else:
            i += 1
    return ''.join(out)


def items(src):
    """name -> text of the top-level items of a source file ('use' and 'mod' are left out, impl blocks under 'impl T')"""
    st, out, i, n = strip(src), {}, 0, len(src)
    head = re.compile(r'\s*((?:#!?\[[^\]]*\]\s*)*)(?:pub(?:\([^)]*\))?\s+)?(?:(?:const|unsafe|async|extern\s*"[^"]*")\s+(?=fn\b))*'
                      r'(fn|struct|enum|type|const|static|impl|trait|union|use|mod|macro_rules!|extern)\b\s*([A-Za-z_0-9]*)')
    while i < n:
        m = head.match(st, i)
        if not m:
            j = st.find('\n', i + 1)
            if j < 0:
                break
            i = j
            continue
        j, depth = m.end(), 0
        while j < n:
            c = st[j]
            if c in '([{':
                depth += 1
            elif c in ')]}':
                depth -= 1
                if depth == 0 and c == '}' and m.group(2) not in ('const', 'static', 'type', 'use'):
                    j += 1
                    break
            elif c == ';' and depth == 0:
                j += 1
                break
            j += 1
        kind, name = m.group(2), m.group(3)
        if kind == 'impl':
            t = re.match(r'\s*impl\s*(?:<[^{]*?>)?\s*(?:[^{]*?\bfor\s+)?([A-Za-z_0-9]+)', st[i + (m.start(2) - i):])
            name = 'impl ' + (t.group(1) if t else '?')
        if kind not in ('use', 'mod', 'extern'):
            out[name] = out.get(name, '') + src[i:j].strip('\n') + '\n'
        i = j
    return out


def lift(path, roots, provided=()):
    """the named items of a file of /repo and every other top-level item of the file they mention"""
    its = items(open(os.path.join(REPO, path)).read())
    todo, got = list(roots), []
    while todo:
        x = todo.pop()
        if x in got or x in provided or x not in its:
            continue
        got.append(x)
        for w in set(re.findall(r'[A-Za-z_][A-Za-z_0-9]*', strip(its[x]))):
            todo += [w, 'impl ' + w]
    missing = [r for r in roots if r not in got]
    return '\n'.join(its[x] for x in its if x in got), [x for x in its if x in got], missing


class Harness:
    """one proof harness in its own crate"""

    def __init__(self, group, name, subst, files, unwind_note=''):
        self.group, self.name, self.note = group, name, unwind_note
        self.dir = os.path.join(build.BUILD, 'kani', group + '_' + name)
        src = os.path.join(self.dir, 'src')
        os.makedirs(src, exist_ok=True)
        d = os.path.join(ENGINE, group)
        for fn in os.listdir(d):
            if fn.endswith('.rs') and fn != 'replay.rs':
                t = open(os.path.join(d, fn)).read()
                for a, b in subst.items():
                    t = t.replace('@%s@' % a, str(b))
                build.write_if_changed(os.path.join(src, fn), t)
        for fn, t in files.items():
            build.write_if_changed(os.path.join(src, fn), t)
        build.write_if_changed(os.path.join(self.dir, 'Cargo.toml'),
                               '[package]\nname = "kani_%s"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[lib]\npath = "src/lib.rs"\n'
                               '[lints.rust]\nunexpected_cfgs = { level = "allow" }\n' % group)

    def start(self, extra=()):
        self.t0 = time.time()
        self.log = os.path.join(self.dir, 'log')
        self.h = open(self.log, 'w')
        self.p = subprocess.Popen(['cargo', 'kani', '--harness', self.name, '--no-memory-safety-checks', '--no-overflow-checks'] + list(extra),
                                  cwd=self.dir, stdout=self.h, stderr=subprocess.STDOUT, env=dict(build.cargo_env()), start_new_session=True)

    def done(self):
        return self.p.poll() is not None

    def kill(self):
        try:
            os.killpg(self.p.pid, 9)
        except OSError:
            pass
        self.p.wait()

    def result(self):
        """('ok'|'fail'|'open', detail dict)"""
        self.h.close()
        t = open(self.log, errors='replace').read()
        w = time.time() - self.t0
        sv = sum(float(x) for x in re.findall(r'Runtime Solver: ([0-9.e+-]+)s', t))
        vc = re.findall(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
        cov = re.search(r'(\d+) of (\d+) cover properties satisfied', t)
        chk = re.search(r'\*\* (\d+) of (\d+) failed', t)
        failed = re.findall(r'Failed Checks: (.*)', t)
        d = dict(harness=self.name, wall_s=round(w, 1), solver_s=round(sv, 2), vccs=sum(int(b) for _, b in vc),
                 checks=int(chk.group(2)) if chk else 0, failed=failed, cover=cov.groups() if cov else None, note=self.note)
        if 'VERIFICATION:- SUCCESSFUL' in t:
            if cov and cov.group(1) != cov.group(2):
                return 'open', dict(d, why='the premises are not reachable: %s of %s covers' % cov.groups())
            return 'ok', d
        if 'VERIFICATION:- FAILED' in t:
            real = [f for f in failed if 'unwinding assertion' not in f and 'not currently supported' not in f]
            if real:
                return 'fail', d
            return 'open', dict(d, why='the unwinding bound is too small for this code, or a construct is not supported')
        why = [l for l in t.splitlines() if l.startswith('error')][:3]
        return 'open', dict(d, why='; '.join(why) or 'stopped after %d s' % w)

    def playback(self, limit):
        """the values of kani::any() in the order of the calls"""
        self.start(['-Z', 'concrete-playback', '--concrete-playback=print'])
        try:
            self.p.wait(limit)
        except subprocess.TimeoutExpired:
            self.kill()
        self.h.close()
        t = open(self.log, errors='replace').read()
        out = []
        for blk in t.split('Concrete playback unit test')[1:]:
            m = re.search(r'concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', blk, re.S)
            if m:
                out.append([bytes(int(x) for x in v.split(',') if x.strip()) for v in re.findall(r'vec!\[([0-9, ]*)\]', m.group(1))])
        return out


def run_all(hs, limit, width=8):
    """harness -> result"""
    todo, act, res = list(hs), [], {}
    t0 = time.time()
    while todo or act:
        while todo and len(act) < width:
            h = todo.pop(0)
            h.start()
            act.append(h)
        time.sleep(.3)
        for h in act[:]:
            if h.done():
                act.remove(h)
                res[h] = h.result()
            elif time.time() - t0 > limit:
                h.kill()
                act.remove(h)
                res[h] = h.result()
        if time.time() - t0 > limit:
            for h in todo:
                res[h] = ('open', dict(harness=h.name, why='not started within the time limit'))
            todo = []
    return res


def native(group, files):
    """the replay program of a group, compiled with the ordinary library types"""
    d = os.path.join(build.BUILD, 'kani', group + '_replay')
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(ENGINE, group, 'replay.rs'), d)
    for fn, t in files.items():
        build.write_if_changed(os.path.join(d, fn), t)
    r = subprocess.run(['rustc', '--edition', '2021', '-O', '-A', 'warnings', 'replay.rs', '-o', 'replay'], cwd=d, capture_output=True, text=True,
                       env=dict(build.cargo_env()))
    return os.path.join(d, 'replay') if r.returncode == 0 else None
