"""The generated C++ program, compiled with field elements replaced by handles: its operations are interpreted over terms, its
branches on field values are answered by the path being explored."""
import hashlib, json, os, re, shutil, struct, subprocess, tempfile
from . import build, wat

STUB = os.path.join(build.VERIF, 'engine', 'cppstub')
FLAGS = ['-std=c++11', '-O0', '-g0', '-fsanitize=address', '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer', '-w']
OPS = dict(add='+', sub='-', mul='*', div='/', idiv='\\', mod='%', pow='**', shl='<<', shr='>>', band='&', bor='|', bxor='^',
           land='&&', lor='||', eq='==', neq='!=', lt='<', leq='<=', gt='>', geq='>=')
UN = dict(neg='-', bnot='~', lnot='!')
BASE = 1 << 40


def sh(cmd, cwd, gen=False):
    r = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    if r.returncode and gen:
        e = re.findall(r"error: ([^\n]*)", r.stdout.decode("utf8", "replace"))
        if e:
            raise wat.Bad("the generated C++ program does not compile: " + e[0])
    if r.returncode:
        raise RuntimeError('%s\n%s' % (' '.join(cmd), r.stdout.decode('utf8', 'replace')[-1500:]))


def common(cache, files, n64):
    """main, calcwit and the stub, compiled once for each content"""
    key = hashlib.sha256()
    for n in sorted(files):
        key.update(n.encode() + b'\0' + files[n] + b'\0')
    for n in sorted(os.listdir(STUB)):
        key.update(open(os.path.join(STUB, n), 'rb').read())
    key.update((' '.join(FLAGS) + str(n64)).encode())
    d = os.path.join(cache, key.hexdigest()[:24])
    if os.path.exists(os.path.join(d, 'ok')):
        return d
    tmp = tempfile.mkdtemp(prefix='cxx', dir=cache)
    for n, t in files.items():
        open(os.path.join(tmp, n), 'wb').write(t)
    for n in os.listdir(STUB):
        shutil.copy(os.path.join(STUB, n), tmp)
    fl = FLAGS + ['-DSYM_N64=%d' % n64]
    sh(['g++'] + fl + ['-x', 'c++-header', 'pch.hpp', '-o', 'pch.hpp.gch'], tmp)
    for n in ('main', 'calcwit', 'fr'):
        sh(['g++'] + fl + ['-include', './pch.hpp', '-c', n + '.cpp', '-o', n + '.o'], tmp)
    open(os.path.join(tmp, 'ok'), 'w').close()
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def pad(dat, src, p):
    """The small primes of the checks take an odd number of 32-bit words, which no library has: the constants of the data
    file are widened to whole 64-bit words, everything else stays as generated."""
    n32 = (p.bit_length() + 31) // 32
    if n32 % 2 == 0:
        return dat
    size = {k: int(v) for k, v in re.findall(r'get_size_of_(\w+)\(\) *\{ *return (\d+);', src)}
    o = size['input_hashmap'] * 24 + size['witness'] * 8
    w = 8 + 4 * n32
    cs = [dat[o + i * w:o + i * w + w] for i in range(size['constants'])]
    return dat[:o] + b''.join(c + bytes(4) for c in cs) + dat[o + len(cs) * w:]


class Program:
    def __init__(self, files, sched='e', p=17):
        self.sched = sched
        n64 = (p.bit_length() + 63) // 64
        by = {os.path.basename(n): t for n, t in files.items() if '_cpp/' in n}
        names = [n for n in by if n.endswith('.dat')]
        stem = names[0][:-4]
        cache = os.path.join(build.BUILD, 'cpp')
        os.makedirs(cache, exist_ok=True)
        src = by.pop(stem + '.cpp') if stem != 'main' else by.pop('main.cpp')
        d = common(cache, {n: t for n, t in by.items() if n in ('main.cpp', 'calcwit.cpp', 'calcwit.hpp', 'circom.hpp')}, n64)
        self.dir = tempfile.mkdtemp(prefix='symw')
        with open(os.path.join(self.dir, stem + '.gen.cpp'), 'wb') as h:
            h.write(src)
        sh(['g++'] + FLAGS + ['-DSYM_N64=%d' % n64, '-iquote', d, '-include', os.path.join(d, 'pch.hpp'), '-c', stem + '.gen.cpp', '-o', 'm.o'], self.dir, True)
        sh(['g++', '-fsanitize=address', '-o', 'm'] + ['m.o'] + [os.path.join(d, n + '.o') for n in ('main', 'calcwit', 'fr')] + ['-lgmp', '-lpthread'],
           self.dir)
        with open(os.path.join(self.dir, 'm.dat'), 'wb') as h:
            h.write(pad(by[names[0]], src.decode('utf8', 'replace'), p))
        self.raw = {}
        self.functions = sorted(set(re.findall(r'^(?:void|FrElement\S*) (\w+)\(', src.decode('utf8', 'replace'), re.M)))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def decode(self, p, short, typ, limbs):
        v = sum(int(x, 16) << (64 * k) for k, x in enumerate(limbs))
        R = 1 << ((p.bit_length() + 63) // 64 * 64)
        if typ in (0, 0x40000000):
            if typ and v != short % p * R % p:
                raise wat.Bad('the Montgomery limbs of the constant %d are not those of its value' % short)
            return short % p
        if v >= p:
            raise wat.Bad('a constant is not reduced: %x' % v)
        if typ == 0x80000000:
            return v
        if typ == 0xc0000000:
            return v * pow(R, -1, p) % p
        raise wat.Bad('an element has the type %x' % typ)

    def calculate(self, eng, path, ops, ins):
        """-> (witness terms, used functions)"""
        inp, flat = {}, []
        for n, ts in ins:
            v = []
            for t in ts:
                v.append(str(BASE + len(flat)))
                flat.append(t)
            inp[n] = v
        # arrays are given flat, single values alone or as an array of one: the driver takes both
        inp = {n: v[0] if len(v) == 1 else v for n, v in inp.items()}
        with open(os.path.join(self.dir, 'in.json'), 'w') as h:
            json.dump(inp, h)
        wt = os.path.join(self.dir, 'out.wtns')
        if os.path.exists(wt):
            os.unlink(wt)
        r_out, w_out = os.pipe()
        r_in, w_in = os.pipe()
        env = dict(os.environ, SYM_OUT=str(w_out), SYM_IN=str(r_in), SYM_SCHED=self.sched, ASAN_OPTIONS='detect_leaks=0:exitcode=99:alloc_dealloc_mismatch=0')
        with open(os.path.join(self.dir, 'err'), 'wb') as err:
            pr = subprocess.Popen([os.path.join(self.dir, 'm'), 'in.json', 'out.wtns'], cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=err, pass_fds=(w_out, r_in))
        os.close(w_out)
        os.close(r_in)
        T = {}
        n = 0
        fin = os.fdopen(r_out, 'r', buffering=1 << 16)
        fout = os.fdopen(w_in, 'w', buffering=1)
        try:
            for l in fin:
                n += 1
                if n > 100000:
                    raise wat.Unenc('step budget')
                w = l.split()
                if w[0] == 'b':
                    T[w[1]] = ops.bin(OPS[w[2]], T[w[3]], T[w[4]])
                elif w[0] == 'u':
                    a = T[w[3]]
                    if w[2] == 'square':
                        T[w[1]] = ops.bin('*', a, a)
                    elif w[2] == 'inv':
                        T[w[1]] = ops.bin('/', eng.const(1), a)
                    else:
                        T[w[1]] = ops.un(UN[w[2]], a)
                elif w[0] == 'k':
                    T[w[1]] = eng.const(self.decode(eng.p, int(w[2]), int(w[3], 16), w[4:]))
                elif w[0] == 's':
                    v = int(w[3], int(w[2]))
                    T[w[1]] = flat[v - BASE] if v >= BASE else eng.const(v)
                elif w[0] == 't':
                    fout.write('%d\n' % int(ops.istrue(T[w[1]])))
                elif w[0] == 'i':
                    t = T[w[1]]
                    v = eng.val(t)
                    if v is None:
                        if eng.p > 1 << 31:
                            raise wat.Unenc('symbolic index in a large field')
                        v = path.concretize(t)
                    v = v if v < eng.p // 2 + 1 else v - eng.p
                    v &= 0xffffffff
                    fout.write('%d\n' % (v - (1 << 32) if v >> 31 else v))
        except BrokenPipeError:
            pass
        finally:
            if pr.poll() is None and n > 100000 or pr.poll() is None and _raising():
                pr.kill()
            for f in (fin, fout):
                try:
                    f.close()
                except OSError:
                    pass
            try:
                pr.wait(timeout=20)
            except subprocess.TimeoutExpired:
                pr.kill()
                pr.wait()
                if not _raising():
                    raise wat.Unenc('step budget')
        rc = pr.returncode
        err = open(os.path.join(self.dir, 'err'), 'rb').read().decode('utf8', 'replace')
        if rc == 99 or 'AddressSanitizer' in err:
            m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', err)
            raise wat.Trap('memory', m.group(1)[:200] if m else err[:200])
        if rc == 78:
            raise wat.Trap('deadlock', 'a component waits for a value that is never set')
        if rc == -6:
            if 'runtime_error' in err or 'terminate called' in err:
                raise wat.Trap('exception', err[-300:])
            if 'Assertion' in err and 'Fr_isTrue' in err:
                raise wat.Trap('assert', err[-300:])
            raise wat.Trap('abort', err[-300:])
        if rc != 0:
            raise wat.Trap('exit', 'status %s: %s' % (rc, err[-300:]))
        d = open(wt, 'rb').read()
        return self.witness(d, T, eng), self.functions

    def witness(self, d, T, eng):
        if d[:4] != b'wtns':
            raise wat.Bad('not a witness file')
        n8, = struct.unpack_from('<I', d, 24)
        nv, = struct.unpack_from('<I', d, 28 + n8)
        o = 28 + n8 + 4 + 12
        if len(d) != o + nv * n8:
            raise wat.Bad('the witness file has %d bytes for %d values of %d bytes' % (len(d), nv, n8))
        out = []
        for i in range(nv):
            h, = struct.unpack_from('<Q', d, o + i * n8)
            out.append(T[str(h)])
        return out


def _raising():
    import sys
    return sys.exc_info()[0] is not None
