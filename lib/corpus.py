"""Program skeletons.  '@k' stands for an arbitrary field element (a symbolic
literal); 'dom k=h' bounds it to 0..h."""
import os, re
from . import symrun

DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus')


class Skel:
    def __init__(self, name, src, dom=None, tags=(), files=None):
        self.name, self.dom, self.tags = name, dom or {}, set(tags)
        self.raw = src
        if 'pragma' not in src:
            src = 'pragma circom 2.1.5;\n' + src
        self.src = re.sub(r'@(\d+)', lambda m: symrun.lit(int(m.group(1))), src)
        self.files = {'main.circom': self.src}
        for n, t in (files or {}).items():
            self.files[n] = re.sub(r'@(\d+)', lambda m: symrun.lit(int(m.group(1))), t)
        self.main = 'main.circom'


def load(suite):
    out = []
    name, dom, tags, buf = None, {}, [], []

    def flush():
        if name is not None:
            out.append(Skel(suite + '/' + name, '\n'.join(buf) + '\n', dom, tags))

    for l in open(os.path.join(DIR, suite + '.txt')):
        l = l.rstrip('\n')
        if l.startswith('### '):
            flush()
            w = l[4:].split()
            name, dom, tags, buf = w[0], {}, [], []
            mode = None
            for x in w[1:]:
                if x in ('dom', 'tag'):
                    mode = x
                elif mode == 'dom':
                    k, v = x.split('=')
                    dom[int(k)] = int(v)
                else:
                    tags.append(x)
        else:
            buf.append(l)
    flush()
    return out
