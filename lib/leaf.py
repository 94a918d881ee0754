"""checks of single routines of /repo"""
import os, subprocess, sys, time
from . import build, kani, suite


def _report_kani(rep, hs, res, fails, replay):
    """fills the coverage of a Kani check; replay(harness) -> (what, files) for a counterexample confirmed on the real code, or None"""
    rep.cov.update(skeletons_run=len(hs), extra_queries=0, extra_solver_ms=0, harnesses=[], verification_conditions=0)
    for h in hs:
        st, d = res.get(h, ('open', dict(harness=h.name, why='not run')))
        rep.cov['harnesses'].append(dict(d, verdict=st))
        rep.cov['verification_conditions'] += d.get('vccs', 0)
        rep.cov['extra_solver_ms'] += int(1000 * d.get('solver_s', 0))
        rep.cov['extra_queries'] += d.get('checks', 0)
        if st == 'open':
            rep.errors.append('%s: inconclusive: %s' % (h.name, d.get('why')))
        if st == 'fail':
            r = replay(h)
            if r:
                rep.violation(h.name, 'counterexample', r[0], dict(files=r[1], reproduced=True))
            else:
                rep.errors.append('%s: the counterexample of the model checker (%s) is not confirmed by the real code' % (h.name, d.get('failed')))


def comments_spec(s):
    """the text without comments, or the position in bytes of the block comment that is never closed"""
    out, i, mode, start = [], 0, 0, 0
    while i < len(s):
        c, two = s[i], s[i:i + 2]
        if mode == 0 and two in ('//', '/*'):
            mode, start = (1 if two == '//' else 2), len(s[:i].encode())
            out.append('  ')
            i += 2
            continue
        if mode == 0 or mode == 3:
            mode = (3 - mode if c == '"' else 0 if c == '\n' else mode)
            out.append(c)
        elif mode == 1:
            if c == '\n':
                mode = 0
                out.append(c)
            else:
                out.append(' ' * len(c.encode()))
        elif two == '*/':
            mode = 0
            out.append('  ')
            i += 1
        else:
            out.append(' ' * len(c.encode()))
        i += 1
    return 'open %d' % start if mode == 2 else 'text ' + ''.join(out).encode().hex()


def C25(thorough, seed):
    rep = suite.Report('C25', 'comments')
    src, names, missing = kani.lift('parser/src/parser_logic.rs', ['preprocess'],
                                    ['produce_report', 'Report', 'ReportCode', 'FileID', 'ReportCollection', 'BigInt'])
    hs = []
    if missing:
        rep.errors.append('preprocess is not in parser/src/parser_logic.rs')
    else:
        for n, ascii in [(6, True), (4, False)] + ([(7, True), (8, True), (5, False)] if thorough else []):
            hs.append(kani.Harness('comments', '%s%d' % ('ascii' if ascii else 'any', n),
                                   dict(N=n, U=n + 3, H='%s%d' % ('ascii' if ascii else 'any', n), A=str(ascii).lower()), {'items.rs': src},
                                   'every text of %d %s characters' % (n, 'ASCII' if ascii else 'Unicode')))
    res = kani.run_all(hs, 3000 if thorough else 500)

    def replay(h):
        exe = kani.native('comments', {'items.rs': src})
        for vals in h.playback(600) if exe else ():
            s = ''.join(chr(int.from_bytes(v, 'little')) for v in vals)
            r = subprocess.run([exe], input=s.encode(), capture_output=True, timeout=20)
            got = r.stdout.decode().strip() if r.returncode == 0 else 'panic ' + r.stderr.decode(errors='replace')[-300:]
            if got != comments_spec(s):
                return ('preprocess(%r) gives %s, expected %s' % (s, got, comments_spec(s)), {'text.circom': s, 'got.txt': got, 'expected.txt': comments_spec(s)})
    _report_kani(rep, hs, res, None, replay)
    rep.assumptions = ['str and String are replaced by fixed-size arrays of characters with the same iteration order and byte lengths (engine/kani/comments/model.rs)',
                       'a comment marker inside a string literal is part of the string; a string ends at its quote or at the end of the line']
    rep.explanation = ('the comment remover, lifted out of parser/src/parser_logic.rs, is run by Kani (CBMC) on a text whose characters are all symbolic '
                       'and compared with an automaton over single characters: accepted or not, every output character, position of the error')
    return rep.finish('other', dict(texts=[h.note for h in hs], outside='longer texts'), names)
