"""M02: copies of parser objects"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from objects import *
import scanner
RULE = 'a copy continues like the original'


def check():
    C = Check('M02', 'other')
    stop = lambda bad: len(bad) > 20
    for c, mode, h in (('scanner', 'copy', 'scanner-copy'), ('copied', 'chunk', 'copied-chunk')):
        S = scanner.pairs(scanner.CFG[c], mode, stop, h)
        merge(C, [('ok', '', S)])
        for tags, key, text in S.bad: C.fail(RULE, key, text)
        C.ok(RULE, S.XP.count)
        if not S.XP.complete: C.notes.append('the exploration of the scanner has been ended by its time limit')
        if S.XP.count < 50 and not C.viol: raise Unsupported('only %d states' % S.XP.count)
        if C.viol: break
    # the other ones: what goes wrong with copies and does not without them
    for unit, entry, warm, runs in (
        ('hdr', '@d_feed', None, (('hdr-copy', ['SLACK=2', 'ATTRS=1', 'CHUNK=1', 'COPY=1'], ['SLACK=2', 'ATTRS=1', 'CHUNK=1']),)),
        ('printer', '@d_calls', '@d_warm', (('printer-copy', ['DEPTH=1', 'COPY=1'], ['DEPTH=1']),)),
        ('select', '@d_scopes', '@d_warm', (('select-copy', ['COPY=1', 'FIRST=17', 'SETS=1', 'DEPTH=2'], ['FIRST=17', 'SETS=1']),)),
    ):
        if not os.path.exists(os.path.join(VERIF, 'harness', unit + '.cpp')): continue
        for h, d, plain in runs:
            S = explore(unit, d, [entry], hints=h, warm=warm, alarm=None)
            merge(C, [('ok', '', S)])
            bad = S.bad
            if bad:
                P = explore(unit, plain, [entry], warm=warm, alarm=None)
                known = {k for _, k, _ in P.bad}
                bad = [b for b in bad if b[1] not in known]
            for tags, key, text in bad: C.fail(RULE, key, text)
            C.ok(RULE, S.counts.get('states', 0))
            if S.counts.get('incomplete'): C.notes.append('the exploration of %s has been ended by its time limit' % unit)
    C.finish('Self composition of the scanner with a scanner that is replaced by a copy of itself before every call and while a call is suspended, explored to the fixpoint over all inputs; header parser, printer and path selector are replaced by a copy after every call and must agree with the same reference as the original.',
             scanner.ASSUME)


if __name__ == '__main__': main(check)
