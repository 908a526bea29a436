"""S01-S06: the XML scanner against the token grammar, chunk and mask invariance, entities, termination; M03 (scanner part)"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from scan import *

ENT = {'ent': 0x4E00, 'e': 0x4E01, 'entityofdoc': 0x4E02}


def against_reference(cfg, stop, hints=None, unspec=True):
    """product of the scanner with the reference transducer; failures tagged with the aspects they concern"""
    name, defs, entry = cfg
    S = Report()
    M = Machine(defs, entry)
    X = Xml(ENT if 'SAME' not in defs else None)

    def path(parent, lab):
        out = [lab] if lab else []
        while parent is not None:
            if parent.lab: out.append(parent.lab)
            parent = parent.parent
        return ' '.join(reversed(out))

    def key(n, ren):
        ref, qi, qr, di, dr = n.x
        return ((ref.key(n.i, ren), evkey(qi, n.i, n.dom, ren), evkey(qr, n.i, n.dom, ren), di, dr),
                {bvar(k) for k in set(ref.vars()) | evvars(qi) | evvars(qr)})

    def enter(results, node, i):
        """actions for the results of running from node on byte i (None: start)"""
        acts = []
        ref, qi0, qr0, di0, dr0 = node.x if node else (None, [], [], False, False)

        def report(tags, key, text, lab):
            acts.append(lambda: S.report(tags, key, '%s: %s [%s]' % (name, text, path(node, lab))))
        for status, kind, data, st in results:
            if status == 'fault':
                lab = cshow(st.dom[bvar(i)]) if i is not None and bvar(i) in st.dom else ''
                if (st.misc.get('unk') or kind.startswith('unknown')): raise Unsupported('fault on an imprecise path: %s %s at %s' % (kind, data, M.E.where(st)))
                report({'fault'}, 'fault %s at %s' % (kind, M.E.where(st)), '%s: %s at %s' % (kind, data, M.E.where(st)), lab)
                continue
            if kind == 'byte' and i is not None and data != i + 1:
                if data <= i: raise Unsupported('byte %d is read after byte %d' % (data, i))
                report({'fault'}, 'byte skipped', 'byte %d of the input is skipped, the read is at %s' % (i + 1, M.E.where(st)), ''); continue
            ev0 = st.events()
            imprecise = st.misc.get('unk')

            def f(d):
                if i is None: return [], Ref('start')
                ev, r = X.step(ref, i, d)
                if kind == 'byte' and len(d[bvar(i)]) > 1 and 0 in d[bvar(i)]: split_by(d, i, lambda b: b == 0)
                return ev, r
            for d, (rev, r) in forall(st.dom, f):
                lab = cshow(d[bvar(i)]) if i is not None else ''
                iev, di = dedirty(ev0, di0)
                rev2, dr = dedirty(rev, dr0)
                ended = kind == 'return'
                acts.append(lambda: S.count('transitions'))
                for e in iev:
                    if e[0] == 'obs': report({'iter'}, 'iterator %d' % e[1], 'the scanner iterator is inconsistent with the scanner (condition %d of d_iter in harness/scanner.cpp)' % e[1], lab)
                    if e[0] == 'err':
                        if e[1] == 1: report({'err'}, 'internal error', 'the internal error code is reported', lab)
                        elif e[1] == 0 or not e[3]: report({'err'}, 'error without code or text', 'an error token comes without error code or text (code %s, text %r)' % (e[2], e[3]), lab)
                        else: acts.append(lambda: S.ok('error token with code and text'))
                iev = [e for e in iev if e[0] != 'obs']
                for e in iev:
                    if e[0] == 'item' and e[4] is not None and r.s != 'UNSPEC': report({'item', 'size'}, 'size', 'the item size tells %s, the token is %s' % (('empty', 'not empty')[e[3]], ('empty', 'not empty')[e[4]]), lab)
                if i is not None and kind == 'byte' and d[bvar(i)] == (0,):
                    report({'overread'}, 'read behind the end in %s' % (ref.s,), 'a byte behind the end of the input is read at %s' % M.E.where(st), lab); continue
                j = 0 if i is None else i + 1
                if r.s == 'UNSPEC':
                    # not specified (ill-formed): only the obligations above apply from here
                    if not ended and unspec: acts.append(lambda st=st, d=d, lab=lab, r=r: push(st, d, j, node, lab, (r, [], [], False, False)))
                    continue
                try:
                    qi, qr = align(qi0 + iev, qr0 + rev2, d)
                except Mismatch as m:
                    if imprecise: raise Unsupported('mismatch on an imprecise path')
                    tags = set()
                    for e in (m.a, m.b):
                        tags.add({'out': 'out', 'clear': 'out', 'item': 'item', 'err': 'erroneous'}[e[0]])
                    if 'item' in tags and m.a[0] == m.b[0] and m.a[1] == m.b[1]: tags = {'pos'}
                    if ref.ent or r.ent or 'entity' in m.b: tags.add('entity')
                    if m.b[0] == 'err': tags.add('undetected')
                    what = 'delivers %s instead of %s' % (evshow(m.a, m.dom), evshow(m.b, m.dom)) if 'pos' not in tags else 'reports the position %s of the token instead of %s' % (m.a[2], m.b[2])
                    report(tags, '%s in %s: %s' % (name, ref.s if type(ref.s) is str else ref.s[0], what), what, lab); continue
                acts.append(lambda: S.ok('tokens and characters agree with the grammar'))
                if ended:
                    if qi or qr:
                        tags = {'item'}
                        if any(e[0] == 'err' for e in qr): tags.add('undetected')
                        if any('entity' in e for e in qr): tags.add('entity')
                        if any(e[0] == 'out' for e in qr + qi): tags.add('out')
                        if ref.ent: tags.add('entity')
                        report(tags, '%s end in %s' % (name, ref.s), 'the scan ends with %s instead of %s' % (evshow(qi[0] if qi else None, d), evshow(qr[0] if qr else None, d)), lab)
                    elif r.s != 'ENDED':
                        report({'item'}, '%s ends in %s' % (name, r.s), 'the scan ends inside of the document', lab)
                    else: acts.append(lambda: S.ok('ends with the end token or an error'))
                    continue
                if len(qi) + len(qr) > 40:
                    report({'item'}, '%s no tokens' % name, 'tokens are missing: %s' % evshow((qr or qi)[0], d), lab); continue
                acts.append(lambda st=st, d=d, lab=lab, x=(r, qi, qr, di, dr): push(st, d, j, node, lab, x))
        return acts

    def push(st, d, j, parent, lab, x):
        n = Node()
        s = st.fork(); s.trace = None; s.dom = dict(d)
        n.full = (s,); n.dom = s.dom; n.i = j; n.x = x; n.parent = parent; n.lab = lab; n.late = x[0].s == 'UNSPEC'
        XP.add(n)
    XP = Explorer(M, key, S, hints)
    for f in enter(M.begin(), None, None): f()
    XP.run(lambda n: enter(M.feed(n.sts[0], n.i), n, n.i), lambda: stop(S.bad))
    S.count('states', XP.count)
    S.unit(M.E)
    S.XP = XP
    return S


MASKBIT = dict((c, k) for k, c in enumerate('N!hnvedDab<>/C$'))


def items(ev, dirty):
    """segments of an event list: [(cleared, outs, closing event or None)]"""
    segs = []; cl = False; outs = []
    for e in ev:
        if e[0] == 'clear': cl = True; outs = []
        elif e[0] == 'out': outs.append(e)
        elif e[0] == 'obs': pass
        else: segs.append((cl, outs, e)); cl = False; outs = []
    segs.append((cl, outs, None))
    return segs


def pairs(cfg, mode, stop, hints=None):
    """the scanner against itself. mode 'chunk': every call may be interrupted at every read of a byte and repeated;
    mode 'mask': one scanner reports everything, the other one an arbitrary selection of the token types in every call
    mode 'jump': like 'chunk' with an arbitrary selection of token types, only what is on the stack is of interest
    mode 'copy': the other one is replaced by a copy of itself before every call"""
    name, defs, entry = cfg
    S = Report()
    M = Machine(defs, entry)

    def path(parent, lab):
        out = [lab] if lab else []
        while parent is not None:
            if parent.lab: out.append(parent.lab)
            parent = parent.parent
        return ' '.join(reversed(out))

    def key(n, ren):
        # x: (content of the buffers: equal?, a not empty, b not empty, part of the token before it is known which type has been selected)
        return (n.x + (len(n.full),), set(v for v in n.dom if v.key[0] == 'm'))

    def start_single():
        acts = []
        for status, kind, data, st in M.begin('sym' if mode == 'jump' else None):
            if status == 'fault': continue
            acts.append(lambda st=st: push((st,), st.dom, 0, None, '', (True, False, False)))
        return acts

    def start_pair():
        acts = []
        for status, kind, data, a in M.begin():
            for status2, kind2, data2, b in (M.begin('sym') if mode == 'mask' else M.begin(entry='@d_copy')):
                if status == 'fault' or status2 == 'fault': continue
                acts.append(lambda a=a, b=b: push((a, b), b.dom, 0, None, '', (True, False, False)))
        return acts

    def push(sts, d, j, parent, lab, x):
        n = Node()
        full = []
        for s in sts:
            s = s.fork(); s.trace = None; s.dom = dict(d); full.append(s)
        for s in full: s.dom = full[0].dom
        n.full = tuple(full); n.dom = full[0].dom; n.i = j; n.x = x; n.parent = parent; n.lab = lab; n.late = False
        n.merge = (True, x[1], x[1], 1) if mode == 'chunk' and x[0] and x[1] == x[2] else None
        XP.add(n)

    def same(a, b, i):
        ra, rb = renamer(i), renamer(i)
        return M.canon(a, i, ra)[0] == M.canon(b, i, rb)[0]

    def expand(n):
        acts = []

        def report(tag, key, text, lab):
            acts.append(lambda: S.report([tag], key, '%s: %s [%s]' % (name, text, path(n, lab))))
        i = n.i

        def where(a): return M.E.where(a)
        if mode in ('chunk', 'jump'):
            # the last scanner of the node is interrupted
            b = n.sts[-1]
            dropped, res = M.suspend(b)
            acts.append(lambda: S.count('interruptions'))
            for fn, loc, cleanup in dropped:
                S.dropped[fn, loc] = S.dropped.get((fn, loc), 0) + 1
                if cleanup: report('longjmp', 'cleanup %s' % loc, 'an interruption skips the destruction of an object of %s at %s' % (demangle(fn), loc), '(interrupted)')
            if any(type(k) is tuple and k[0] == 'guard' for k in b.misc): report('longjmp', 'guard %s' % where(b), 'an interruption leaves the initialisation of a static variable unfinished at %s' % where(b), '(interrupted)')
            if b.caught: report('longjmp', 'caught', 'an interruption while an exception is handled at %s' % where(b), '(interrupted)')
            for status, kind, data, st in res if mode == 'chunk' else ():
                if status == 'fault':
                    if st.misc.get('unk'): raise Unsupported('fault on an imprecise path: %s' % kind)
                    report('chunk', 'resume fault %s' % kind, 'the repeated call fails: %s: %s at %s' % (kind, data, M.E.where(st)), '(interrupted)'); continue
                if kind != 'byte' or data != i:
                    report('chunk', 'resume at another place %s' % where(b), 'the call interrupted at %s and repeated reads byte %+d or ends' % (where(b), data - i if kind == 'byte' else 0), '(interrupted)'); continue
                ev = st.events()
                segs = items(ev, False)
                if len(segs) > 1:
                    report('chunk', 'token at resume', 'the repeated call delivers %s before it reads anything' % evshow(segs[0][2], st.dom), '(interrupted)'); continue
                eq, da, db = n.x
                cl, outs, _ = segs[0]
                if cl and (db or outs) or outs:
                    # content lost or repeated
                    eq = False if (cl and db) or outs else eq
                    db = bool(outs) or (db and not cl)
                k = M.kill(st, XP.keepat(M.loc(st)), M.loc(st)); k.dom = n.dom
                if same(k, n.sts[0], i) and (eq, da, db) == (True, n.x[1], n.x[1]) and st.misc.get('unk') is None:
                    acts.append(lambda: S.ok('interrupted call continues in the same state'))
                acts.append(lambda st=st, x=(eq, da, db): push((n.full[0], st), n.dom, i, n, '(interrupted)', x))
        a = n.sts[0]
        ra = M.feed(a, i, n.dom.get(bvar(i), FULL), n.dom)
        if len(n.sts) == 1:
            for status, kind, data, st in ra:
                acts.append(lambda: S.count('transitions'))
                if status == 'fault' or kind == 'return': continue
                if data != i + 1 or st.dom[bvar(i)] == (0,): continue         # (an error of property S06)
                db = n.x[1]
                for cl, outs, e in items(st.events(), False): db = bool(outs) or (db and not cl)
                acts.append(lambda st=st, db=db: push((st,), st.dom, i + 1, n, cshow(st.dom[bvar(i)]), (True, db, db)))
            return acts
        b = n.sts[1]
        for status, kind, data, st in ra:
            if status == 'fault': continue
            lab0 = cshow(st.dom[bvar(i)])
            if kind == 'byte' and (data != i + 1 or st.dom[bvar(i)] == (0,)): continue
            for status2, kind2, data2, st2 in M.feed(b, i, st.dom[bvar(i)], st.dom):
                acts.append(lambda: S.count('transitions'))
                lab = cshow(st2.dom[bvar(i)])
                d = st2.dom
                t = mode
                if status2 == 'fault':
                    if st2.misc.get('unk'): raise Unsupported('fault on an imprecise path: %s at %s' % (kind2, M.E.where(st2)))
                    report(t, 'fault %s' % kind2, '%s: %s at %s' % (kind2, data2, M.E.where(st2)), lab); continue
                r = compare(n.x, st.events(), st2.events(), d, report, lab)
                if r is None: continue
                if kind == 'return' and kind2 == 'return': acts.append(lambda: S.ok('the same tokens to the end')); continue
                if kind != kind2:
                    report(t, 'end', 'the scan %s' % ('ends too early' if kind2 == 'return' else 'does not end'), lab); continue
                if data2 != i + 1:
                    report(t, 'position', 'reads byte %+d' % (data2 - i), lab); continue
                acts.append(lambda: S.ok('the same tokens'))
                acts.append(lambda st=st, st2=st2, d=d, lab=lab, r=r: push((st, st2), d, i + 1, n, lab, r))
        return acts

    def compare(x, ea, eb, d, report, lab):
        eq, da, db = x
        sa, sb = items(ea, da), items(eb, db)
        t = mode
        for k in range(max(len(sa), len(sb))):
            if k >= len(sa) or k >= len(sb) or (sa[k][2] is None) != (sb[k][2] is None):
                e = (sb[k] if k >= len(sa) or sa[k][2] is None else sa[k])[2] if k < max(len(sa), len(sb)) else None
                if mode == 'mask' and k >= len(sb) - 1 and sa[min(k, len(sa) - 1)][2] is not None and any(d.get(Var(('m', q), 2)) == (0,) for q in range(16)):
                    f = sa[k][2]
                    # an error in the characters of a token that has not been selected is not seen
                    if f[0] in ('item', 'err') and (f[0] == 'err' or f[1] == '!'): return None
                report(t, 'token %s' % (e and '%s %s' % (e[0], e[1]),), '%s is delivered %s' % (evshow(e, d), 'only ' + {'chunk': 'by the repeated call', 'mask': 'with a selection', 'copy': 'by the copy'}[mode] if k >= len(sa) or sa[k][2] is None else 'not any more'), lab)
                return None
            ca, oa, e = sa[k]; cb, ob, f = sb[k]
            oq = len(oa) == len(ob)
            w = d
            if oq:
                for p, q in zip(oa, ob):
                    w = equal_on(p[1], q[1], 32, d)
                    if w is not None: oq = False; break
            if ca and cb: eq = oq
            elif ca: eq = oq and not db
            elif cb: eq = oq and not da
            else: eq = eq and oq
            da = bool(oa) or (da and not ca); db = bool(ob) or (db and not cb)
            if e is None: break
            if e[0] == 'item' and f[0] == 'item':
                if e[1] != f[1]:
                    if mode == 'mask' and e[1] == '!' and any(d.get(Var(('m', q), 2)) == (0,) for q in range(16)): return None
                    report(t, 'type %s %s' % (e[1], f[1]), 'delivers %s instead of %s' % (evshow(f, d), evshow(e, d)), lab); return None
                chosen = True
                if mode == 'mask':
                    q = MASKBIT.get(e[1])
                    if q is not None:
                        chosen = not f[5] >> q & 1
                if chosen and e[1] in 'nvdab<>C':
                    if not eq:
                        report(t, 'content %s' % e[1], 'the content of %s differs' % evshow(e, d), lab); return None
                    if e[2] != f[2]:
                        report(t, 'pos %s' % e[1], 'the position of %s differs: %s, %s' % (evshow(e, d), e[2], f[2]), lab); return None
            elif e[0] == 'err' and f[0] == 'err':
                if e[1:3] != f[1:3]:
                    report(t, 'error', 'another error is reported: %s instead of %s' % (f[3], e[3]), lab); return None
            elif e[0] != f[0]:
                report(t, 'token', 'delivers %s instead of %s' % (evshow(f, d), evshow(e, d)), lab); return None
        return (eq, da, db)

    XP = Explorer(M, key, S, hints)
    for f in (start_single() if mode in ('chunk', 'jump') else start_pair()): f()
    XP.run(expand, lambda: stop(S.bad))
    S.count('states', XP.count)
    S.unit(M.E)
    S.XP = XP
    return S


CFG = {
    'scanner': ('scanner', [], '@d_scan'),
    'copied bytes': ('scanner with equal character sets', ['SAME'], '@d_scan'),
    'iterator': ('scanner iterator', [], '@d_iter'),
    'copied': ('scanner that is copied', [], '@d_copy'),
    'utf8': ('scanner of UTF-8', ['INCS=charset::UTF8'], '@d_scan'),
    'utf16': ('scanner of UTF-16', ['INCS=charset::UTF16BE'], '@d_scan'),
}

RULES = {
    'S01': 'tokens, their order, characters and positions agree with the token grammar',
    'S03': 'every character of the content is delivered once, line ends as one line feed',
    'S04': 'references deliver the character they denote or are reported',
    'S06': 'no access out of bounds, no read behind the end, end or error with code and text',
    'S02': 'the interrupted and repeated call continues like the uninterrupted one',
    'S05': 'the selected tokens are the same as without selection',
    'M03': 'a suspended call leaves nothing behind on the stack',
    'M02': 'a copied scanner continues like the original',
}


def concerns(prop, tags):
    if prop == 'S01': return tags & {'item', 'out', 'pos', 'erroneous', 'size'} and not tags & {'entity', 'undetected'}
    if prop == 'S03': return 'out' in tags and 'entity' not in tags
    if prop == 'S04': return 'entity' in tags
    if prop == 'S06': return tags & {'fault', 'overread', 'err', 'undetected', 'iter'}
    if prop == 'S02': return tags & {'chunk', 'longjmp'}
    if prop == 'M03': return 'longjmp' in tags
    return True


ASSUME = ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does',
          'the input encoding is one whose ASCII view and values are those decided by C01-C05; the output encoding prints a character as decided by C03',
          'the byte value 5 does not occur (the scanner uses it as a marker of an undefined control character)']


def check(prop, tier):
    C = Check(prop, 'other')
    runs = []
    stop = lambda bad: len(bad) > 400 or sum(1 for b in bad if concerns(prop, b[0])) > 20
    if prop in ('S01', 'S03', 'S04', 'S06'):
        runs.append(lambda: against_reference(CFG['scanner'], stop, 'scanner', prop == 'S06'))
        if prop != 'S04': runs.append(lambda: against_reference(CFG['copied bytes'], stop, 'copied-bytes', prop == 'S06'))
        if prop == 'S06': runs.append(lambda: against_reference(CFG['iterator'], stop, 'iterator'))
    elif prop == 'M03':
        for c in ('scanner',) if tier != 'thorough' else ('scanner', 'iterator', 'copied bytes', 'utf8', 'utf16'): runs.append(lambda c=c: pairs(CFG[c], 'jump', stop, c.replace(' ', '-') + '-jump'))
    elif prop == 'S02':
        runs.append(lambda: pairs(CFG['scanner'], 'chunk', stop, 'scanner-chunk'))
        if tier == 'thorough': runs.append(lambda: pairs(CFG['copied bytes'], 'chunk', stop, 'copied-bytes-chunk'))
    elif prop == 'S05':
        runs.append(lambda: pairs(CFG['scanner'], 'mask', stop, 'scanner-mask'))
        if tier == 'thorough': runs.append(lambda: pairs(CFG['copied bytes'], 'mask', stop, 'copied-bytes-mask'))
    for r in runs:
        S = r()
        merge(C, [('ok', '', S)])
        for tags, key, text in S.bad:
            if concerns(prop, tags): C.fail(RULES[prop], key, text)
        C.ok(RULES[prop], S.XP.count)
        if not S.XP.complete: C.notes.append('the exploration has been ended by its time limit after %d states: what is reported holds for these' % S.XP.count)
        if S.XP.count < 50 and not C.viol: raise Unsupported('only %d states' % S.XP.count)
        if C.viol: break
    C.finish({
        'S01': 'Product of the abstract transition system of the scanner (states at the reads of bytes, computed by abstract interpretation of nextItem for all byte classes) with a reference transducer of the token grammar; explored to the fixpoint.',
        'S03': 'Product of the abstract transition system of the scanner with a reference transducer of the token grammar: the sequence of printed characters.',
        'S04': 'Product of the abstract transition system of the scanner with a reference transducer: references in content and values, with a table of user defined entities.',
        'S06': 'Abstract transition system of the scanner and of its iterator explored to the fixpoint for all inputs, also ill-formed ones: every memory access, progress, reads behind the end, errors with code and text, the iterator against the scanner.',
        'S02': 'Self composition: in every reachable abstract state the call is left at the read of the byte and repeated; the pair of the uninterrupted and the repeated run is explored to the fixpoint and must deliver the same tokens, characters and errors.',
        'M03': 'Abstract transition system of the scanner: at every read of a byte where a call can be suspended the frames between the call and the read hold no object with a destructor, no caught exception and no one-time initialisation in progress; what a suspended call has allocated is still owned.',
        'S05': 'Self composition: scanner with the full mask and scanner with an arbitrary mask in every call, explored to the fixpoint.',
    }[prop], ASSUME)


if __name__ == '__main__':
    if len(sys.argv[1]) == 3:
        main(lambda: check(sys.argv[1], 'thorough' if '--thorough' in sys.argv else 'quick'))
    import time
    t = time.time()
    a = sys.argv[1].split(':')
    h = sys.argv[1].replace(' ', '-').replace(':', '-')
    S = against_reference(CFG[a[0]], stop=lambda b: len(b) > 40, hints=h) if len(a) == 1 else pairs(CFG[a[0]], a[1], stop=lambda b: len(b) > 40, hints=h)
    print(a, S.counts, S.oks, 'bad', len(S.bad), 'restarts', S.XP.restarts, 'rounds', S.XP.rounds, '%.1f s' % (time.time() - t))
    for b in S.bad[:10]: print(b)
