"""C04: ASCII view and classification agree with the value; C05: order and interruption independence"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from charsets import *

CTL = {0: '0', 10: 'N', 9: ' ', 13: ' ', 32: ' '}
for ch in '&<=>/-!?\'"[]': CTL[ord(ch)] = ch


def allowed(c):
    """classification allowed for the character value c"""
    if c in CTL: return {ord(CTL[c])}
    if c < 32 or c == 127: return {ord('C'), ord('U'), ord('A')} if c == 127 else {ord('C'), ord('U')}
    if c < 127: return {ord('A')}
    return {ord('U')}


def job4(enc):
    S = Sub(); U = Unit(enc)
    for status, kind, data, st in U.run('@d_class', [Ptr('INPUT', 0)]):
        S.count('partitions')
        if status == 'fault' or kind != 'return':
            S.fail('memory', '%s %s' % (enc, kind), '%s: %s at %s for input bytes %s' % (enc, data or kind, U.E.where(st), hexbox(st.dom)))
            continue
        ob = {e[1]: e[2] for e in st.events() if e[0] == 'obs'}

        def f(d):
            r = spec_decode(enc, d)
            if r is None:
                val = None
            else:
                val = r[0]
                if is_less(val, 128, d):
                    # enumerate the ASCII characters
                    if type(norm(val, d)) is not int: raise D.enum_split(d, list(norm(val, d).t))
                    val = norm(val, d)
                else: val = 128
            a = norm(ob[1], d); c = norm(ob[2], d)
            if type(c) is Sep: raise D.enum_split(d, list(c.t))
            if type(a) is Sep: raise D.enum_split(d, list(a.t))
            return val, a, c
        for d, (val, a, c) in forall(st.dom, f):
            wa = 0 if val is None or val > 127 else val
            wc = allowed(128 if val is None else val)
            what = 'malformed bytes' if val is None else ('non-ASCII character' if val > 127 else 'character %#x' % val)
            if a != wa:
                S.fail('ascii view', '%s ascii' % enc, '%s: ascii() of the %s %s is %s instead of %#x (%s)' % (enc, what, hexbox(d), show(a, d), wa, locs(U.E, '::asciichar')))
            else: S.ok('ascii view')
            if type(c) is not int or c not in wc:
                S.fail('classification', '%s control %s' % (enc, what), '%s: control() classifies the %s %s as %r (%s)' % (
                    enc, what, hexbox(d), chr(c) if type(c) is int else c, locs(U.E, '::control')))
            else: S.ok('classification', '%s: %s %s -> %r' % (enc, what, hexbox(d), chr(c)))
    S.unit(U.E)
    return S


# ---------------------------------------------------------------- C05
_fs = {}


def fs(t):
    r = _fs.get(t)
    if r is None: r = _fs[t] = frozenset(t)
    return r


_int = {}


def inter(a, b):
    if a is b: return a
    k = (a, b)
    r = _int.get(k)
    if r is None: r = _int[k] = tuple(x for x in a if x in fs(b))
    return r


def job5(enc):
    S = Sub(); U = Unit(enc)
    p = page(enc)
    ops = [0, 1, 2, 3, 5, 6, 8, 9] + ([4] if p else []) + [7]
    views = [o for o in ops if o in (0, 1, 2, 3, 4, 5)]
    U.auto = False
    U.E.canon_base = dict(U.warm.mem)

    def start():
        st = U.warm.fork()
        st.misc = dict(st.misc); st.trace = None; st.misc['ops'] = 1
        U.E.start('@d_ops', [Ptr('INPUT', 0)], st)
        r = U.E.run1(st)
        assert r[:2] == ('pause', 'choose'), r
        return st
    fault_seen = set()

    def fail(rule, key, text):
        if key not in fault_seen:
            fault_seen.add(key); S.fail(rule, key, text)

    def readers(st0, base):
        """results of every single view taken first and uninterrupted: the reference"""
        ref = {}
        for op in views + [6]:
            res = []
            work = []
            st = st0.fork(); st.trace = None
            seq = [op] if op != 6 else [2, 6]     # advancing is defined after a view
            work = [(st, seq)]
            while work:
                s, q = work.pop()
                for st_, kind, data, s2 in step(s, q[0]):
                    if st_ == 'fault':
                        fail('memory', '%s %s %s' % (enc, OPS[q[0]], kind), '%s: %s in %s at %s for bytes %s' % (enc, data, OPS[q[0]], U.E.where(s2), hexbox(s2.dom)))
                    elif len(q) > 1: s2.trace = None; work.append((s2, q[1:]))
                    else: res.append((dict(s2.dom), result(s2)))
            ref[op] = res
        return ref

    def choose(s, op):
        fr = s.frames[-1]
        ins = fr.cf.ins[fr.blk][fr.ip]
        d = fr.cf.uses[fr.blk][fr.ip][0]
        fr.R[d] = op
        if ins.op == 'invoke': U.E._invinfo(fr)[0](fr)
        else: fr.ip += 1

    def step(s, op, suspend=None):
        """perform op from a choice point; every first read of a byte delivers it, and additionally suspends if 'suspend' is a list"""
        s = s.fork(); s.trace = None
        pt = (s.frames[-1].blk, s.frames[-1].ip)
        depth = len(s.frames)
        choose(s, op)
        work = [s]; out = []
        while work:
            x = work.pop()
            r = U.E.run1(x)
            if r[0] == 'fork': work.extend(r[1])
            elif r[0] == 'fault': out.append(('fault', r[1], r[2], x))
            elif r[1] == 'byte' and r[2] >= 8: out.append(('fault', 'overread', 'byte %d is read for one character' % r[2], x))
            elif r[1] == 'byte':
                if suspend is not None:
                    y = x.fork()
                    U.E.abandon(y, depth)
                    fr = y.frames[-1]
                    fr.blk, fr.ip = pt; fr.code = fr.cf.blocks[fr.blk]; fr.invoke = None; fr.retdst = None
                    suspend.append((y, r[2]))
                x.dom[bvar(r[2])] = tuple(range(256))
                work.append(x)
            elif r[1] in ('obs', 'end'):
                # continue to the next choice point: the handlers raise before the call is completed
                fr = x.frames[-1]
                ins = fr.cf.ins[fr.blk][fr.ip]
                if ins.op == 'invoke': U.E._invinfo(fr)[0](fr)
                else: fr.ip += 1
                work.append(x)
            elif r[1] == 'choose': out.append(('ok', None, None, x))
            else: out.append(('fault', r[1], 'unexpected %s' % r[1], x))
        return out

    def result(s):
        return tuple(e[1:] if e[0] == 'obs' else e for e in s.events())

    def compare(op, s2, ref, hist):
        got = result(s2)
        key = 6 if op == 7 else (0 if op in (8, 5) else op)
        bad = None
        if op == 9:
            v = got[0][1]
            if v != -s2.misc['origin'] if 'origin' in s2.misc else v != 0: bad = (dict(s2.dom), 'the position is %s instead of the start of the character' % (v,))
            refs = []
        else: refs = ref[key]
        for d, want in refs:
            box = dict(s2.dom)
            empty = False
            for v, vals in d.items():
                if v in box:
                    x = inter(box[v], vals)
                    if not x: empty = True; break
                    box[v] = x
                else: box[v] = vals
            if empty: continue
            a = got; b = want
            if op == 8 or op == 5:
                a = tuple((0,) + e[1:] if e and e[0] in (5, 0) else e for e in got)
            if len(a) != len(b): bad = (box, 'delivers %r instead of %r' % (a, b)); break
            for x, y in zip(a, b):
                if x[0] != y[0] or len(x) != len(y): bad = (box, 'delivers %r instead of %r' % (x, y)); break
                if x[0] == 'end' or x[0] == 'blind':
                    if x[1] != y[1]: bad = (box, 'the next character starts at %s instead of %s' % (x[1], y[1])); break
                else:
                    u, w = x[-1], y[-1]
                    wd = equal_on(u, w, 32 if x[0] != 'out' else 8, box)
                    if wd is not None:
                        bad = (wd, 'delivers %s instead of %s' % (show(u, wd), show(w, wd))); break
            if bad: break
        if bad:
            fail('same result', '%s %s' % (enc, OPS[op]), '%s: %s after [%s] %s for the bytes %s (%s)' % (enc, OPS[op], ', '.join(hist), bad[1], hexbox(bad[0]), locs(U.E, {0: '::value', 1: '::asciichar', 2: '::control', 6: '::skip', 7: '::skip'}.get(op, '::'))))
        else: S.ok('same result', '%s: %s after [%s]' % (enc, OPS[op], ', '.join(hist)) if len(hist) < 4 else None)

    def explore(st0):
        ref = readers(st0, 0)
        seen = set()
        finals = []
        work = [(st0, (), False)]
        while work and not fault_seen:
            s, hist, viewed = work.pop()
            k = (U.E.canon(s), tuple(sorted((v.key, d) for v, d in s.dom.items() if v.key[0] == 'b')), viewed)
            if k in seen: continue
            seen.add(k)
            S.count('states')
            for op in ops:
                if op in (6, 7) and not viewed: continue
                susp = []
                for st_, kind, data, s2 in step(s, op, susp):
                    S.count('transitions')
                    if st_ == 'fault':
                        fail('advance over unread bytes' if kind == 'blind-advance' else 'memory', '%s %s %s' % (enc, OPS[op], kind),
                             '%s: %s after [%s] for the bytes %s: %s, at %s' % (enc, OPS[op], ', '.join(hist), hexbox(s2.dom), data, U.E.where(s2)))
                        continue
                    if op in (6, 7): S.ok('advance over unread bytes')
                    compare(op, s2, ref, hist)
                    if op in (6, 7): finals.append(s2)
                    elif op != 9: work.append((s2, hist + (OPS[op],) if len(hist) < 8 else hist, viewed or op != 8))
                    else: work.append((s2, hist, viewed))
                for y, at in susp:
                    y.trace = None
                    if op in (6, 7):
                        fail('suspension inside of the advance', '%s skip suspends' % enc, '%s: advancing after [%s] reads byte %d of the character: a suspension there repeats the operations on the character (%s)' % (enc, ', '.join(hist), at, locs(U.E, '::skip')))
                        continue
                    S.count('suspensions')
                    work.append((y, hist + ('%s suspended at byte %d' % (OPS[op], at),) if len(hist) < 8 else hist, viewed))
        return finals

    def position(s):
        e = [x for x in s.events() if x[0] == 'end']
        return e[-1][1]

    def rebase(s):
        """the state at the start of the next character, in coordinates relative to it; bytes of the finished character are forgotten"""
        n = position(s)
        keep = {}
        for i, o in list(s.mem.items()):
            if not o.alive: continue
            o2 = None
            for off, (w, v) in list(o.cells.items()):
                nv = v
                if isinstance(v, Ptr) and v.obj == 'INPUT': nv = Ptr('INPUT', v.off - n)
                elif type(v) is Sep and any(x.key[0] == 'b' for x in v.t): nv = Unk()
                if nv is not v:
                    if o2 is None: o2 = s.wobj(i)
                    o2.cells[off] = (w, nv)
        for v in list(s.dom):
            if v.key[0] == 'b': del s.dom[v]
        fr = s.frames[-1]
        fr.R = [Ptr('INPUT', x.off - n) if isinstance(x, Ptr) and x.obj == 'INPUT' else x for x in fr.R]
        s.trace = None
        return s

    def live(o): return o.alive and o.kind != 'const'

    def join(states):
        j = states[0].fork()
        for t in states[1:]:
            for i, o in list(j.mem.items()):
                if not live(o) or i not in t.mem: continue
                p_ = t.mem[i]
                if not p_.alive: continue
                for off, (w, v) in list(o.cells.items()):
                    c = p_.cells.get(off)
                    same = c is not None and c[0] == w and (c[1] is v or (type(v) in (int, Ptr) and c[1] == v) or (isinstance(v, Unk) and isinstance(c[1], Unk)))
                    if not same: j.wobj(i).cells[off] = (w, Unk())
                for off, c in p_.cells.items():
                    if off not in j.mem[i].cells: j.wobj(i).cells[off] = (c[0], Unk())
        return j

    def leq(a, b):
        for i, o in b.mem.items():
            if not live(o) or i not in a.mem or not a.mem[i].alive: continue
            for off, (w, v) in o.cells.items():
                if isinstance(v, Unk): continue
                c = a.mem[i].cells.get(off)
                if c is None or c[0] != w or not (c[1] is v or (type(v) in (int, Ptr) and c[1] == v)): return False
        return True

    st = start()
    st.dom = {v: d for v, d in st.dom.items() if v.key[0] != 'b'}
    cur = st
    for it in range(6):
        fin = explore(cur)
        if not fin or fault_seen: break
        nx = [rebase(x) for x in fin]
        # 'origin': getPosition of later characters is relative to the start of the source: not compared any more
        if all(leq(x, cur) for x in nx):
            S.ok('inductive: state after a character is covered')
            break
        cur = join([cur] + nx)
        if 9 in ops: ops.remove(9)
    else:
        raise Limit('no fixpoint')
    S.unit(U.E)
    return S


def main4():
    C = Check('C04', 'other')
    merge(C, parallel(job4))
    C.count('encodings', len(ENCODINGS))
    C.finish('Abstract interpretation of TextScanner::ascii()/control()/chr() on symbolic input bytes for every encoding: on every partition the ASCII view and the classification are compared with the value '
             'the specification of the encoding assigns to the bytes (128 ASCII characters individually, all others together).',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does'])


def main5():
    C = Check('C05', 'other')
    merge(C, parallel(job5))
    C.count('encodings', len(ENCODINGS))
    C.finish('Fixpoint over the abstract states of a TextScanner under all sequences of the views chr, operator*, ascii, control, copychar, copy construction and the advance, with suspension (non-local exit) at every '
             'first read of an input byte: every result must be identical, as function of the bytes, to the result of the same view taken first without interruption; the advance must consume the same bytes, never '
             'step over a byte that was not asked for before, and lead to a state that is covered by the start state of the next character (inductive).',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does', 'advancing is used after at least one view of the character, as all library code does'])


if __name__ == '__main__':
    main({'C04': main4, 'C05': main5}[sys.argv[1]])
