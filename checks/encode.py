"""C03: encoders; C06: code pages"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from charsets import *

CV = [Var(('c', i), 256) for i in range(4)]


def member(v, d, lo, hi):
    """v in [lo,hi] on the box d (asks for partitions)"""
    if is_less(v, lo, d): return False
    return bool(is_less(v, hi + 1, d)) if hi < 0xFFFFFFFF else True


def chrval(d):
    x = 0
    for i in range(4):
        if CV[i] not in d: d[CV[i]] = tuple(range(256))
        x = D.lin(x, Sep(32, 0, {CV[i]: tuple(b << (8 * i) for b in range(256))}), 1, 1, 32, d)
    return x


def valset(v, d):
    return D.values(v, d, 1 << 16)


def spec_encode(enc, v, d):
    """list of expected byte values (as 32-bit values), or None if not representable"""
    p = page(enc)
    def bits(sh, mask, add=0):
        x = D.binop('and', D.binop('lshr', v, sh, 32, d), mask, 32, d)
        return D.binop('add', x, add, 32, d)
    if p:
        if is_less(v, 0x80, d): return [v]
        t = codepage(p)
        inv = {c: b for b, c in enumerate(t) if c is not None}
        if not is_less(v, max(inv) + 1, d): return None
        # decide per high byte, then per low byte
        hi = [b for b in d[CV[1]]]
        if len(hi) > 1: raise Split(CV[1], [(b,) for b in hi])
        h = hi[0]
        yes = tuple(b for b in d[CV[0]] if (h << 8) + b in inv)
        no = tuple(b for b in d[CV[0]] if (h << 8) + b not in inv)
        if yes and no: raise Split(CV[0], [yes, no])
        if no: return None
        return [Sep(32, 0, {CV[0]: tuple(inv.get((h << 8) + b, 0) for b in range(256))})]
    be = enc.endswith('BE')
    if enc == 'UTF8':
        if is_less(v, 0x80, d): return [v]
        if is_less(v, 0x800, d): return [bits(6, 0x1f, 0xC0), bits(0, 0x3f, 0x80)]
        if is_less(v, 0x10000, d): return [bits(12, 0x0f, 0xE0), bits(6, 0x3f, 0x80), bits(0, 0x3f, 0x80)]
        return [bits(18, 0x07, 0xF0), bits(12, 0x3f, 0x80), bits(6, 0x3f, 0x80), bits(0, 0x3f, 0x80)]
    if enc.startswith('UCS4'):
        r = [bits(24, 0xff), bits(16, 0xff), bits(8, 0xff), bits(0, 0xff)]
        return r if be else r[::-1]
    if is_less(v, 0x10000, d):
        r = [bits(8, 0xff), bits(0, 0xff)]
        return r if be else r[::-1]
    if enc.startswith('UCS2'): return None
    w = D.binop('sub', v, 0x10000, 32, d)
    hi = D.binop('add', D.binop('lshr', w, 10, 32, d), 0xD800, 32, d)
    lo = D.binop('add', D.binop('and', w, 0x3ff, 32, d), 0xDC00, 32, d)
    r = []
    for x in (hi, lo):
        y = [D.binop('lshr', x, 8, 32, d), D.binop('and', x, 0xff, 32, d)]
        r += y if be else y[::-1]
    return r


def scalar(v, d):
    if is_less(v, 0xD800, d): return True
    if is_less(v, 0xE000, d): return False
    return bool(is_less(v, 0x110000, d))


def unit(enc):
    if enc.startswith('UCS2') or enc.startswith('UTF16'): return 2
    if enc.startswith('UCS4'): return 4
    return 1


def job(enc):
    S = Sub(); U = Unit(enc)
    where = '%s print' % enc
    for status, kind, data, st in U.run('@d_encode'):
        S.count('partitions')
        if status == 'fault':
            S.fail('memory', '%s %s' % (enc, kind), '%s: %s at %s for characters %s' % (enc, data, U.E.where(st), hexbox(st.dom, 'c')))
            continue
        out = [e[1] for e in st.events() if e[0] == 'out']
        for i, o in enumerate(out):
            if type(o) not in (int, Sep):
                S.fail('bytes', '%s undefined byte' % enc, '%s: byte %d of the encoded character is not a defined value (characters %s)' % (enc, i, hexbox(st.dom, 'c')))
                out = None
                break
        if out is None: continue

        def f(d):
            v = chrval(d)
            if not scalar(v, d): return ('n/a',)
            e = spec_encode(enc, v, d)
            if e is not None:
                if len(e) != len(out): return ('bytes', 'is written with %d byte(s) instead of %d: %s' % (len(out), len(e), [show(o, d) for o in out]))
                for i, (a, b) in enumerate(zip(out, e)):
                    a = D.cast('zext', a, 8, 32, d) if type(a) is Sep else a
                    w = equal_on(a, b, 32, d)
                    if w is not None: return ('bytes', 'byte %d is %s instead of %s' % (i, show(a, w), show(b, w)), w)
                return ('bytes',)
            # a numeric reference in the same encoding denoting the character
            u = unit(enc)
            if len(out) % u: return ('reference', 'is written as %d bytes' % len(out))
            txt = []
            for i in range(0, len(out), u):
                k = out[i:i + u]
                if not enc.endswith('BE'): k = k[::-1]
                for z in k[:-1]:
                    z = norm(z, d)
                    if type(z) is not int or z: return ('reference', 'is not written as ASCII text of the encoding')
                txt.append(norm(k[-1], d))

            def lit(i, *cs):
                return i < len(txt) and type(txt[i]) is int and chr(txt[i]) in cs
            if not (lit(0, '&') and lit(1, '#') and lit(len(txt) - 1, ';')): return ('reference', 'is written as %r' % ([show(t, d) for t in txt],))
            base = 16 if lit(2, 'x') else 10
            digits = txt[3:-1] if base == 16 else txt[2:-1]
            if not digits: return ('reference', 'is written as a reference without digits')
            acc = 0
            for t in digits:
                t = D.cast('zext', t, 8, 32, d) if type(t) is Sep else t
                if is_less(t, 48, d): return ('reference', 'digit %s' % show(t, d))
                if is_less(t, 58, d): x = D.lin(t, 48, 1, -1, 32, d)
                elif base == 16 and not is_less(t, 65, d) and is_less(t, 71, d): x = D.lin(t, 55, 1, -1, 32, d)
                elif base == 16 and not is_less(t, 97, d) and is_less(t, 103, d): x = D.lin(t, 87, 1, -1, 32, d)
                else: return ('reference', 'digit %s' % show(t, d))
                acc = D.lin(acc, x, base, 1, 32, d)
            w = equal_on(acc, v, 32, d)
            if w is not None: return ('reference', 'is written as reference to %s' % show(acc, w), w)
            return ('reference',)
        for d, r in forall(st.dom, f):
            if r[0] == 'n/a': continue
            if len(r) == 1: S.ok(r[0], '%s: characters %s' % (enc, show(chrval(d), d)) if True else None)
            else:
                w = r[2] if len(r) > 2 else d
                S.fail(r[0], '%s %s' % (enc, r[0]), '%s: the character %s %s (%s)' % (enc, show(chrval(dict(w)), w), r[1], locs(U.E, '::print')))
    S.unit(U.E)
    return S


def main_():
    C = Check('C03', 'other')
    merge(C, parallel(job))
    C.count('encodings', len(ENCODINGS))
    C.finish('Abstract interpretation of CharSet::print for a symbolic 32-bit character (four byte variables, exact partitions) in every encoding; on every partition of the scalar values the sequence of '
             'appended bytes must be identical, as function of the character, to the byte sequence of the encoding, or to a numeric reference whose digits denote the character.',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does'])


if __name__ == '__main__':
    main(main_)
