"""C06: ISO-8859 code pages"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from charsets import *
import encode


def job(enc):
    S = Sub(); U = Unit(enc); p = page(enc); t = codepage(p)
    where = locs(U.E, 'IsoLatinCodePage')
    got = {}
    for status, kind, data, st in U.run('@d_decode', [Ptr('INPUT', 0)]):
        if status == 'fault' or kind != 'return':
            S.fail('byte to character', '%s %s' % (enc, kind), '%s: %s at %s' % (enc, data or kind, U.E.where(st))); continue
        val = [e[2] for e in st.events() if e[0] == 'obs'][0]
        for b in st.dom[bvar(0)]:
            d = {bvar(0): (b,)}
            got[b] = norm(val, d)
    for b in range(256):
        x = got.get(b)
        if t[b] is None:
            ok = type(x) is int and not maybe_scalar(x, {})
            msg = 'the byte %02X is not defined in the code page but is read as %s' % (b, x)
        else:
            ok = x == t[b]
            msg = 'the byte %02X is read as %s instead of U+%04X' % (b, 'U+%04X' % x if type(x) is int else x, t[b])
        if ok: S.ok('byte to character', '%s: %02X -> U+%04X' % (enc, b, x) if b > 160 else None)
        else: S.fail('byte to character', '%s byte %02X' % (enc, b), '%s: %s (%s)' % (enc, msg, where))
    inv = {c: b for b, c in enumerate(t) if c is not None}
    seen = {}
    for status, kind, data, st in U.run('@d_encode'):
        if status == 'fault' or kind != 'return':
            S.fail('character to byte', '%s %s' % (enc, kind), '%s: %s at %s' % (enc, data or kind, U.E.where(st))); continue
        out = [e[1] for e in st.events() if e[0] == 'out']

        def f(d):
            v = encode.chrval(d)
            if not encode.scalar(v, d): return None
            e = encode.spec_encode(enc, v, d)
            if e is None: return ('outside', len(out) > 1, None)
            if len(out) != 1: return ('inside', False, d)
            return ('inside', equal_on(D.cast('zext', out[0], 8, 32, d) if type(out[0]) is Sep else out[0], e[0], 32, d) is None, d)
        for d, r in forall(st.dom, f):
            if r is None: continue
            v = encode.chrval(d)
            if r[1]: S.ok('character to byte' if r[0] == 'inside' else 'outside of the code page')
            elif r[0] == 'inside':
                S.fail('character to byte', '%s character %s' % (enc, show(v, d)), '%s: the character %s is written as %s (%s)' % (enc, show(v, d), [show(o, d) for o in out], where))
            else:
                S.fail('outside of the code page', '%s outside %s' % (enc, show(v, d)), '%s: the character %s, which is not in the code page, is written as the byte %s (%s)' % (enc, show(v, d), [show(o, d) for o in out], where))
    if p == 1:
        for status, kind, data, st in U.run('@d_page'):
            v = encode.chrval(st.dom)
            if status == 'fault' or kind != 'return':
                S.fail('page index', 'page index %s' % kind, 'construction with page index %s: %s at %s' % (show(v, st.dom), data or kind, U.E.where(st))); continue
            o = [e for e in st.events() if e[0] == 'obs'][0]
            for d, good in forall(st.dom, lambda d: not is_less(v, 1, d) and bool(is_less(v, 10, d))):
                if good != (o[1] == 0) or (not good and o[2] != 1):
                    S.fail('page index', 'page index %s' % ('refused' if good else 'accepted'), 'page index %s is %s (%s)' % (show(v, d), 'refused' if o[1] else 'accepted', where))
                else: S.ok('page index', 'page index %s %s' % (show(v, d), 'accepted' if good else 'refused'))
        d1 = Var(('page', 0), 256); d2 = Var(('page', 1), 256)
        rg = tuple(range(1, 10))
        for status, kind, data, st in U.run('@d_equal', dom={d1: rg, d2: rg}):
            if status == 'fault' or kind != 'return':
                S.fail('is_equal', 'is_equal %s' % kind, 'comparison of code pages: %s at %s' % (data or kind, U.E.where(st))); continue
            ob = [e for e in st.events() if e[0] == 'obs']

            def same(d):
                a = D.truth_groups(D.icmp('eq', D.var_sep(d1, 32), D.var_sep(d2, 32), 32, d), d)
                return a, norm(ob[0][2], d), norm(ob[1][2], d)
            for d, (a, x, y) in forall(st.dom, same):
                if type(x) is not int or bool(x) != bool(a) or y != 1:
                    S.fail('is_equal', 'is_equal', 'is_equal of the code pages %s and %s is %s (%s)' % (rng(d[d1]), rng(d[d2]), x, locs(U.E, 'is_equal')))
                else: S.ok('is_equal')
    S.unit(U.E)
    return S


def main_():
    C = Check('C06', 'other')
    merge(C, parallel(job, [e for e in ENCODINGS if page(e)]))
    C.count('code pages', 9)
    C.finish('Interprocedural constant/value-set propagation through IsoLatin for all 9 code pages: the byte to character map as a table of 256 entries, the character to byte map on exact partitions of the 32-bit '
             'characters, both compared with the standard tables; the constructor on all 2^32 page indices; the page comparison on all pairs.',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does', 'the specification of the code pages is taken from the Python codecs'])


if __name__ == '__main__':
    main(main_)
