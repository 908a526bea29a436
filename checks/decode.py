import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from charsets import *


def job(enc):
    S = Sub(); U = Unit(enc)
    for status, kind, data, st in U.run('@d_decode', [Ptr('INPUT', 0)]):
        S.count('partitions')
        if status == 'fault' or kind != 'return':
            where = U.E.where(st)
            S.fail('memory', '%s %s' % (enc, kind), '%s: %s at %s for input bytes %s' % (enc, data, where, hexbox(st.dom)))
            continue
        S.ok('memory')
        ev = st.events()
        val = [e[2] for e in ev if e[0] == 'obs'][0]
        end = [e[1] for e in ev if e[0] == 'end'][0]

        def ref(d): return spec_decode(enc, d)
        for d, r in forall(st.dom, ref):
            box = hexbox(d)
            if r is None:
                bad = [x for x, y in forall(d, lambda q: maybe_scalar(val, q)) if y]
                if bad:
                    S.fail('malformed', '%s malformed' % enc, '%s: the malformed bytes %s are delivered as the valid character %s (%s)' % (enc, hexbox(bad[0]), show(val, bad[0]), locs(U.E, '::value')))
                else: S.ok('malformed', '%s: malformed %s -> %s' % (enc, box, show(val, d)))
                continue
            sv, n = r
            w = equal_on(val, sv, 32, d)
            if w is not None:
                S.fail('value', '%s value' % enc, '%s: the bytes %s are delivered as %s instead of %s (%s)' % (enc, hexbox(w), show(val, w), show(sv, w), locs(U.E, '::value')))
            else: S.ok('value', '%s: %s -> %s' % (enc, box, show(val, d)))
            if end != n: S.fail('length', '%s length' % enc, '%s: the character %s has %d byte(s) but %s are consumed (%s)' % (enc, box, n, end, locs(U.E, '::value')))
            else: S.ok('length')
    S.unit(U.E)
    return S


RULES = dict(C01=('value', 'length'), C02=('malformed', 'memory'))


def main_(prop):
    C = Check(prop, 'other')
    res = parallel(job)
    for s, e, r in res:
        if s == 'ok': r.only(RULES[prop])
    merge(C, res)
    C.count('encodings', len(ENCODINGS))
    if prop == 'C01':
        C.finish('Abstract interpretation of TextScanner<It,CS>::chr()+skip() for every encoding with symbolic input bytes (finite value-set domain, exact partitions): '
                 'the abstract result over every partition of the well-formed sequences is compared with the specification of the encoding as a table identity; the end position must be the length of the sequence.',
                 ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does', 'the specification of the code pages is taken from the Python codecs'])
    C.finish('Same abstract interpretation as C01 restricted to the partitions of byte sequences the specification of the encoding calls malformed: the delivered value must not be a valid scalar value '
             '(out-of-band values, surrogates, U+FFFD..U+FFFF are accepted); every load and store is checked against the bounds of its object on all partitions.',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does'])


if __name__ == '__main__':
    p = sys.argv[1] if len(sys.argv) > 1 else 'C01'
    main(lambda: main_(p))
