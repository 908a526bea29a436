"""Shared by the checks C01-C06: analysis of the character set encodings and their specification."""
from vf import *

ENCODINGS = ['UTF8', 'UTF16LE', 'UTF16BE', 'UCS2LE', 'UCS2BE', 'UCS4LE', 'UCS4BE'] + ['ISO-8859-p%d' % i for i in range(1, 10)]
CODEC = {1: 'iso8859_1', 2: 'iso8859_2', 3: 'iso8859_3', 4: 'iso8859_4', 5: 'iso8859_9', 6: 'iso8859_10', 7: 'iso8859_13', 8: 'iso8859_14', 9: 'iso8859_15'}
OPS = {0: 'chr()', 1: 'ascii()', 2: 'control()', 3: 'copychar(same code page)', 4: 'copychar(other code page)', 5: 'operator*', 6: 'skip()', 7: 'operator++', 8: 'chr() of a copy', 9: 'getPosition()'}


def page(enc): return int(enc[10:]) if enc.startswith('ISO') else None


_pages = {}


def codepage(p):
    """byte -> code point or None, by the standard (tables of the Python codecs)"""
    if p not in _pages:
        t = []
        for b in range(256):
            try: t.append(ord(bytes([b]).decode(CODEC[p])))
            except UnicodeDecodeError: t.append(None)
        _pages[p] = t
    return _pages[p]


def bvar(i): return Var(('b', i), 256)


class Unit:
    def __init__(self, enc):
        self.enc = enc
        p = page(enc)
        self.mod = compile_unit('charset', ['PAGE=%d' % p] if p else ['CS=' + enc])
        self.E = Engine(self.mod, {
            '@vf_byte': self.h_byte, '@vf_advance': self.h_adv, '@vf_out': self.h_out, '@vf_choose': self.h_choose,
            '@vf_obs': self.h_obs, '@vf_end': self.h_end, '@vf_char': self.h_char, '@vf_pos': self.h_pos, '@vf_page': self.h_page})
        st = self.E.start('@d_warm', [Ptr('WARM', 0)])
        r = self.E.run(st)
        if len(r) != 1 or r[0][1] != 'return': raise Unsupported('%s: set-up run does not end normally: %r' % (enc, r[0][:3]))
        self.warm = st
        self.auto = True
        self.blind = None

    # handlers
    def h_byte(self, E, st, a, ins):
        p = a[0]
        if type(p) is not Ptr or type(p.off) is not int: raise Fault('bad-source-position', 'the byte source is read at %r' % (p,))
        if p.obj == 'WARM': return 0x41
        v = bvar(p.off)
        if v not in st.dom:
            if not self.auto: raise Pause('byte', p.off)
            st.dom[v] = tuple(range(256))
        return norm(D.var_sep(v, 8), st.dom)

    def h_adv(self, E, st, a, ins):
        p = a[0]
        if p.obj == 'WARM': return
        if bvar(p.off) not in st.dom:
            if self.auto: st.emit(('blind', p.off))
            else: raise Fault('blind-advance', 'the source is advanced over byte %d of the character, which has never been asked for' % p.off)

    def h_out(self, E, st, a, ins):
        st.emit(('out', a[0]))

    def h_obs(self, E, st, a, ins):
        st.emit(('obs', a[0], a[1]))
        if st.misc.get('ops'):
            raise Pause('obs', (a[0], a[1]))

    def h_end(self, E, st, a, ins):
        st.emit(('end', a[0].off if type(a[0]) is Ptr else a[0]))
        if st.misc.get('ops'): raise Pause('end', a[0].off)

    def h_choose(self, E, st, a, ins): raise Pause('choose', a[0].off)

    def h_pos(self, E, st, a, ins): st.emit(('obs', 'pos', a[0]))

    def h_char(self, E, st, a, ins):
        x = 0
        for i in range(4):
            v = Var(('c', i), 256)
            if v not in st.dom: st.dom[v] = tuple(range(256))
            x = D.lin(x, Sep(32, 0, {v: tuple(b << (8 * i) for b in range(256))}), 1, 1, 32, st.dom)
        return x

    def h_page(self, E, st, a, ins):
        n = st.misc.get('npage', 0); st.misc['npage'] = n + 1
        v = Var(('page', n), 256)
        if v not in st.dom: st.dom[v] = tuple(range(256))
        return norm(D.var_sep(v, 32), st.dom)

    def run(self, entry, args=(), dom=None):
        st = self.warm.fork()
        st.misc = dict(st.misc); st.trace = None
        if dom: st.dom.update(dom)
        self.E.start(entry, args, st)
        return self.E.run(st)


# ---------------------------------------------------------------- specification
def memb(d, i, lo, hi):
    """is byte i in [lo,hi]: decided, or asks for a partition"""
    v = bvar(i)
    if v not in d:
        d[v] = tuple(range(256))
    a = [b for b in d[v] if lo <= b <= hi]
    if not a: return False
    if len(a) == len(d[v]): return True
    raise Split(v, [tuple(a), tuple(b for b in d[v] if not lo <= b <= hi)])


def term(i, f, w=32):
    return Sep(w, 0, {bvar(i): tuple(f(b) & ((1 << w) - 1) for b in range(256))})


def summ(d, *ts):
    x = 0
    for t in ts:
        for v in (t.t if type(t) is Sep else ()):
            if v not in d: d[v] = tuple(range(256))
        x = D.lin(x, t, 1, 1, 32, d)
    return x


def spec_decode(enc, d):
    """(value, length) of the well-formed character at the start of the input, or None if it is malformed"""
    p = page(enc)
    if p:
        t = codepage(p)
        und = [b for b in range(256) if t[b] is None]
        v = bvar(0)
        if v not in d: d[v] = tuple(range(256))
        x = [b for b in d[v] if t[b] is None]
        if x:
            if len(x) < len(d[v]): raise Split(v, [tuple(x), tuple(b for b in d[v] if t[b] is not None)])
            return None
        return norm(Sep(32, 0, {v: tuple(0 if c is None else c for c in t)}), d), 1
    if enc == 'UTF8':
        if memb(d, 0, 0, 0x7f): return summ(d, term(0, lambda b: b)), 1
        for lo, hi, n, lo1, hi1 in ((0xC2, 0xDF, 2, 0x80, 0xBF), (0xE0, 0xE0, 3, 0xA0, 0xBF), (0xE1, 0xEC, 3, 0x80, 0xBF), (0xED, 0xED, 3, 0x80, 0x9F),
                                    (0xEE, 0xEF, 3, 0x80, 0xBF), (0xF0, 0xF0, 4, 0x90, 0xBF), (0xF1, 0xF3, 4, 0x80, 0xBF), (0xF4, 0xF4, 4, 0x80, 0x8F)):
            if memb(d, 0, lo, hi):
                if not memb(d, 1, lo1, hi1): return None
                for i in range(2, n):
                    if not memb(d, i, 0x80, 0xBF): return None
                m = {2: 0x1f, 3: 0x0f, 4: 0x07}[n]
                return summ(d, term(0, lambda b: (b & m) << (6 * (n - 1))), *[term(i, lambda b, i=i: (b & 0x3f) << (6 * (n - 1 - i))) for i in range(1, n)]), n
        return None
    be = enc.endswith('BE')
    if enc.startswith('UCS4'):
        o = (0, 1, 2, 3) if be else (3, 2, 1, 0)   # position of the bytes from the most significant one
        if not memb(d, o[0], 0, 0): return None
        if not memb(d, o[1], 0, 0x10): return None
        if memb(d, o[1], 0, 0) and memb(d, o[2], 0xD8, 0xDF): return None
        return summ(d, *[term(o[k], lambda b, k=k: b << (8 * (3 - k))) for k in range(4)]), 4
    hi, lo = (0, 1) if be else (1, 0)
    if memb(d, hi, 0xD8, 0xDF):
        if enc.startswith('UCS2') or memb(d, hi, 0xDC, 0xDF): return None
        if not memb(d, 2 + hi, 0xDC, 0xDF): return None
        return summ(d, 0x10000, term(hi, lambda b: ((b << 8) - 0xD800) * 0x400), term(lo, lambda b: b * 0x400), term(2 + hi, lambda b: (b << 8) - 0xDC00), term(2 + lo, lambda b: b)), 4
    return summ(d, term(hi, lambda b: b << 8), term(lo, lambda b: b)), 2


def is_less(x, c, d): return D.truth_groups(D.icmp('ult', x, c, 32, d), d)


def maybe_scalar(v, d):
    """may v be a valid Unicode scalar value other than the replacement character and the noncharacters FFFE/FFFF"""
    if type(v) not in (int, Sep): return True
    v = norm(v, d)
    if is_less(v, 0xD800, d): return True
    if is_less(v, 0xE000, d): return False
    if is_less(v, 0xFFFD, d): return True
    if is_less(v, 0x10000, d): return False
    return bool(is_less(v, 0x110000, d))


def hexbox(d, pre='b'):
    out = []
    for v in sorted(d, key=lambda v: str(v.key)):
        if type(v.key) is tuple and v.key[0] == pre: out.append(rng(d[v]))
    return '[' + ' | '.join(out) + ']'


def show(v, d):
    if type(v) is int: return '%#x' % v
    s = D.values(v, d, 4096) if type(v) is Sep else None
    if s and len(s) <= 4: return '{' + ','.join('%#x' % x for x in sorted(s)) + '}'
    if s: return '%#x..%#x' % (min(s), max(s))
    return repr(v) if type(v) is not Sep else 'f(%s)' % ','.join(str(x.key[1]) for x in v.t)


def parallel(fn, encs=ENCODINGS, procs=8):
    import multiprocessing as mp
    with mp.get_context('fork').Pool(procs) as pool:
        return pool.map(_wrap, [(fn, e) for e in encs], chunksize=1)


def _wrap(a):
    fn, e = a
    try:
        return ('ok', e, fn(e))
    except BuildError as x:
        return ('build', e, str(x))
    except Exception as x:
        return ('err', e, '%s: %s\n%s' % (type(x).__name__, x, traceback.format_exc()))


class Sub:
    """obligations collected in a worker"""

    def __init__(self): self.items = []; self.oks = {}; self.funcs = set(); self.counts = {}

    def ok(self, rule, sample=None):
        if sample is None: self.oks[rule] = self.oks.get(rule, 0) + 1
        else: self.items.append((True, rule, sample, None))

    def fail(self, rule, key, text): self.items.append((False, rule, key, text))
    def count(self, n, k=1): self.counts[n] = self.counts.get(n, 0) + k

    def only(self, rules):
        self.items = [i for i in self.items if i[1] in rules]
        self.oks = {k: v for k, v in self.oks.items() if k in rules}

    def add(self, o):
        self.items += o.items; self.funcs |= o.funcs
        for k, v in o.oks.items(): self.oks[k] = self.oks.get(k, 0) + v
        for k, v in o.counts.items(): self.count(k, v)

    def unit(self, E):
        for f in E.called:
            l = E.mod.fn_loc(E.mod.functions[f])
            if 'textwolf/' in l: self.funcs.add('%s %s' % (l, demangle(f)[:160]))
        self.count('abstract_steps', E.steps)


def merge(C, results):
    for status, enc, r in results:
        if status == 'build': raise BuildError(r)
        if status == 'err': raise RuntimeError('%s: %s' % (enc, r))
        for ok, rule, a, b in r.items:
            if ok: C.ok(rule, 1, a)
            else: C.fail(rule, a, b)
        for rule, n in r.oks.items(): C.ok(rule, n)
        C.functions |= r.funcs
        for k, v in r.counts.items(): C.count(k, v)


def locs(E, sub):
    for f in sorted(E.called):
        dm = demangle(f)
        if sub in dm and 'textwolf' in dm: return '%s in %s' % (dm[:dm.find(sub) + len(sub) - 1][-80:], E.mod.fn_loc(E.mod.functions[f]))
    return '?'
