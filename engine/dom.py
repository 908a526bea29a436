"""Abstract values.

int            a known integer (unsigned representation modulo 2^w)
Sep            separable form  k + sum_i T_i[v_i]  (mod 2^w), where v_i are variables ranging over a finite set of
               values (an input byte, a choice) and T_i a table.  Exact for the byte/bit manipulations of codecs.
Ptr            (object, offset)
UNDEF          indeterminate (uninitialised) value
Unk            some unknown integer (top)
The allowed values of every variable are kept per state ("dom"): a box.  Conditions partition boxes exactly; an operation
that is not expressible asks for a partition of a variable (Split), so no precision is ever lost silently.
"""


import hashlib, marshal


class Var:
    __slots__ = ('key', 'n', 'hash')

    def __init__(self, key, n):
        self.key = key; self.n = n; self.hash = hash((key, n))

    def __hash__(self): return self.hash
    def __eq__(self, o): return self is o or (isinstance(o, Var) and self.key == o.key and self.n == o.n)
    def __repr__(self): return '<%s>' % (self.key,)
    def __lt__(self, o): return str(self.key) < str(o.key)


class Sep:
    __slots__ = ('w', 'k', 't')

    def __init__(self, w, k, t):
        self.w = w; self.k = k; self.t = t  # t: dict var -> tuple table

    def __repr__(self):
        return 'Sep%d(%d+%s)' % (self.w, self.k, list(self.t))


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj; self.off = off

    def __repr__(self): return 'Ptr(%r+%r)' % (self.obj, self.off)
    def __eq__(self, o): return isinstance(o, Ptr) and o.obj == self.obj and o.off == self.off
    def __hash__(self): return hash((self.obj, self.off if isinstance(self.off, int) else 0))


class PtrByte:
    __slots__ = ('p', 'i')

    def __init__(self, p, i):
        self.p = p; self.i = i


class _Undef:
    def __repr__(self): return 'UNDEF'


UNDEF = _Undef()


class Unk:
    """unknown integer; identity matters (the same unknown is equal to itself)"""
    __slots__ = ('tag',)

    def __init__(self, tag=None): self.tag = tag
    def __repr__(self): return 'Unk(%s)' % (self.tag,)


class Dead(Unk):
    """content of a memory cell assumed not to be read any more (tag: place of the assumption, cell)"""
    __slots__ = ()


class Split(Exception):
    def __init__(self, var, groups):
        self.var = var; self.groups = groups


class SplitBoth(Exception):
    """undetermined two-way decision on an unknown: engine forks with the given choice"""
    pass


_ident = {}
_neg = {}


def var_sep(var, w):
    t = _ident.get((var.n, w))
    if t is None:
        m = (1 << w) - 1
        t = _ident[(var.n, w)] = tuple(i & m for i in range(var.n))
    return Sep(w, 0, {var: t})


def norm(v, dom):
    """drop terms that are constant over the box"""
    if type(v) is not Sep: return v
    k = v.k
    t = None
    for var, tab in v.t.items():
        vals = dom[var]
        first = tab[vals[0]]
        const = True
        if len(vals) > 1:
            for b in vals:
                if tab[b] != first:
                    const = False
                    break
        if const:
            if t is None: t = dict(v.t)
            del t[var]
            k += first
    if t is None:
        if not v.t: return v.k & ((1 << v.w) - 1)
        return v
    k &= (1 << v.w) - 1
    if not t: return k
    return Sep(v.w, k, t)


def enum_split(dom, vars_):
    best = None
    for v in vars_:
        n = len(dom[v])
        if n > 1 and (best is None or n < len(dom[best])): best = v
    assert best is not None
    return Split(best, [(b,) for b in dom[best]])


def single(v):
    if len(v.t) == 1:
        for var in v.t: return var
    return None


def pointwise(v, var, w, f, dom):
    tab = v.t[var]; k = v.k; m = (1 << v.w) - 1
    out = [0] * var.n
    for b in dom[var]:
        out[b] = f((k + tab[b]) & m)
    return norm(Sep(w, 0, {var: tuple(out)}), dom)


def pointwise2(x, y, var, w, f, dom):
    m = (1 << w) - 1
    out = [0] * var.n
    tx = x.t[var] if type(x) is Sep else None
    ty = y.t[var] if type(y) is Sep else None
    for b in dom[var]:
        a = (x.k + tx[b]) & ((1 << x.w) - 1) if tx is not None else x
        c = (y.k + ty[b]) & ((1 << y.w) - 1) if ty is not None else y
        out[b] = f(a, c)
    return out


def disjoint(v, dom):
    """(k, {var: table}) with pairwise disjoint bit footprints (k included) whose sum is v mod 2^w, or None"""
    m = (1 << v.w) - 1
    terms = {}
    foot = {}
    used = 0
    ok = True
    for var, tab in v.t.items():
        f = 0
        for b in dom[var]: f |= tab[b]
        if f & used: ok = False
        used |= f
        foot[var] = f
    k = v.k & m
    if ok and not (k & used): return k, dict(v.t)
    # try to move the constant (and per-table constants) into one table
    for var, tab in v.t.items():
        nt = tuple((x + k) & m for x in tab)
        f = 0
        for b in dom[var]: f |= nt[b]
        used = f
        good = True
        for v2, f2 in foot.items():
            if v2 is var: continue
            if f2 & used:
                good = False
                break
            used |= f2
        if good:
            t = dict(v.t); t[var] = nt
            return 0, t
    # make every table start at minimum zero
    k2 = k
    t = {}
    for var, tab in v.t.items():
        mn = min(tab[b] for b in dom[var])
        k2 += mn
        t[var] = tuple((x - mn) & m for x in tab)
    k2 &= m
    used = 0
    for var, tab in t.items():
        f = 0
        for b in dom[var]: f |= tab[b]
        if f & used: return None
        used |= f
    if k2 & used: return None
    return k2, t


def intform(v, w, dom, signed):
    """integer-valued form (k, {var: table}) whose sum over the box lies in the (un)signed range of w bits and is
    congruent to v; None if no such representation is found"""
    half = 1 << (w - 1); full = 1 << w
    lo, hi = (-half, half - 1) if signed else (0, full - 1)
    if type(v) is int:
        if signed and v >= half: v -= full
        return v, {}
    tabs_u = v.t
    tabs_s = None
    for ts in (0, 1):
        if ts:
            tabs = {var: tuple(x - full if x >= half else x for x in tab) for var, tab in v.t.items()}
        else:
            tabs = tabs_u
        smin = smax = 0
        for var, tab in tabs.items():
            vals = [tab[b] for b in dom[var]]
            smin += min(vals); smax += max(vals)
        for k in (v.k, v.k - full):
            if smin + k >= lo and smax + k <= hi:
                return k, tabs
            # whole range shifted
    d = disjoint(v, dom)
    if d is not None:
        k, tabs = d
        if not signed: return k, tabs
        # the component holding the sign bit is taken as signed
        out = {}
        for var, tab in tabs.items():
            out[var] = tuple(x - full if x >= half else x for x in tab)
        if k >= half: k -= full
        return k, out
    return None


def _vars(*xs):
    r = []
    for x in xs:
        if type(x) is Sep:
            for v in x.t:
                if v not in r: r.append(v)
    return r


import operator
_CMP = {'eq': operator.eq, 'ne': operator.ne, 'ult': operator.lt, 'ule': operator.le, 'ugt': operator.gt, 'uge': operator.ge,
        'slt': operator.lt, 'sle': operator.le, 'sgt': operator.gt, 'sge': operator.ge}


def tosigned(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def icmp(pred, x, y, w, dom):
    if type(x) is int and type(y) is int:
        if pred[0] == 's': x = tosigned(x, w); y = tosigned(y, w)
        return 1 if _CMP[pred](x, y) else 0
    x = norm(x, dom); y = norm(y, dom)
    if type(x) is int and type(y) is int: return icmp(pred, x, y, w, dom)
    vs = _vars(x, y)
    f = _CMP[pred]
    if len(vs) == 1:
        if pred[0] == 's':
            g = lambda a, b: 1 if f(tosigned(a, w), tosigned(b, w)) else 0
        else:
            g = lambda a, b: 1 if f(a, b) else 0
        out = pointwise2(x, y, vs[0], w, g, dom)
        return norm(Sep(1, 0, {vs[0]: tuple(out)}), dom)
    ix = intform(x, w, dom, pred[0] == 's'); iy = intform(y, w, dom, pred[0] == 's')
    if ix is None or iy is None: raise enum_split(dom, vs)
    # d = x - y
    k = ix[0] - iy[0]
    tabs = dict(ix[1])
    for var, tab in iy[1].items():
        if var in tabs: tabs[var] = tuple(a - b for a, b in zip(tabs[var], tab))
        else: tabs[var] = tuple(-b for b in tab)
    rng = {}
    dmin = dmax = k
    for var, tab in tabs.items():
        vals = [tab[b] for b in dom[var]]
        rng[var] = (min(vals), max(vals))
        dmin += rng[var][0]; dmax += rng[var][1]

    def decide(a, b):
        # d ranges over [a,b]
        if pred in ('eq', 'ne'):
            if a > 0 or b < 0: return 0 if pred == 'eq' else 1
            if a == b == 0: return 1 if pred == 'eq' else 0
            return None
        if f is operator.lt: return 1 if b < 0 else (0 if a >= 0 else None)
        if f is operator.le: return 1 if b <= 0 else (0 if a > 0 else None)
        if f is operator.gt: return 1 if a > 0 else (0 if b <= 0 else None)
        return 1 if a >= 0 else (0 if b < 0 else None)
    r = decide(dmin, dmax)
    if r is not None: return r
    # gcd/footprint test for equality
    var = max(rng, key=lambda v: (rng[v][1] - rng[v][0]))
    if rng[var][0] == rng[var][1]: raise enum_split(dom, vs)
    omin = dmin - rng[var][0]; omax = dmax - rng[var][1]
    g = {0: [], 1: [], None: []}
    tab = tabs[var]
    for b in dom[var]:
        g[decide(omin + tab[b], omax + tab[b])].append(b)
    und = g[None]
    groups = [tuple(g[0]), tuple(g[1])]
    if len(und) == len(dom[var]):
        groups = [(b,) for b in und]
    else:
        groups.append(tuple(und))
    raise Split(var, [x for x in groups if x])


def lin(x, y, sx, sy, w, dom):
    m = (1 << w) - 1
    if type(x) is Sep and type(y) is Sep and sx == 1 and sy == -1 and len(x.t) == len(y.t):
        # the same terms cancel
        for var, tab in x.t.items():
            if y.t.get(var) is not tab and y.t.get(var) != tab: break
        else: return (x.k - y.k) & m
    k = 0
    t = {}
    for v, s in ((x, sx), (y, sy)):
        if type(v) is int: k += s * v
        else:
            k += s * v.k
            for var, tab in v.t.items():
                if var in t: t[var] = tuple((a + s * b) & m for a, b in zip(t[var], tab))
                elif s == 1: t[var] = tab
                else:
                    n = _neg.get((tab, s, m))
                    if n is None:
                        if len(_neg) > 100000: _neg.clear()
                        n = _neg[(tab, s, m)] = tuple((s * b) & m for b in tab)
                    t[var] = n
    return norm(Sep(w, k & m, t), dom)


def _conc(op, a, b, w):
    m = (1 << w) - 1
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'add': return (a + b) & m
    if op == 'sub': return (a - b) & m
    if op == 'mul': return (a * b) & m
    if op == 'shl': return (a << b) & m if b < w else 0
    if op == 'lshr': return a >> b if b < w else 0
    if op == 'ashr': return (tosigned(a, w) >> b) & m if b < w else 0
    if op in ('udiv', 'urem'):
        if b == 0: raise ZeroDivisionError
        return a // b if op == 'udiv' else a % b
    if op in ('sdiv', 'srem'):
        if b == 0: raise ZeroDivisionError
        a = tosigned(a, w); b = tosigned(b, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        return (q if op == 'sdiv' else a - q * b) & m
    raise NotImplementedError(op)


def binop(op, x, y, w, dom):
    if type(x) is int and type(y) is int: return _conc(op, x, y, w)
    if x is UNDEF or y is UNDEF:
        if op == 'and' and (x == 0 if type(x) is int else (y == 0 if type(y) is int else False)): return 0
        return UNDEF
    if isinstance(x, Unk) or isinstance(y, Unk):
        if op in ('add', 'or', 'sub', 'xor', 'shl', 'lshr', 'ashr') and type(y) is int and y == 0: return x
        if op in ('add', 'or', 'xor') and type(x) is int and x == 0: return y
        if op == 'and' and ((type(x) is int and x == 0) or (type(y) is int and y == 0)): return 0
        return Unk()
    m = (1 << w) - 1
    if op == 'add': return lin(x, y, 1, 1, w, dom)
    if op == 'sub': return lin(x, y, 1, -1, w, dom)
    x = norm(x, dom); y = norm(y, dom)
    if type(x) is int and type(y) is int: return _conc(op, x, y, w)
    if op == 'mul':
        if type(x) is int: x, y = y, x
        if type(y) is int: return lin(x, 0, y, 1, w, dom) if y != 1 else x
    if op == 'shl' and type(y) is int and y < w: return lin(x, 0, 1 << y, 1, w, dom)
    vs = _vars(x, y)
    if len(vs) == 1:
        return norm(Sep(w, 0, {vs[0]: tuple(pointwise2(x, y, vs[0], w, lambda a, b: _conc(op, a, b, w), dom))}), dom)
    if type(x) is int and op in ('and', 'or', 'xor'): x, y = y, x
    if type(y) is int:
        if op == 'udiv' and y and y & (y - 1) == 0: op = 'lshr'; y = y.bit_length() - 1
        if op == 'urem' and y and y & (y - 1) == 0: op = 'and'; y = y - 1
        if op in ('and', 'or', 'xor', 'lshr'):
            d = disjoint(x, dom)
            if d is not None:
                k, t = d
                if op == 'and':
                    return norm(Sep(w, k & y, {v: tuple(a & y for a in tab) for v, tab in t.items()}), dom)
                if op == 'or':
                    return norm(Sep(w, (k & ~y & m) + y, {v: tuple(a & ~y & m for a in tab) for v, tab in t.items()}), dom)
                if op == 'lshr':
                    return norm(Sep(w, k >> y, {v: tuple(a >> y for a in tab) for v, tab in t.items()}), dom)
                # xor:  (x & ~y) + (y & ~x)
                return norm(Sep(w, ((k & ~y & m) + (y & ~k & m)) & m,
                                {v: tuple(((a & ~y) - (a & y)) & m for a in tab) for v, tab in t.items()}), dom)
    else:
        if op in ('or', 'xor', 'and'):
            dx = disjoint(x, dom) if type(x) is Sep else (x, {})
            dy = disjoint(y, dom)
            if dx is not None and dy is not None:
                fx = dx[0]
                for v, tab in dx[1].items():
                    for b in dom[v]: fx |= tab[b]
                fy = dy[0]
                for v, tab in dy[1].items():
                    for b in dom[v]: fy |= tab[b]
                if not (fx & fy):
                    if op == 'and': return 0
                    return lin(x, y, 1, 1, w, dom)
    raise enum_split(dom, vs)


def cast(op, x, w, w2, dom):
    if type(x) is int:
        if op == 'zext': return x
        if op == 'trunc': return x & ((1 << w2) - 1)
        return tosigned(x, w) & ((1 << w2) - 1)
    if x is UNDEF: return UNDEF
    if isinstance(x, Unk): return Unk()
    m2 = (1 << w2) - 1
    x = norm(x, dom)
    if type(x) is int: return cast(op, x, w, w2, dom)
    if op == 'trunc':
        return norm(Sep(w2, x.k & m2, {v: tuple(a & m2 for a in tab) for v, tab in x.t.items()}), dom)
    v = single(x)
    if v is not None:
        if op == 'zext': return pointwise(x, v, w2, lambda a: a, dom)
        return pointwise(x, v, w2, lambda a: tosigned(a, w) & m2, dom)
    f = intform(x, w, dom, op == 'sext')
    if f is None: raise enum_split(dom, _vars(x))
    k, t = f
    return norm(Sep(w2, k & m2, {v: tuple(a & m2 for a in tab) for v, tab in t.items()}), dom)


def truth_groups(c, dom):
    """c: i1 value. Returns 0/1, or raises Split"""
    if type(c) is int: return c & 1
    c = norm(c, dom)
    if type(c) is int: return c & 1
    v = single(c)
    if v is None: raise enum_split(dom, list(c.t))
    tab = c.t[v]
    g0 = []; g1 = []
    for b in dom[v]:
        (g1 if (c.k + tab[b]) & 1 else g0).append(b)
    if not g0: return 1
    if not g1: return 0
    raise Split(v, [tuple(g1), tuple(g0)])


_short = {}


def short(t):
    """a short name of a long table"""
    if len(t) < 12: return t
    n = _short.get(t)
    if n is None: n = _short[t] = hashlib.blake2b(marshal.dumps(list(t), 2), digest_size=12).digest()
    return n


def key(v, dom, ren=None):
    """hashable canonical key of a value (Ptr excluded)"""
    if type(v) is int: return v
    if v is UNDEF: return 'U'
    if isinstance(v, Unk): return 'T'
    v = norm(v, dom)
    if type(v) is int: return v
    # shift every table to value zero at its first element
    k = v.k
    m = (1 << v.w) - 1
    items = []
    for var, tab in v.t.items():
        vals = dom[var]
        base = tab[vals[0]]
        k += base
        items.append((ren(var) if ren else var.key, short(vals), short(tuple((tab[b] - base) & m for b in vals))))
    items.sort(key=repr)
    return ('S', v.w, k & m, tuple(items))


def values(v, dom, limit=1 << 20):
    """the set of concrete values of v over the box (small ones only)"""
    v = norm(v, dom)
    if type(v) is int: return {v}
    s = {v.k}
    m = (1 << v.w) - 1
    for var, tab in v.t.items():
        vs = {tab[b] for b in dom[var]}
        if len(s) * len(vs) > limit: return None
        s = {(a + b) & m for a in s for b in vs}
    return s


def witness(dom, vars_=None):
    """a concrete member of the box, for reports"""
    return {str(v.key): d[0] for v, d in dom.items() if vars_ is None or v in vars_}
