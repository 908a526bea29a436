"""Reference transducer of the XML token grammar: written from the documentation of the scanner (token types, XML 1.0 productions,
W3C 2.11 line ends, 4.1 references), character by character. It shares nothing with the scanner's state table."""
import dom as D
from dom import Sep, Var, Split, norm

SPECIAL = {0: 'NUL', 10: 'NL', 13: 'CR', 9: 'SP', 32: 'SP', 38: '&', 60: '<', 61: '=', 62: '>', 47: '/', 45: '-', 33: '!', 63: '?', 39: "'", 34: '"', 91: '[', 93: ']'}
CLASS = []
for _b in range(256):
    if _b in SPECIAL: CLASS.append(SPECIAL[_b])
    elif _b < 32: CLASS.append('CT')
    elif _b < 128: CLASS.append('ANY')
    else: CLASS.append('UND')
WS = {'NL', 'CR', 'SP', 'CT'}
NAME = {'ANY', 'UND', '-'}
TEXT = {'NL', 'CR', 'SP', 'CT', 'UND', 'ANY', '=', '>', '/', '-', '!', '?', "'", '"', '[', ']'}
PREDEF = {'quot': 0x22, 'amp': 0x26, 'apos': 0x27, 'lt': 0x3C, 'gt': 0x3E, 'nbsp': 0x20}
TYPES = {'N': 'None', '!': 'ErrorOccurred', 'h': 'HeaderStart', 'n': 'HeaderAttribName', 'v': 'HeaderAttribValue', 'e': 'HeaderEnd', 'd': 'DocAttribValue', 'D': 'DocAttribEnd',
         'a': 'TagAttribName', 'b': 'TagAttribValue', '<': 'OpenTag', '>': 'CloseTag', '/': 'CloseTagIm', 'C': 'Content', '$': 'Exit'}


def bvar(i): return Var(('b', i), 256)


def split_by(d, i, f):
    """value of f on byte i: decided or asks for a partition"""
    v = bvar(i)
    g = {}
    for b in d[v]: g.setdefault(f(b), []).append(b)
    if len(g) == 1: return next(iter(g))
    raise Split(v, [tuple(x) for x in g.values()])


def cls(d, i): return split_by(d, i, lambda b: CLASS[b])


def is_char(d, i, c): return split_by(d, i, lambda b: b == c)


def chval(d, i): return norm(D.var_sep(bvar(i), 32), d)


# token states: accepted characters, item type, follow state by class
TOK = {
    'xname': (NAME, 'n', {'WS': 'xeq', '=': 'xval'}),
    'xunq': (NAME, 'v', {'WS': 'xattr', '?': 'xend'}),
    'xsq': (TEXT - {"'"}, 'v', {"'": 'xafter'}),
    'xdq': (TEXT - {'"'}, 'v', {'"': 'xafter'}),
    'content': (TEXT, 'C', {'<': 'lt', 'NUL': 'EXIT'}),
    'open': (NAME, '<', {'WS': 'tattr', '/': 'slash', '>': 'cont'}),
    'close': (NAME, '>', {'WS': 'clsk', '>': 'cont'}),
    'tname': (NAME, 'a', {'WS': 'teq', '=': 'tval'}),
    'tunq': (NAME, 'b', {'WS': 'tattr', '/': 'slash', '>': 'cont'}),
    'tsq': (TEXT - {"'"}, 'b', {"'": 'tafter'}),
    'tdq': (TEXT - {'"'}, 'b', {'"': 'tafter'}),
    'did': (NAME, 'd', {'WS': 'dt', '>': 'DOCEND'}),
    'dsq': (TEXT - {"'"}, 'd', {"'": 'dt'}),
    'ddq': (TEXT - {'"'}, 'd', {'"': 'dt'}),
}
NAMETOK = {'xname', 'xunq', 'open', 'close', 'tname', 'tunq', 'did'}
# plain states: class -> state; '*' re-evaluates the character in the token state given (as its first character)
PLAIN = {
    'start': {'WS': 'start', 'NUL': 'EXIT', '<': 'lt0'},
    'lt0': {'WS': 'lt0', '?': ('xml', 0), '!': 'decl', '/': 'UNSPEC', '*': 'open'},
    'xattr': {'WS': 'xattr', '?': 'xend', '*': 'xname'},
    'xeq': {'WS': 'xeq', '=': 'xval'},
    'xval': {'WS': 'xval', "'": 'xsq', '"': 'xdq', '*': 'xunq'},
    'xafter': {'WS': 'xattr', '?': 'xend'},
    'xend': {'WS': 'xend', '>': 'HEADEND'},
    'docs': {'WS': 'docs', 'NUL': 'EXIT', '<': 'lt', '*': 'content'},
    'cont': {'NUL': 'EXIT', '<': 'lt', '*': 'content'},
    'lt': {'WS': 'lt', '?': 'pi', '!': 'decl', '/': 'close', '*': 'open'},
    'pi': {'?': 'pi?', 'else': 'pi'},
    'pi?': {'>': 'cont', '?': 'pi?', 'else': 'pi'},
    'decl': {'[': ('cdata', 0), '-': 'com1', '*dt': 'dt'},
    'dt': {'WS': 'dt', '>': 'DOCEND', '"': 'ddq', "'": 'dsq', '[': 'subset', '*': 'did'},
    'subset': {']': 'dt', 'else': 'subset'},
    'com1': {'-': 'com'},
    'com': {'-': 'com-', 'else': 'com'},
    'com-': {'-': 'com--', 'else': 'com'},
    'com--': {'>': 'docs', '-': 'com--', 'else': 'com'},
    'cd': {']': 'cd]', 'else': 'cd'},
    'cd]': {']': 'cd]]', 'else': 'cd'},
    'cd]]': {'>': 'cont', ']': 'cd]]', 'else': 'cd'},
    'tattr': {'WS': 'tattr', '>': 'cont', '/': 'slash', '*': 'tname'},
    'teq': {'WS': 'teq', '=': 'tval'},
    'tval': {'WS': 'tval', "'": 'tsq', '"': 'tdq', '*': 'tunq'},
    'tafter': {'WS': 'tattr', '/': 'slash', '>': 'cont'},
    'clsk': {'WS': 'clsk', '>': 'cont'},
    'slash': {'>': 'IMEND'},
}


class Ref:
    """immutable reference state"""
    __slots__ = ('s', 'start', 'cr', 'ent', 'empty')

    def __init__(self, s, start=None, cr=False, ent=None, empty=True):
        self.s = s; self.start = start; self.cr = cr; self.ent = ent; self.empty = empty

    def key(self, i, ren):
        e = self.ent
        return (self.s, ren(self.start), self.cr, self.empty, None if e is None else (e[0], e[1], tuple(x - i for x in e[2])))

    def vars(self): return self.ent[2] if self.ent else ()

    def __repr__(self): return '%s%s%s' % (self.s, '(CR)' if self.cr else '', ' entity %s' % (self.ent[0],) if self.ent else '')


def err(): return [('err',)], Ref('ENDED')


class Xml:
    def __init__(self, entities): self.entities = dict(entities) if entities is not None else {}

    def target(self, t, i):
        """events and state after entering t (which is entered behind character i)"""
        if t == 'EXIT': return [('clear',), ('item', '$', None)], Ref('ENDED')
        if t == 'HEADEND': return [('clear',), ('item', 'e', None)], Ref('docs')
        if t == 'DOCEND': return [('clear',), ('item', 'D', None)], Ref('docs')
        if t == 'IMEND': return [('clear',), ('item', '/', None)], Ref('cont')
        if t in TOK: return [('clear',)], Ref(t, i + 1)
        return [], Ref(t)

    def step(self, r, i, d):
        """one character at offset i: (events, next state)"""
        s = r.s
        if s in ('ENDED', 'UNSPEC'): return [], Ref(s)
        if type(s) is tuple: return self.keyword(r, i, d)
        if s in TOK: return self.token(r, i, d)
        c = cls(d, i)
        t = PLAIN[s]
        if c in t: return self.target(t[c], i)
        if c in WS and 'WS' in t: return self.target(t['WS'], i)
        if c == 'NUL': return err()
        if 'else' in t: return self.target(t['else'], i)
        if '*dt' in t: return self.step(Ref('dt'), i, d)
        if '*' in t:
            k = t['*']
            if k in NAMETOK and c not in NAME: return [], Ref('UNSPEC')
            ev, r2 = self.token(Ref(k, i), i, d)
            return [('clear',)] + ev, r2
        return err()

    def keyword(self, r, i, d):
        k, n = r.s
        word = {'xml': 'xml', 'cdata': 'CDATA'}[k]
        if n < len(word):
            if is_char(d, i, ord(word[n])): return [], Ref((k, n + 1))
            return err()
        c = cls(d, i)
        if k == 'cdata':
            return ([], Ref('cd')) if c == '[' else err()
        ev = [('out', ord(x)) for x in '?xml'] + [('item', 'h', None)]
        if c in WS: return ev, Ref('xattr')
        if c == '?': return ev, Ref('xend')
        return err()

    def token(self, r, i, d):
        acc, typ, end = TOK[r.s]
        if r.ent: return self.entity(r, i, d)
        c = cls(d, i)
        if r.empty and r.s in NAMETOK and c not in acc and c != 'NUL': return [], Ref('UNSPEC')
        if c == 'CR' and c in acc: return [('out', 10)], Ref(r.s, r.start, True, None, False)
        if c == 'NL' and c in acc: return ([] if r.cr else [('out', 10)]), Ref(r.s, r.start, False, None, False)
        if c in acc: return [('out', chval(d, i))], Ref(r.s, r.start, False, None, False)
        if c == '&':
            if r.s in NAMETOK: return [], Ref('UNSPEC')
            return [], Ref(r.s, r.start, False, ('&', 0, ()), False)
        t = end.get(c) or (end.get('WS') if c in WS else None)
        if t is None: return err()
        ev, r2 = self.target(t, i)
        return [('item', typ, r.start)] + ev, r2

    def unchanged(self, r, i, d, chars, redo=True):
        """the characters of what is no reference, then the character at hand again"""
        ev = [('out', ord(x) if type(x) is str else chval(d, x)) for x in chars]
        r2 = Ref(r.s, r.start, False, None, False)
        if not redo: return ev, r2
        e, r3 = self.token(r2, i, d)
        return ev + e, r3

    def entity(self, r, i, d):
        kind, base, pos = r.ent

        def to(k, b, p): return [], Ref(r.s, r.start, False, (k, b, p), False)
        if kind == '&':
            if is_char(d, i, ord('#')): return to('&#', 0, ())
            kind = 'name'; base = 0
        if kind == '&#':
            if is_char(d, i, ord('x')): return to('num', 16, ())
            kind = 'num'; base = 10
        if kind == 'num':
            pre = ['&', '#'] + (['x'] if base == 16 else [])
            if is_char(d, i, ord(';')):
                if not pos: return self.unchanged(r, i, d, pre)
                v = 0
                for k, p in enumerate(pos):
                    v = D.lin(v, Sep(64, 0, {bvar(p): digits(base ** (len(pos) - 1 - k))}), 1, 1, 64, d)
                if D.truth_groups(D.icmp('ult', v, 1 << 32, 64, d), d):
                    return [('out', D.cast('trunc', v, 64, 32, d) if type(v) is Sep else v)], Ref(r.s, r.start, False, None, False)
                return self.unchanged(r, i, d, pre + list(pos))
            if split_by(d, i, lambda b: hexval(b) is not None and hexval(b) < base):
                pos = pos + (i,)
                if len(pos) == 16: return self.unchanged(r, i, d, pre + list(pos), False)
                return to('num', base, pos)
            return self.unchanged(r, i, d, pre + list(pos))
        # named
        if is_char(d, i, ord(';')):
            for name, v in list(PREDEF.items()) + list(self.entities.items()):
                if len(name) == len(pos) and all(is_char(d, p, ord(x)) for p, x in zip(pos, name)):
                    return [('out', v)], Ref(r.s, r.start, False, None, False)
            return [('err', 'entity')], Ref('ENDED')
        if len(pos) < 15 and cls(d, i) == 'ANY': return to('name', 0, pos + (i,))
        return self.unchanged(r, i, d, ['&'] + list(pos))


def hexval(b): return HEXVAL[b]


_dig = {}


def digits(f):
    if f not in _dig: _dig[f] = tuple(hexval(b) * f if hexval(b) is not None else 0 for b in range(256))
    return _dig[f]


HEXVAL = [int(chr(b), 16) if chr(b) in '0123456789abcdefABCDEF' else None for b in range(256)]
