"""Parser for the textual LLVM IR produced by clang for the analysis units.

The IR is the type-checked, resolved form of /repo's templates (every template instantiated, every overload
resolved, every implicit operation explicit) with debug locations that lead back to file, line and function.
Function bodies are parsed lazily, only if the analysis reaches them.
"""
import re, subprocess, os

TOK = re.compile(r'''\s*(?:
   (?P<str>c"(?:[^"\\]|\\.)*")
  |(?P<gl>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  |(?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  |(?P<md>!(?:[-a-zA-Z$._0-9]+)?)
  |(?P<fp>-?\d+\.\d+(?:e[+-]?\d+)?)
  |(?P<num>-?\d+)
  |(?P<hex>0x[0-9A-FKMLH]+)
  |(?P<qs>"(?:[^"\\]|\\.)*")
  |(?P<w>[a-zA-Z_.][-a-zA-Z0-9_.]*)
  |(?P<p>\.\.\.|[][(){}<>,=*:|\#])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            raise SyntaxError("IR token at: %r" % s[pos:pos + 60])
        pos = m.end()
        out.append((m.lastgroup, m.group(m.lastgroup)))
    return out


# ---------------------------------------------------------------- types
class Type:
    __slots__ = ('kind', 'bits', 'elem', 'n', 'fields', 'packed', 'name', '_size', '_align', '_offs')

    def __init__(self, kind, bits=0, elem=None, n=0, fields=None, packed=False, name=None):
        self.kind = kind; self.bits = bits; self.elem = elem; self.n = n
        self.fields = fields; self.packed = packed; self.name = name
        self._size = None; self._align = None; self._offs = None

    def __repr__(self):
        if self.kind == 'int': return 'i%d' % self.bits
        if self.kind == 'array': return '[%d x %r]' % (self.n, self.elem)
        if self.kind == 'struct': return self.name or ('{%s}' % ','.join(map(repr, self.fields or [])))
        return self.kind


VOID = Type('void'); PTR = Type('ptr'); LABEL = Type('label'); META = Type('metadata')
_INT = {}


def INT(b):
    t = _INT.get(b)
    if t is None:
        t = _INT[b] = Type('int', bits=b)
    return t


class Global:
    __slots__ = ('name', 'type', 'init_toks', 'const', 'external', 'init', 'parsed')


class Instr:
    __slots__ = ('op', 'dst', 'args', 'line', 'extra', 'type')

    def __repr__(self):
        return "<%s %s %s>" % (self.op, self.dst, self.args)


class Function:
    __slots__ = ('name', 'rettype', 'params', 'body_lines', 'blocks', 'order', 'dbg', 'defined', 'mod',
                 'compiled', 'regindex', 'template', 'live', 'attrs', 'vararg', '_calls')

    def __repr__(self):
        return '<fn %s>' % self.name


DEF = re.compile(r'^define\b(.*?)\{\s*$')
ASG = re.compile(r'^\s*(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$')
LAB = re.compile(r'^((?:"[^"]*"|[-a-zA-Z$._0-9]+)):')
DBG = re.compile(r', !dbg !(\d+)')
MDTAIL = re.compile(r'(, ![a-zA-Z_.]+ ![0-9]+)+\s*$')

ATTR_WORDS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly returned
 immarg nofree nosync willreturn nounwind allocptr allocalign dso_local local_unnamed_addr unnamed_addr fastcc ccc
 coldcc tail notail musttail nest swiftself swifterror noreturn nobuiltin builtin cold hot mustprogress
 internal private linkonce_odr linkonce weak weak_odr external available_externally common appending hidden protected default
 comdat inbounds nuw nsw exact volatile disjoint nneg fast nnan ninf nsz arcp contract afn reassoc dereferenceable_or_null
 thread_local undef_ok writable dead_on_unwind inrange'''.split())


class Parser:
    def __init__(self, mod, toks):
        self.m = mod; self.t = toks; self.i = 0

    def peek(self): return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]; self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        k, x = self.next()
        if x != v: raise SyntaxError("expected %r got %r in %r" % (v, x, self.t))

    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'w' and (v in ATTR_WORDS):
                self.i += 1
                if self.peek()[1] == '(' and v == 'dereferenceable_or_null':
                    # e.g. dereferenceable_or_null(8)
                    self.skip_parens()
                continue
            if k == 'w' and v in ('align', 'dereferenceable', 'sret', 'byval', 'allocsize', 'memory', 'captures', 'range', 'elementtype', 'addrspace', 'byref', 'preallocated', 'inalloca', 'nofpclass', 'cc'):
                self.i += 1
                if self.peek()[1] == '(':
                    self.skip_parens()
                else:
                    self.i += 1
                continue
            if k == 'p' and v == '#':
                self.i += 2
                continue
            if k == 'qs':
                self.i += 1
                if self.accept('='): self.i += 1
                continue
            return

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            v = self.next()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1

    # types
    def parse_type(self):
        k, v = self.next()
        if k == 'w':
            if v[0] == 'i' and v[1:].isdigit(): t = INT(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    self.i += 1; self.skip_parens()
            elif v == 'void': t = VOID
            elif v == 'label': t = LABEL
            elif v == 'metadata': t = META
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'): t = Type(v)
            elif v == 'opaque': t = Type('opaque')
            elif v == 'token': t = Type('token')
            else: raise SyntaxError("type %r in %r" % (v, self.t))
        elif k == 'loc':
            t = self.m.named_type(v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x'); e = self.parse_type(); self.expect(']')
            t = Type('array', elem=e, n=n)
        elif v == '{':
            t = Type('struct', fields=self.parse_fields('}'))
        elif v == '<':
            if self.accept('{'):
                t = Type('struct', fields=self.parse_fields('}'), packed=True)
                self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x'); e = self.parse_type(); self.expect('>')
                t = Type('vector', elem=e, n=n)
        else:
            raise SyntaxError("type at %r %r in %r" % (k, v, self.t))
        return t

    def parse_fields(self, end):
        fs = []
        if self.accept(end): return fs
        while True:
            fs.append(self.parse_type())
            if self.accept(end): return fs
            self.expect(',')

    # values: ('i',int,bits) ('l',name) ('g',name) ('undef',type) ('zero',type) ('agg',type,[..]) ('gep',...) ('cast',op,val,type)
    def parse_value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('l', v)
        if k == 'num':
            if ty.kind == 'int': return ('i', int(v) & ((1 << ty.bits) - 1))
            return ('fp', v)
        if k == 'gl': return ('g', v)
        if k in ('hex', 'fp'): return ('fp', v)
        if k == 'str':
            return ('str', decode_cstr(v[2:-1]))
        if k == 'w':
            if v == 'true': return ('i', 1)
            if v == 'false': return ('i', 0)
            if v == 'null': return ('i', 0)
            if v in ('undef', 'poison'): return ('undef', ty)
            if v == 'zeroinitializer': return ('zero', ty)
            if v == 'getelementptr':
                self.skip_attrs()
                self.expect('(')
                bt = self.parse_type(); self.expect(',')
                bty = self.parse_type(); base = self.parse_value(bty)
                idx = []
                while self.accept(','):
                    self.skip_attrs()
                    it = self.parse_type(); idx.append((it, self.parse_value(it)))
                self.expect(')')
                return ('gep', bt, base, idx)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                st = self.parse_type(); x = self.parse_value(st); self.expect('to'); dt = self.parse_type(); self.expect(')')
                return ('cast', v, x, st, dt)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                self.skip_attrs()
                self.expect('(')
                t1 = self.parse_type(); a = self.parse_value(t1); self.expect(',')
                t2 = self.parse_type(); b = self.parse_value(t2); self.expect(')')
                return ('bin', v, a, b, t1)
            if v == 'icmp':
                p = self.next()[1]
                self.expect('(')
                t1 = self.parse_type(); a = self.parse_value(t1); self.expect(',')
                t2 = self.parse_type(); b = self.parse_value(t2); self.expect(')')
                return ('icmp', p, a, b, t1)
            if v == 'asm':
                raise SyntaxError('inline asm')
            if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
                raise SyntaxError(v)
        if v in ('[', '{', '<'):
            if v == '<' and self.peek()[1] == '{':
                self.next()
                end = '}'; packed = True
            else:
                end = {'[': ']', '{': '}', '<': '>'}[v]; packed = False
            els = []
            if not self.accept(end):
                while True:
                    et = self.parse_type(); els.append((et, self.parse_value(et)))
                    if self.accept(end): break
                    self.expect(',')
            if packed: self.expect('>')
            return ('agg', ty, els)
        raise SyntaxError("value %r %r in %r" % (k, v, self.t))

    def parse_tv(self):
        self.skip_attrs()
        t = self.parse_type()
        self.skip_attrs()
        return t, self.parse_value(t)


def decode_cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(c)); i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_toks = {}
        self.globals = {}
        self.functions = {}
        self.aliases = {}
        self.md = {}
        self.ctors = []
        self._loc = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                self._add_function(ln, lines[i + 1:j], True)
                i = j + 1
                continue
            if ln.startswith('declare'):
                self._add_function(ln, None, False)
            elif ln.startswith('%'):
                name, rest = ln.split(' = type ', 1)
                self.type_toks[name] = rest
            elif ln.startswith('@'):
                self._add_global(ln)
            elif ln.startswith('!'):
                k = ln.find(' = ')
                self.md[ln[1:k]] = ln[k + 3:]
            i += 1

    # ---- types
    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            t = Type('struct', name=name)
            self.types[name] = t
            rest = self.type_toks[name]
            if rest.startswith('opaque'):
                t.fields = None
            else:
                p = Parser(self, tokenize(rest))
                r = p.parse_type()
                t.fields = r.fields; t.packed = r.packed
                t.kind = r.kind
        return t

    def align(self, t):
        if t._align is None:
            k = t.kind
            if k == 'int': a = 1
            if k == 'int':
                b = (t.bits + 7) // 8
                a = 1
                while a < b and a < 16: a *= 2
            elif k == 'ptr' or k == 'fn': a = 8
            elif k in ('array', 'vector'): a = self.align(t.elem)
            elif k == 'struct':
                a = 1
                if not t.packed:
                    for f in t.fields: a = max(a, self.align(f))
            elif k == 'double': a = 8
            elif k == 'float': a = 4
            elif k in ('x86_fp80', 'fp128'): a = 16
            else: a = 8
            t._align = a
        return t._align

    def size(self, t):
        if t._size is None:
            k = t.kind
            if k == 'int':
                s = (t.bits + 7) // 8
                a = self.align(t)
                s = (s + a - 1) // a * a
            elif k == 'ptr' or k == 'fn': s = 8
            elif k in ('array', 'vector'): s = self.size(t.elem) * t.n
            elif k == 'struct':
                self.offsets(t)
                s = t._size
            elif k == 'double': s = 8
            elif k == 'float': s = 4
            elif k in ('x86_fp80', 'fp128'): s = 16
            elif k == 'void': s = 0
            else: s = 8
            t._size = s
        return t._size

    def offsets(self, t):
        if t._offs is None:
            o = 0
            offs = []
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += self.size(f)
            a = self.align(t)
            t._size = (o + a - 1) // a * a
            t._offs = offs
        return t._offs

    # ---- globals
    def _add_global(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
        name, rest = m.group(1), m.group(2)
        if re.search(r'\balias\b', rest.split('"')[0].split('{')[0].split('[')[0]):
            mm = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)
            self.aliases[name] = mm[-1]
            return
        g = Global()
        g.name = name
        g.parsed = False
        g.init_toks = rest
        g.init = None
        g.type = None
        mm = re.search(r'\b(global|constant)\b', rest)
        g.const = mm.group(1) == 'constant'
        head = rest[:mm.start()].split()
        g.external = 'external' in head or 'extern_weak' in head
        g.init_toks = rest[mm.end():]
        self.globals[name] = g

    def gparse(self, g):
        if not g.parsed:
            s = g.init_toks
            # cut trailing attributes: ", comdat", ", align N", ", !dbg"
            toks = tokenize(s)
            p = Parser(self, toks)
            g.type = p.parse_type()
            if not g.external and p.i < len(toks) and p.peek()[1] != ',':
                g.init = p.parse_value(g.type)
            g.parsed = True
            g.init_toks = None
        return g

    # ---- functions
    def _add_function(self, ln, body, defined):
        m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
        name = m.group(0)[:-1]
        f = Function()
        f.name = name; f.defined = defined; f.mod = self
        f.body_lines = body
        f.blocks = None; f.compiled = None; f.live = None; f._calls = None
        f.attrs = ln
        md = re.search(r'!dbg !(\d+)', ln)
        f.dbg = md.group(1) if md else None
        f.params = None
        self.functions[name] = f

    def header(self, f):
        if f.params is None:
            ln = f.attrs
            m = re.search(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            pre = ln[:m.start()]
            pre = re.sub(r'^(define|declare)', '', pre)
            p = Parser(self, tokenize(re.sub(r'!dbg !\d+', '', pre)))
            p.skip_attrs()
            f.rettype = p.parse_type()
            # params
            s = ln[m.end() - 1:]
            d = 0
            for k, c in enumerate(s):
                if c == '(': d += 1
                elif c == ')':
                    d -= 1
                    if d == 0: break
            p = Parser(self, tokenize(s[1:k]))
            f.params = []
            f.vararg = False
            cnt = 0
            while p.i < len(p.t):
                if p.accept('...'):
                    f.vararg = True
                    break
                p.skip_attrs()
                t = p.parse_type()
                p.skip_attrs()
                nm = None
                if p.peek()[0] == 'loc': nm = p.next()[1]
                else: nm = '%%%d' % cnt
                cnt += 1
                f.params.append((t, nm))
                if not p.accept(','): break
        return f

    def body(self, f):
        """parse f into blocks: dict label -> list of Instr"""
        if f.blocks is not None: return f
        self.header(f)
        blocks = {}
        order = []
        cur = None
        lines = f.body_lines
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(';'): continue
            if ln[0] not in ' \t':
                m = LAB.match(ln)
                lab = '%' + m.group(1)
                cur = []
                blocks[lab] = cur
                order.append(lab)
                continue
            if cur is None:
                # unnamed entry block
                lab = '%%%d' % len(f.params)
                cur = []
                blocks[lab] = cur
                order.append(lab)
            s = ln.strip()
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ' + lines[i].strip(); i += 1
            elif ' = landingpad ' in s:
                while i < n and lines[i].startswith('          ') and re.match(r'(catch|cleanup|filter)\b', lines[i].strip()):
                    s += ' ' + lines[i].strip(); i += 1
            elif ('invoke ' in s) and ' unwind label' not in s:
                s += ' ' + lines[i].strip(); i += 1
            cur.append(self.parse_instr(s))
        f.blocks = blocks
        f.order = order
        return f

    def parse_instr(self, s):
        ins = Instr()
        m = DBG.search(s)
        ins.line = m.group(1) if m else None
        if m: s = s[:m.start()] + s[m.end():]
        ins.dst = None
        m = ASG.match(s)
        if m:
            ins.dst = m.group(1)
            s = m.group(2)
        if '@llvm.dbg.' in s or '@llvm.lifetime' in s or '@llvm.experimental.noalias' in s:
            ins.op = 'nop'; ins.args = (); ins.extra = None
            return ins
        s = MDTAIL.sub('', s)
        toks = tokenize(s)
        p = Parser(self, toks)
        k, op = p.next()
        while op in ('tail', 'notail', 'musttail'):
            k, op = p.next()
        ins.op = op
        ins.extra = None
        ins.type = None
        if op == 'load':
            if p.accept('atomic'): pass
            p.accept('volatile')
            t = p.parse_type(); p.expect(',')
            pt = p.parse_type()
            ins.type = t; ins.args = (p.parse_value(pt),)
        elif op == 'store':
            if p.accept('atomic'): pass
            p.accept('volatile')
            t, v = p.parse_tv(); p.expect(',')
            pt, q = p.parse_tv()
            ins.type = t; ins.args = (v, q)
        elif op == 'getelementptr':
            p.skip_attrs()
            bt = p.parse_type(); p.expect(',')
            _, base = p.parse_tv()
            idx = []
            while p.accept(','):
                idx.append(p.parse_tv())
            ins.type = bt; ins.args = (base, idx)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.skip_attrs()
            t = p.parse_type()
            a = p.parse_value(t); p.expect(','); b = p.parse_value(t)
            ins.type = t; ins.args = (a, b)
        elif op in ('icmp', 'fcmp'):
            p.skip_attrs()
            ins.extra = p.next()[1]
            t = p.parse_type()
            a = p.parse_value(t); p.expect(','); b = p.parse_value(t)
            ins.type = t; ins.args = (a, b)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'):
            p.skip_attrs()
            t = p.parse_type(); v = p.parse_value(t); p.expect('to'); dt = p.parse_type()
            ins.type = t; ins.args = (v,); ins.extra = dt
        elif op == 'br':
            if p.accept('label'):
                ins.args = (p.next()[1],)
            else:
                t = p.parse_type(); v = p.parse_value(t); p.expect(','); p.expect('label')
                a = p.next()[1]; p.expect(','); p.expect('label'); b = p.next()[1]
                ins.op = 'condbr'
                ins.args = (v, a, b)
        elif op == 'switch':
            t = p.parse_type(); v = p.parse_value(t); p.expect(','); p.expect('label'); d = p.next()[1]
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.parse_type(); cv = p.parse_value(ct); p.expect(','); p.expect('label')
                cases.append((cv[1], p.next()[1]))
            ins.type = t; ins.args = (v, d, cases)
        elif op == 'phi':
            p.skip_attrs()
            t = p.parse_type()
            inc = []
            while True:
                p.expect('[')
                v = p.parse_value(t); p.expect(','); b = p.next()[1]; p.expect(']')
                inc.append((v, b))
                if not p.accept(','): break
            ins.type = t; ins.args = inc
        elif op == 'select':
            p.skip_attrs()
            _, c = p.parse_tv(); p.expect(','); t, a = p.parse_tv(); p.expect(','); _, b = p.parse_tv()
            ins.type = t; ins.args = (c, a, b)
        elif op in ('call', 'invoke'):
            p.skip_attrs()
            t = p.parse_type()
            # optional function type "(ptr, ...)"
            if p.peek()[1] == '(':
                p.skip_parens()
            p.skip_attrs()
            callee = p.parse_value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    p.skip_attrs()
                    at = p.parse_type()
                    if at.kind == 'metadata':
                        # metadata argument: skip to , or )
                        d = 0
                        while not (d == 0 and p.peek()[1] in (',', ')')):
                            x = p.next()[1]
                            if x == '(': d += 1
                            if x == ')': d -= 1
                        args.append((at, ('undef', at)))
                    else:
                        p.skip_attrs()
                        args.append((at, p.parse_value(at)))
                    if p.accept(')'): break
                    p.expect(',')
            ins.type = t
            ins.args = (callee, args)
            if op == 'invoke':
                p.skip_attrs()
                p.expect('to'); p.expect('label'); a = p.next()[1]
                p.expect('unwind'); p.expect('label'); b = p.next()[1]
                ins.extra = (a, b)
        elif op == 'ret':
            t = p.parse_type()
            ins.type = t
            ins.args = () if t.kind == 'void' else (p.parse_value(t),)
        elif op == 'alloca':
            p.skip_attrs()
            t = p.parse_type()
            n = ('i', 1)
            if p.accept(','):
                if p.peek()[1] != 'align':
                    nt = p.parse_type(); n = p.parse_value(nt)
            ins.type = t; ins.args = (n,)
        elif op == 'landingpad':
            t = p.parse_type()
            clauses = []
            cleanup = False
            while p.i < len(toks):
                x = p.next()[1]
                if x == 'cleanup': cleanup = True
                elif x in ('catch', 'filter'):
                    ct = p.parse_type(); clauses.append((x, p.parse_value(ct)))
                else: raise SyntaxError(s)
            ins.type = t; ins.args = (); ins.extra = (cleanup, clauses)
        elif op == 'resume':
            t, v = p.parse_tv(); ins.args = (v,)
        elif op == 'unreachable':
            ins.args = ()
        elif op == 'extractvalue':
            t, v = p.parse_tv()
            idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            ins.type = t; ins.args = (v,); ins.extra = idx
        elif op == 'insertvalue':
            t, v = p.parse_tv(); p.expect(','); t2, v2 = p.parse_tv()
            idx = []
            while p.accept(','): idx.append(int(p.next()[1]))
            ins.type = t; ins.args = (v, v2); ins.extra = idx
        elif op == 'freeze':
            t, v = p.parse_tv(); ins.type = t; ins.args = (v,)
        elif op == 'fneg':
            p.skip_attrs(); t, v = p.parse_tv(); ins.type = t; ins.args = (v,)
        elif op in ('fence',):
            ins.op = 'nop'; ins.args = ()
        elif op in ('atomicrmw', 'cmpxchg'):
            p.accept('volatile')
            sub = p.next()[1] if op == 'atomicrmw' else None
            _, q = p.parse_tv(); p.expect(','); t, v = p.parse_tv()
            ins.type = t; ins.args = (q, v); ins.extra = sub
        else:
            raise SyntaxError("instruction %r" % s)
        return ins

    # ---- debug info
    def _mdfield(self, id, field):
        s = self.md.get(id, '')
        m = re.search(r'\b%s: (?:!(\d+)|"((?:[^"\\]|\\.)*)"|(-?\d+))' % field, s)
        if not m: return None
        return m.group(1) or m.group(2) or m.group(3)

    def scope_file(self, id):
        seen = 0
        while id and seen < 50:
            seen += 1
            s = self.md.get(id, '')
            if 'DIFile(' in s:
                return self._mdfield(id, 'filename')
            f = self._mdfield(id, 'file')
            if f: return self._mdfield(f, 'filename')
            id = self._mdfield(id, 'scope')
        return None

    def loc(self, id):
        """debug location id -> 'file:line'"""
        if id is None: return '?'
        r = self._loc.get(id)
        if r is None:
            line = self._mdfield(id, 'line')
            sc = self._mdfield(id, 'scope')
            fn = self.scope_file(sc)
            r = '%s:%s' % (short_path(fn), line)
            self._loc[id] = r
        return r

    def fn_loc(self, f):
        if not f.dbg: return '?'
        return '%s:%s' % (short_path(self.scope_file(f.dbg)), self._mdfield(f.dbg, 'line'))


def short_path(fn):
    if not fn: return '?'
    k = fn.find('include/textwolf/')
    if k >= 0: return fn[k:]
    return os.path.basename(fn) if '/c++/' in fn else fn


_dem = {}


def demangle(name):
    n = name.lstrip('@').strip('"')
    r = _dem.get(n)
    if r is None:
        try:
            r = subprocess.run(['c++filt', n], capture_output=True, text=True).stdout.strip() or n
        except Exception:
            r = n
        _dem[n] = r
    return r
