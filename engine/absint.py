"""Abstract interpreter over LLVM IR (see dom.py for the values).

The interpreter computes, for an entry function, the set of abstract states reachable at its pause points (a read of the
next input byte, an event, the end) by a worklist over abstract states; a branch that the abstract state does not decide
partitions the value set of one variable.  Nothing of the analysed program is compiled to machine code or executed.
"""
import sys, itertools
import ir
import dom as D
from dom import Dead, Sep, Ptr, PtrByte, UNDEF, Unk, Split, SplitBoth, Var, norm
from ir import demangle


class Fault(Exception):
    def __init__(self, kind, msg=''):
        self.kind = kind; self.msg = msg


class Unsupported(Exception):
    pass


class Limit(Exception):
    pass


class Pause(Exception):
    def __init__(self, kind, data=None):
        self.kind = kind; self.data = data


class Unwind(Exception):
    """internal: control was transferred by a handler (throw, longjmp)"""


class Obj:
    __slots__ = ('size', 'cells', 'fill', 'kind', 'alive', 'name', 'maxw', 'site')

    def __init__(self, size, kind, name, fill=None, site=None):
        self.size = size; self.kind = kind; self.name = name; self.fill = fill
        self.cells = {}; self.alive = True; self.maxw = 8; self.site = site

    def clone(self):
        o = Obj.__new__(Obj)
        o.size = self.size; o.kind = self.kind; o.name = self.name; o.fill = self.fill
        o.cells = dict(self.cells); o.alive = self.alive; o.maxw = self.maxw; o.site = self.site
        return o


# stands for all objects of a released frame that have been dropped from the memory
GONE = Obj(0, 'stack', 'a local variable of a function that has returned')
GONE.alive = False


class DeadFill:
    """content of the bytes of an object that have no cell: dead except for the offsets keep; was: offset -> tag of those of
    them that have been dead before; orig: content before"""
    __slots__ = ('loc', 'lab', 'keep', 'was', 'orig')

    def __init__(self, loc, lab, keep, was, orig):
        self.loc = loc; self.lab = lab; self.keep = keep; self.was = was; self.orig = orig

    def tag(self, off):
        if off in self.keep: return self.was.get(off)
        return (self.loc, (self.lab, off))

    def __call__(self, st, o, off):
        t = self.tag(off)
        if t is not None: raise DeadRead(t)
        f = self.orig
        if f is None: return UNDEF
        return f(st, o, off) if callable(f) else f


class DeadRead(Exception):
    """a memory cell assumed to be dead is read"""
    def __init__(self, tag): self.tag = tag


class Frame:
    __slots__ = ('cf', 'R', 'blk', 'code', 'ip', 'allocas', 'retdst', 'invoke', 'uid', 'data')

    def copy(self):
        f = Frame.__new__(Frame)
        f.cf = self.cf; f.R = list(self.R); f.blk = self.blk; f.code = self.code; f.ip = self.ip
        f.allocas = list(self.allocas); f.retdst = self.retdst; f.invoke = self.invoke; f.uid = self.uid
        f.data = self.data
        return f


class State:
    __slots__ = ('E', 'frames', 'mem', 'own', 'dom', 'trace', 'nextid', 'exc', 'caught', 'misc', 'ret', 'jmp', 'note')

    def fork(self):
        s = State.__new__(State)
        s.E = self.E
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        self.own = set(); s.own = set()
        s.dom = dict(self.dom)
        s.trace = self.trace
        s.nextid = self.nextid
        s.exc = self.exc
        s.caught = list(self.caught)
        s.misc = dict(self.misc)
        s.ret = self.ret
        s.jmp = dict(self.jmp)
        s.note = self.note
        return s

    # ---- memory
    def obj(self, id):
        o = self.mem.get(id)
        if o is None:
            o = self.E.gobj(id)
        return o

    def wobj(self, id):
        o = self.mem.get(id)
        if o is None:
            o = self.E.gobj(id)
            if o.kind == 'const': raise Fault('write-to-constant', 'store to constant object %s' % o.name)
        if id in self.own: return o
        o = o.clone()
        self.mem[id] = o
        self.own.add(id)
        return o

    def alloc(self, size, kind, name, fill=None, site=None):
        id = self.nextid
        self.nextid += 1
        o = Obj(size, kind, name, fill, site)
        self.mem[id] = o
        self.own.add(id)
        return id

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self, since=None):
        out = []
        t = self.trace
        while t is not since and t is not None:
            out.append(t[1]); t = t[0]
        out.reverse()
        return out

    def check(self, p, n, what):
        if type(p) is not Ptr:
            if p is UNDEF: raise Fault('uninitialised-pointer', '%s through an uninitialised pointer' % what)
            if isinstance(p, Unk): raise Fault('unknown-pointer', '%s through an unknown pointer' % what)
            raise Fault('null-dereference', '%s through null pointer (%r)' % (what, p))
        o = self.obj(p.obj)
        if not o.alive:
            raise Fault('use-after-free' if o.kind != 'stack' else 'use-after-scope', '%s of %s after its release' % (what, o.name))
        return o

    def load(self, p, n):
        o = self.check(p, n, 'read')
        off = p.off
        if type(off) is not int:
            off = norm(off, self.dom)
        if type(off) is int:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                if c[1].__class__ is Dead: raise DeadRead(c[1].tag)
                return c[1]
            return self.slowload(o, off, n, p)
        if not isinstance(off, Sep): raise Fault('wild-read', 'read at an unknown offset of %s' % o.name)
        vs = list(off.t)
        if len(vs) != 1: raise D.enum_split(self.dom, vs)
        v = vs[0]
        tab = off.t[v]
        good = []; bad = []
        out = [0] * v.n
        ints = True
        for b in self.dom[v]:
            a = D.tosigned((off.k + tab[b]) & ((1 << 64) - 1), 64)
            if a < 0 or a + n > o.size:
                bad.append(b)
                continue
            good.append(b)
            c = o.cells.get(a)
            x = c[1] if c is not None and c[0] == n else self.slowload(o, a, n, p)
            if x.__class__ is Dead: raise DeadRead(x.tag)
            if type(x) is not int: ints = False
            out[b] = x
        if bad:
            if good: raise Split(v, [tuple(good), tuple(bad)])
            raise Fault('out-of-bounds-read', 'read beyond %s (size %s)' % (o.name, o.size))
        if not ints:
            f = out[good[0]]
            if all(out[b] is f or (isinstance(f, Ptr) and out[b] == f) for b in good): return f
            # group by equal value
            groups = {}
            for b in good:
                x = out[b]
                groups.setdefault(x if isinstance(x, (int, Ptr)) else id(x), []).append(b)
            raise Split(v, [tuple(g) for g in groups.values()])
        return norm(Sep(8 * n, 0, {v: tuple(out)}), self.dom)

    def byte(self, o, off):
        c = o.cells.get(off)
        if c is not None and c[0] == 1:
            if c[1].__class__ is Dead: raise DeadRead(c[1].tag)
            return c[1]
        for j in range(0, o.maxw):
            c = o.cells.get(off - j)
            if c is not None and c[0] > j:
                x = c[1]
                if type(x) is int: return (x >> (8 * j)) & 0xff
                if x is UNDEF: return UNDEF
                if isinstance(x, Ptr): return PtrByte(x, j)
                if isinstance(x, Unk):
                    if x.__class__ is Dead: raise DeadRead(x.tag)
                    return Unk()
                w = 8 * c[0]
                if j: x = D.binop('lshr', x, 8 * j, w, self.dom)
                return D.cast('trunc', x, w, 8, self.dom)
        f = o.fill
        if f is None: return UNDEF
        if callable(f): return f(self, o, off)
        return f

    def slowload(self, o, off, n, p=None):
        if off < 0 or off + n > o.size:
            raise Fault('out-of-bounds-read', 'read of %d byte(s) at offset %s of %s (size %s)' % (n, off, o.name, o.size))
        bs = [self.byte(o, off + i) for i in range(n)]
        if n == 1:
            return bs[0]
        if all(type(b) is int for b in bs):
            r = 0
            for i, b in enumerate(bs): r |= b << (8 * i)
            return r
        if isinstance(bs[0], PtrByte):
            if n == 8 and all(isinstance(b, PtrByte) and b.i == i and b.p == bs[0].p for i, b in enumerate(bs)): return bs[0].p
            return Unk()
        if any(b is UNDEF for b in bs): return UNDEF
        if any(isinstance(b, (Unk, PtrByte)) for b in bs): return Unk()
        w = 8 * n
        r = 0
        for i, b in enumerate(bs):
            x = D.cast('zext', b, 8, w, self.dom)
            if i: x = D.binop('shl', x, 8 * i, w, self.dom)
            r = D.binop('add', r, x, w, self.dom)
        return r

    def store(self, p, n, val):
        o = self.check(p, n, 'write')
        off = p.off
        if type(off) is not int:
            off = norm(off, self.dom)
            if type(off) is not int:
                if not isinstance(off, Sep): raise Fault('wild-write', 'write at an unknown offset of %s' % o.name)
                raise D.enum_split(self.dom, list(off.t))
        if off < 0 or off + n > o.size:
            raise Fault('out-of-bounds-write', 'write of %d byte(s) at offset %s of %s (size %s)' % (n, off, o.name, o.size))
        if o.kind == 'const': raise Fault('write-to-constant', 'store to constant object %s' % o.name)
        h = self.E.store_hook
        if h is not None: h(self, p.obj, off, n, val)
        o = self.wobj(p.obj)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, val)
            return
        self.clear(o, off, n)
        o.cells[off] = (n, val)

    def clear(self, o, off, n):
        """remove the cells overlapping [off,off+n), keeping the bytes outside"""
        cells = o.cells
        for a in range(off - o.maxw + 1, off + n):
            c = cells.get(a)
            if c is None: continue
            if a + c[0] <= off: continue
            if a < off or a + c[0] > off + n:
                keep = [(a + i, self.byte(o, a + i)) for i in range(c[0]) if not (off <= a + i < off + n)]
                del cells[a]
                for q, b in keep: cells[q] = (1, b)
            else:
                del cells[a]

    def copybytes(self, dst, src, n):
        if n == 0: return
        so = self.check(src, n, 'copy from')
        do = self.check(dst, n, 'copy to')
        for q in (src, dst):
            if type(q.off) is not int:
                q.off = norm(q.off, self.dom)
                if isinstance(q.off, Sep): raise D.enum_split(self.dom, list(q.off.t))
        a = src.off; b = dst.off
        if a < 0 or a + n > so.size: raise Fault('out-of-bounds-read', 'copy of %d byte(s) from offset %d of %s (size %s)' % (n, a, so.name, so.size))
        if b < 0 or b + n > do.size: raise Fault('out-of-bounds-write', 'copy of %d byte(s) to offset %d of %s (size %s)' % (n, b, do.name, do.size))
        if do.kind == 'const': raise Fault('write-to-constant', 'copy to constant object %s' % do.name)
        items = []
        i = 0
        cells = so.cells
        if n > 4 * len(cells) + 64 and so.fill is not None and type(so.fill) is not DeadFill:
            i = n
            for q, c in cells.items():
                if q >= a and q + c[0] <= a + n: items.append((q - a, c))
                elif q < a + n and q + c[0] > a:
                    for j in range(c[0]):
                        if a <= q + j < a + n: items.append((q + j - a, (1, self.byte(so, q + j))))
            filled = True
        else:
            filled = False
            while i < n:
                c = cells.get(a + i)
                if c is not None and i + c[0] <= n:
                    items.append((i, c)); i += c[0]
                else:
                    try: x = self.byte(so, a + i)
                    except DeadRead as e: x = Dead(e.tag)
                    items.append((i, (1, x)))
                    i += 1
        h = self.E.store_hook
        if h is not None: h(self, dst.obj, b, n, None)
        do = self.wobj(dst.obj)
        self.clear(do, b, n)
        if filled:
            for j in range(n):
                do.cells[b + j] = (1, so.fill if not callable(so.fill) else self.byte(so, a + j))
            for q, c in items:
                for j in range(c[0]): do.cells.pop(b + q + j, None)
        for q, c in items: do.cells[b + q] = c

    def cstring(self, p, limit=4096):
        """python bytes of a constant C string"""
        o = self.check(p, 1, 'read')
        r = bytearray()
        off = p.off
        while True:
            b = self.load(Ptr(p.obj, off), 1)
            if type(b) is not int: return None
            if b == 0: return bytes(r)
            r.append(b)
            off += 1
            if len(r) > limit: return None


class CompiledFunction:
    __slots__ = ('fn', 'name', 'template', 'nparams', 'blocks', 'lines', 'order', 'entry', 'preds', 'live', 'index', 'uses', 'ins', 'rettype')


_uid = itertools.count(1)


class Engine:
    def __init__(self, mod, handlers=None):
        self.mod = mod
        self.cf = {}
        self._g = {}
        self.handlers = dict(BUILTINS)
        if handlers: self.handlers.update(handlers)
        self.steps = 0
        self.max_steps = 200_000_000
        self.max_states = 2_000_000
        self.store_hook = None
        self.called = set()
        self.branches = set()
        self.maxdepth = 256
        self.typeids = {}
        self.oom = False
        self.call_hook = None
        self.jump_hook = None
        self.far = None          # input positions more than this apart are only compared for equality (see Explorer)
        self.canon_base = None   # objects of a common start state: identical (unwritten) ones need not be spelled out

    # ------------------------------------------------------------ globals
    def resolve(self, name):
        while name in self.mod.aliases: name = self.mod.aliases[name]
        return name

    def gobj(self, id):
        o = self._g.get(id)
        if o is None:
            if type(id) is int: return GONE
            if id in self.mod.functions:
                o = Obj(1, 'func', id)
            elif id in self.mod.globals:
                g = self.mod.gparse(self.mod.globals[id])
                if g.external:
                    o = Obj(1 << 16, 'extern', id, fill=lambda st, o, off: Unk())
                else:
                    o = Obj(self.mod.size(g.type), 'const' if g.const else 'global', id, fill=0)
                    if g.init is not None: self._init(o, 0, g.type, g.init)
            else:
                raise Unsupported('object %r' % (id,))
            self._g[id] = o
        return o

    def _init(self, o, off, ty, v):
        k = v[0]
        if k == 'zero': return
        if k == 'undef': return
        if k == 'str':
            for i, b in enumerate(v[1]):
                if b: o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if ty.kind == 'struct':
                offs = self.mod.offsets(ty)
                for i, (t, x) in enumerate(v[2]): self._init(o, off + offs[i], t, x)
            else:
                s = self.mod.size(ty.elem)
                for i, (t, x) in enumerate(v[2]): self._init(o, off + i * s, t, x)
            return
        x = self.const(v)
        o.cells[off] = (self.mod.size(ty), x)

    def const(self, v):
        k = v[0]
        if k == 'i': return v[1]
        if k == 'g':
            return Ptr(self.resolve(v[1]), 0)
        if k == 'undef': return UNDEF
        if k == 'zero':
            t = v[1]
            if t.kind == 'struct': return tuple(self.const(('zero', f)) for f in t.fields)
            if t.kind == 'array': return tuple(self.const(('zero', t.elem)) for _ in range(t.n))
            return 0
        if k == 'agg':
            return tuple(self.const(x) for _, x in v[2])
        if k == 'gep':
            base = self.const(v[2])
            off = self.gepoff(v[1], [(t, self.const(x)) for t, x in v[3]])
            if isinstance(base, Ptr): return Ptr(base.obj, base.off + off)
            return (base + off) & ((1 << 64) - 1)
        if k == 'cast':
            x = self.const(v[2])
            if isinstance(x, Ptr): return x
            if v[1] in ('trunc', 'zext', 'sext'): return D.cast(v[1], x, v[3].bits, v[4].bits, {})
            return x
        if k == 'bin':
            a = self.const(v[2]); b = self.const(v[3])
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                return self.ptr_arith(None, v[1], a, b, v[4].bits)
            return D.binop(v[1], a, b, v[4].bits, {})
        if k == 'icmp':
            a = self.const(v[2]); b = self.const(v[3])
            return self.do_icmp(None, v[1], a, b, 64)
        if k == 'fp': return Unk('fp')
        raise Unsupported('constant %r' % (v,))

    def gepoff(self, ty, idx):
        """constant offset"""
        off = 0
        t, i = idx[0]
        off += D.tosigned(i, t.bits) * self.mod.size(ty)
        for t, i in idx[1:]:
            if ty.kind == 'struct':
                off += self.mod.offsets(ty)[i]; ty = ty.fields[i]
            else:
                ty = ty.elem
                off += D.tosigned(i, t.bits) * self.mod.size(ty)
        return off

    # ------------------------------------------------------------ compile
    def compiled(self, name):
        c = self.cf.get(name)
        if c is None:
            f = self.mod.functions[name]
            self.mod.body(f)
            c = self.cf[name] = self._compile(f)
        return c

    def _compile(self, f):
        c = CompiledFunction()
        c.fn = f; c.name = f.name
        c.rettype = f.rettype
        index = {}
        template = []

        def reg(name):
            i = index.get(name)
            if i is None:
                i = index[name] = len(template)
                template.append(UNDEF)
            return i
        for t, nm in f.params: reg(nm)
        c.nparams = len(f.params)
        constidx = {}

        def opnd(v):
            if v[0] == 'l': return reg(v[1])
            x = self.const(v)
            kk = x if isinstance(x, int) else None
            if kk is not None and kk in constidx: return constidx[kk]
            i = len(template)
            template.append(x)
            constx.add(i)
            if kk is not None: constidx[kk] = i
            return i
        constx = set()
        # blocks
        c.order = f.order
        bi = {lab: i for i, lab in enumerate(f.order)}
        c.blocks = []
        c.lines = []
        c.ins = []
        c.uses = []
        c.preds = None
        phis = {lab: [ins for ins in f.blocks[lab] if ins.op == 'phi'] for lab in f.order}

        def edge(src, dst):
            """closure performing the phi moves of an edge and switching to the block"""
            moves = []
            for ph in phis[dst]:
                for v, b in ph.args:
                    if b == src:
                        moves.append((reg(ph.dst), opnd(v)))
                        break
            ti = bi[dst]
            blocks = c.blocks
            if not moves:
                def go(fr):
                    fr.blk = ti; fr.code = blocks[ti]; fr.ip = 0
            elif len(moves) == 1:
                d, s = moves[0]

                def go(fr):
                    fr.R[d] = fr.R[s]
                    fr.blk = ti; fr.code = blocks[ti]; fr.ip = 0
            else:
                ds = [m[0] for m in moves]; ss = [m[1] for m in moves]

                def go(fr):
                    R = fr.R
                    vals = [R[s] for s in ss]
                    for d, v in zip(ds, vals): R[d] = v
                    fr.blk = ti; fr.code = blocks[ti]; fr.ip = 0
            return go, [m[1] for m in moves], [m[0] for m in moves], ti
        self._opnd = opnd; self._reg = reg; self._edge = edge
        for lab in f.order:
            code = []; lines = []; uses = []; inss = []
            seq = [ins for ins in f.blocks[lab] if ins.op not in ('phi', 'nop')]
            for pos, ins in enumerate(seq):
                u = []
                if ins.op == 'getelementptr':
                    nx = seq[pos + 1]
                    self._deref = (nx.op == 'load' and nx.args[0] == ('l', ins.dst)) or (nx.op == 'store' and nx.args[1] == ('l', ins.dst))
                fn = self._cins(f, lab, ins, len(code), opnd, reg, edge, u)
                code.append(fn); lines.append(ins.line)
                d = reg(ins.dst) if ins.dst else None
                uses.append((d, u)); inss.append(ins)
            c.blocks.append(code); c.lines.append(lines); c.uses.append(uses); c.ins.append(inss)
        c.template = template
        c.index = index
        c.live = None
        self._consts = constx
        c.entry = 0
        c.preds = frozenset(constx)
        return c

    def liveness(self, c):
        """live registers before every instruction: list per block of list of frozensets"""
        if c.live is not None: return c.live
        const = c.preds
        nb = len(c.blocks)
        livein = [frozenset()] * nb
        # successors with phi moves are recorded in the uses list of the terminator as ('edge', ...)
        changed = True
        res = [None] * nb
        while changed:
            changed = False
            for b in range(nb - 1, -1, -1):
                lv = set()
                per = [None] * (len(c.uses[b]) + 1)
                for i in range(len(c.uses[b]) - 1, -1, -1):
                    d, u = c.uses[b][i]
                    for x in u:
                        if isinstance(x, tuple):   # edge
                            _, srcs, dsts, ti = x
                            s = set(livein[ti]) - set(dsts)
                            s.update(y for y in srcs if y not in const)
                            lv |= s
                    if d is not None: lv.discard(d)
                    for x in u:
                        if not isinstance(x, tuple) and x not in const: lv.add(x)
                    per[i] = frozenset(lv)
                f = frozenset(lv)
                per[len(c.uses[b])] = frozenset()
                res[b] = per
                if f != livein[b]:
                    livein[b] = f; changed = True
        c.live = res
        return res

    # one instruction -> closure(st, R, fr) returning None (next) or True (control changed)
    def _cins(self, f, lab, ins, idx, opnd, reg, edge, u):
        E = self
        mod = self.mod
        op = ins.op
        dst = reg(ins.dst) if ins.dst else None
        if op == 'load':
            p = opnd(ins.args[0]); u.append(p)
            t = ins.type
            if t.kind == 'struct' or t.kind == 'array':
                def f_(st, R, fr):
                    R[dst] = E.load_agg(st, R[p], t)
                return f_
            n = mod.size(t)
            bits = t.bits if t.kind == 'int' else 64
            trunc = bits != 8 * n
            if t.kind in ('double', 'float', 'x86_fp80', 'fp128'):
                def f_(st, R, fr):
                    st.check(R[p], n, 'read')
                    R[dst] = Unk('fp')
                return f_

            def f_(st, R, fr):
                q = R[p]
                if type(q) is Ptr and type(q.off) is int:
                    o = st.mem.get(q.obj)
                    if o is None: o = E.gobj(q.obj)
                    if o.alive:
                        cell = o.cells.get(q.off)
                        if cell is not None and cell[0] == n:
                            v = cell[1]
                            if v.__class__ is Dead: raise DeadRead(v.tag)
                            if trunc: v = D.cast('trunc', v, 8 * n, bits, st.dom)
                            R[dst] = v
                            return
                v = st.load(q, n)
                if trunc: v = D.cast('trunc', v, 8 * n, bits, st.dom)
                R[dst] = v
            return f_
        if op == 'store':
            v = opnd(ins.args[0]); p = opnd(ins.args[1]); u += [v, p]
            t = ins.type
            if t.kind in ('struct', 'array'):
                def f_(st, R, fr):
                    E.store_agg(st, R[p], t, R[v])
                return f_
            n = mod.size(t)
            bits = t.bits if t.kind == 'int' else 64
            ext = bits != 8 * n

            def f_(st, R, fr):
                x = R[v]
                if ext: x = D.cast('zext', x, bits, 8 * n, st.dom)
                st.store(R[p], n, x)
            return f_
        if op == 'getelementptr':
            base = opnd(ins.args[0]); u.append(base)
            ty = ins.type
            const = 0
            dyn = []
            first = True
            lim = None      # number of elements of the array indexed
            for t, v in ins.args[1]:
                if first:
                    scale = mod.size(ty); first = False
                    n = None
                elif ty.kind == 'struct':
                    i = v[1]
                    const += mod.offsets(ty)[i]; ty = ty.fields[i]
                    continue
                else:
                    n = ty.n
                    ty = ty.elem
                    scale = mod.size(ty)
                if v[0] == 'i': const += D.tosigned(v[1], t.bits) * scale
                else:
                    r = opnd(v); u.append(r)
                    dyn.append((r, t.bits, scale))
                    if n is not None and n > 1: lim = n + (0 if self._deref else 1)
            if not dyn:
                def f_(st, R, fr):
                    b = R[base]
                    if type(b) is Ptr:
                        if type(b.off) is int: R[dst] = Ptr(b.obj, b.off + const)
                        else: R[dst] = E.ptr_add(st, b, const)
                    else:
                        R[dst] = E.ptr_add(st, b, const)
                return f_
            if len(dyn) == 1:
                r, bits, scale = dyn[0]

                def f_(st, R, fr):
                    i = R[r]
                    b = R[base]
                    if lim is not None:
                        if type(i) is not int: i = norm(i, st.dom)
                        if type(i) is int:
                            if i >= lim: raise Fault('index-out-of-bounds', 'index %d of an array of %d elements' % (D.tosigned(i, bits), n))
                        elif type(i) is Sep and len(i.t) == 1:
                            ok, bad = [], []
                            (v, tab), = i.t.items(); m = (1 << bits) - 1
                            for x in st.dom[v]: (ok if ((i.k + tab[x]) & m) < lim else bad).append(x)
                            if bad:
                                if ok: raise Split(v, [tuple(ok), tuple(bad)])
                                raise Fault('index-out-of-bounds', 'index of an array of %d elements' % n)
                    if type(i) is int and type(b) is Ptr and type(b.off) is int:
                        if i >> (bits - 1): i -= 1 << bits
                        R[dst] = Ptr(b.obj, b.off + const + i * scale)
                        return
                    if type(i) is int:
                        if i >> (bits - 1): i -= 1 << bits
                        R[dst] = E.ptr_add(st, b, const + i * scale)
                        return
                    R[dst] = E.ptr_add(st, E.ptr_add(st, b, const), i, bits, scale)
                return f_

            def f_(st, R, fr):
                b = E.ptr_add(st, R[base], const)
                for r, bits, scale in dyn: b = E.ptr_add(st, b, R[r], bits, scale)
                R[dst] = b
            return f_
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a = opnd(ins.args[0]); b = opnd(ins.args[1]); u += [a, b]
            w = ins.type.bits
            m = (1 << w) - 1
            if op == 'add':
                def f_(st, R, fr):
                    x = R[a]; y = R[b]
                    if type(x) is int and type(y) is int: R[dst] = (x + y) & m
                    else: R[dst] = E.arith(st, 'add', x, y, w)
            elif op == 'sub':
                def f_(st, R, fr):
                    x = R[a]; y = R[b]
                    if type(x) is int and type(y) is int: R[dst] = (x - y) & m
                    else: R[dst] = E.arith(st, 'sub', x, y, w)
            elif op == 'and':
                def f_(st, R, fr):
                    x = R[a]; y = R[b]
                    if type(x) is int and type(y) is int: R[dst] = x & y
                    else: R[dst] = E.arith(st, 'and', x, y, w)
            else:
                def f_(st, R, fr):
                    R[dst] = E.arith(st, op, R[a], R[b], w)
            return f_
        if op == 'icmp':
            a = opnd(ins.args[0]); b = opnd(ins.args[1]); u += [a, b]
            w = ins.type.bits if ins.type.kind == 'int' else 64
            pred = ins.extra
            signed = pred[0] == 's'
            cmp = D._CMP[pred]

            def f_(st, R, fr):
                x = R[a]; y = R[b]
                if type(x) is int and type(y) is int:
                    if signed:
                        if x >> (w - 1): x -= 1 << w
                        if y >> (w - 1): y -= 1 << w
                    R[dst] = 1 if cmp(x, y) else 0
                else:
                    R[dst] = E.do_icmp(st, pred, x, y, w)
            return f_
        if op in ('zext', 'sext', 'trunc'):
            a = opnd(ins.args[0]); u.append(a)
            w = ins.type.bits; w2 = ins.extra.bits

            def f_(st, R, fr):
                x = R[a]
                if isinstance(x, Ptr):
                    if op != 'trunc': R[dst] = x
                    else: R[dst] = Unk()
                    return
                R[dst] = D.cast(op, x, w, w2, st.dom)
            return f_
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'):
            a = opnd(ins.args[0]); u.append(a)

            def f_(st, R, fr):
                R[dst] = R[a]
            return f_
        if op in ('uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc', 'fneg', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp'):
            for v in ins.args: u.append(opnd(v))
            def f_(st, R, fr):
                R[dst] = Unk('fp')
            return f_
        if op == 'br':
            go, srcs, dsts, ti = edge(lab, ins.args[0])
            u.append(('edge', srcs, dsts, ti))

            def f_(st, R, fr):
                go(fr)
                return True
            return f_
        if op == 'condbr':
            c = opnd(ins.args[0]); u.append(c)
            g1, s1, d1, t1 = edge(lab, ins.args[1]); g0, s0, d0, t0 = edge(lab, ins.args[2])
            u.append(('edge', s1, d1, t1)); u.append(('edge', s0, d0, t0))
            br = E.branches
            name = f.name
            k1 = (name, lab, 1); k0 = (name, lab, 0)

            def f_(st, R, fr):
                x = R[c]
                if type(x) is not int:
                    x = E.truth(st, x)
                if x:
                    br.add(k1); g1(fr)
                else:
                    br.add(k0); g0(fr)
                return True
            return f_
        if op == 'switch':
            v = opnd(ins.args[0]); u.append(v)
            w = ins.type.bits
            tab = {}
            for cv, l in ins.args[2]:
                e = edge(lab, l); u.append(('edge',) + e[1:]); tab[cv] = e[0]
            e = edge(lab, ins.args[1]); u.append(('edge',) + e[1:]); dflt = e[0]

            def f_(st, R, fr):
                x = R[v]
                if type(x) is not int: x = E.switch_value(st, x, tab, w)
                tab.get(x, dflt)(fr)
                return True
            return f_
        if op == 'select':
            c = opnd(ins.args[0]); a = opnd(ins.args[1]); b = opnd(ins.args[2]); u += [c, a, b]
            w = ins.type.bits if ins.type.kind == 'int' else 64

            def f_(st, R, fr):
                x = R[c]
                if type(x) is not int:
                    x = E.truth(st, x)
                R[dst] = R[a] if x & 1 else R[b]
            return f_
        if op == 'alloca':
            n = opnd(ins.args[0])
            sz = mod.size(ins.type)
            nm = "local variable %s of %s" % (ins.dst, f.name)

            def f_(st, R, fr):
                k = R[n]
                if type(k) is not int: raise Unsupported('dynamic alloca')
                id = st.alloc(sz * k, 'stack', nm)
                fr.allocas.append(id)
                R[dst] = Ptr(id, 0)
            return f_
        if op in ('call', 'invoke'):
            callee, args = ins.args
            ai = []
            for t, v in args:
                r = opnd(v); u.append(r); ai.append(r)
            inv = None
            if op == 'invoke':
                e1 = edge(lab, ins.extra[0]); u.append(('edge',) + e1[1:])
                e2 = edge(lab, ins.extra[1]); u.append(('edge',) + e2[1:])
                lp = None
                for li in f.blocks[ins.extra[1]]:
                    if li.op == 'landingpad': lp = li
                inv = (e1[0], e2[0], lp)
            nxt = idx + 1
            if callee[0] == 'g':
                name = E.resolve(callee[1])

                def f_(st, R, fr):
                    return E.call(st, fr, name, [R[i] for i in ai], dst, inv, nxt, ins)
            else:
                cr = opnd(callee); u.append(cr)

                def f_(st, R, fr):
                    q = R[cr]
                    if type(q) is Ptr and q.off == 0 and q.obj in mod.functions:
                        return E.call(st, fr, q.obj, [R[i] for i in ai], dst, inv, nxt, ins)
                    raise Fault('bad-call', 'call through invalid function pointer %r' % (q,))
            return f_
        if op == 'ret':
            v = None
            if ins.args:
                v = opnd(ins.args[0]); u.append(v)

            def f_(st, R, fr):
                E.do_return(st, fr, R[v] if v is not None else None)
                return True
            return f_
        if op == 'unreachable':
            def f_(st, R, fr):
                raise Fault('unreachable', 'control reaches unreachable code')
            return f_
        if op == 'landingpad':
            def f_(st, R, fr):
                R[dst] = fr.data; fr.data = None
            return f_
        if op == 'resume':
            v = opnd(ins.args[0]); u.append(v)

            def f_(st, R, fr):
                a = R[v]
                E.unwind(st, a[0], popself=True)
                return True
            return f_
        if op == 'extractvalue':
            v = opnd(ins.args[0]); u.append(v)
            path = ins.extra

            def f_(st, R, fr):
                x = R[v]
                for i in path:
                    if x is UNDEF: break
                    x = x[i]
                R[dst] = x
            return f_
        if op == 'insertvalue':
            a = opnd(ins.args[0]); b = opnd(ins.args[1]); u += [a, b]
            path = ins.extra
            ty = ins.type

            def f_(st, R, fr):
                def put(x, t, path, val):
                    if not path: return val
                    n = len(t.fields) if t.kind == 'struct' else t.n
                    x = [UNDEF] * n if x is UNDEF else list(x)
                    x[path[0]] = put(x[path[0]], t.fields[path[0]] if t.kind == 'struct' else t.elem, path[1:], val)
                    return tuple(x)
                R[dst] = put(R[a], ty, path, R[b])
            return f_
        if op == 'atomicrmw':
            q = opnd(ins.args[0]); v = opnd(ins.args[1]); u += [q, v]
            n = mod.size(ins.type); w = 8 * n
            sub = ins.extra

            def f_(st, R, fr):
                old = st.load(R[q], n)
                new = R[v] if sub == 'xchg' else E.arith(st, sub, old, R[v], w)
                st.store(R[q], n, new)
                R[dst] = old
            return f_
        raise Unsupported('instruction ' + op)

    # ------------------------------------------------------------ semantic helpers
    def load_agg(self, st, p, t):
        if t.kind == 'struct':
            offs = self.mod.offsets(t)
            return tuple(self.load_agg(st, Ptr(p.obj, p.off + o), ft) for o, ft in zip(offs, t.fields))
        if t.kind == 'array':
            s = self.mod.size(t.elem)
            return tuple(self.load_agg(st, Ptr(p.obj, p.off + i * s), t.elem) for i in range(t.n))
        return st.load(p, self.mod.size(t))

    def store_agg(self, st, p, t, v):
        if t.kind == 'struct':
            offs = self.mod.offsets(t)
            for i, (o, ft) in enumerate(zip(offs, t.fields)):
                self.store_agg(st, Ptr(p.obj, p.off + o), ft, UNDEF if v is UNDEF else v[i])
        elif t.kind == 'array':
            s = self.mod.size(t.elem)
            for i in range(t.n): self.store_agg(st, Ptr(p.obj, p.off + i * s), t.elem, UNDEF if v is UNDEF else v[i])
        else:
            st.store(p, self.mod.size(t), v)

    def ptr_add(self, st, b, i, bits=64, scale=1):
        if i is UNDEF: return UNDEF
        if type(b) is Ptr:
            off = b.off
            if type(i) is int:
                i = D.tosigned(i & ((1 << bits) - 1), bits)
                if type(off) is int: return Ptr(b.obj, off + i * scale)
                return Ptr(b.obj, self._offnorm(D.binop('add', off, (i * scale) & ((1 << 64) - 1), 64, st.dom)))
            if isinstance(i, Unk): return Ptr(b.obj, Unk())
            i = norm(i, st.dom)
            if type(i) is int: return self.ptr_add(st, b, i, bits, scale)
            if bits != 64: i = D.cast('sext', i, bits, 64, st.dom)
            x = D.binop('mul', i, scale, 64, st.dom)
            x = D.binop('add', x, off & ((1 << 64) - 1) if type(off) is int else off, 64, st.dom)
            return Ptr(b.obj, self._offnorm(x))
        if type(b) is int:
            if type(i) is int:
                return (b + i * scale) & ((1 << 64) - 1)
            if b == 0 and isinstance(i, (Unk,)): return Unk()
            return D.binop('add', b, D.binop('mul', i, scale, 64, st.dom), 64, st.dom)
        if b is UNDEF: return UNDEF
        if isinstance(b, Unk): return Unk()
        raise Fault('bad-pointer', 'arithmetic on %r' % (b,))

    def _offnorm(self, x):
        return D.tosigned(x, 64) if type(x) is int else x

    def ptr_arith(self, st, op, x, y, w):
        m = (1 << w) - 1
        dom = st.dom if st is not None else {}
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op == 'sub':
                if x.obj == y.obj:
                    if x.obj == 'INPUT' and self.far is not None and (type(x.off) is not int or type(y.off) is not int or abs(x.off - y.off) > self.far):
                        raise Unsupported('distance of two positions of the input')
                    if type(x.off) is int and type(y.off) is int: return (x.off - y.off) & m
                    a = x.off & m if type(x.off) is int else x.off
                    b = y.off & m if type(y.off) is int else y.off
                    return D.binop('sub', a, b, w, dom)
                raise Fault('pointer-difference', 'difference of pointers into different objects')
            return Unk()
        if isinstance(x, Ptr):
            if op == 'add': return self.ptr_add(st, x, y, w)
            if op == 'sub':
                if type(y) is int: return self.ptr_add(st, x, (-y) & m, w)
                return self.ptr_add(st, x, D.binop('sub', 0, y, w, dom), w)
            if op == 'and' and type(y) is int:
                if type(x.off) is int and y < 16: return x.off & y   # objects are 16-aligned
                if type(x.off) is int and D.tosigned(y, w) in (-16, -8, -4, -2): return Ptr(x.obj, x.off & D.tosigned(y, w))
                return Unk()
            if op in ('or', 'xor', 'lshr', 'ashr') and y == 0: return x
            return Unk()
        if op == 'add': return self.ptr_add(st, y, x, w)
        return Unk()

    def arith(self, st, op, x, y, w):
        tx = type(x); ty = type(y)
        if tx is Ptr or ty is Ptr: return self.ptr_arith(st, op, x, y, w)
        if tx is tuple or ty is tuple: raise Unsupported('vector arithmetic')
        try:
            return D.binop(op, x, y, w, st.dom)
        except ZeroDivisionError:
            raise Fault('division-by-zero', 'division by zero')

    def do_icmp(self, st, pred, x, y, w):
        dom = st.dom if st is not None else {}
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.obj == y.obj:
                    if x.obj == 'INPUT' and self.far is not None and pred not in ('eq', 'ne') and (type(x.off) is not int or type(y.off) is not int or abs(x.off - y.off) > self.far):
                        raise Unsupported('order of two positions of the input')
                    a = x.off if type(x.off) is not int else x.off & ((1 << 64) - 1)
                    b = y.off if type(y.off) is not int else y.off & ((1 << 64) - 1)
                    if isinstance(a, Unk) or isinstance(b, Unk): return Unk()
                    return D.icmp(pred if pred in ('eq', 'ne') else 's' + pred[1:], a, b, 64, dom)
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                # order of unrelated objects: unspecified
                return Unk('pointer-order')
            p, q = (x, y) if isinstance(x, Ptr) else (y, x)
            if q is UNDEF: return UNDEF
            if type(q) is int:
                if pred == 'eq': return 0
                if pred == 'ne': return 1
                if q == 0:
                    r = {'ugt': 1, 'uge': 1, 'ult': 0, 'ule': 0}.get(pred)
                    if r is not None: return r if isinstance(x, Ptr) else 1 - r if pred in ('ugt', 'ult') else 0
            return Unk()
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, Unk) or isinstance(y, Unk):
            if x is y: return 1 if pred in ('eq', 'ule', 'uge', 'sle', 'sge') else 0
            if pred == 'ult' and type(y) is int and y == 0: return 0
            if pred == 'uge' and type(y) is int and y == 0: return 1
            return Unk()
        return D.icmp(pred, x, y, w, dom)

    def truth(self, st, x):
        if x is UNDEF: raise Fault('uninitialised-condition', 'branch depends on an uninitialised value')
        if isinstance(x, Unk):
            raise SplitBoth()
        return D.truth_groups(x, st.dom)

    def switch_value(self, st, x, tab, w):
        if x is UNDEF: raise Fault('uninitialised-condition', 'switch on an uninitialised value')
        if isinstance(x, Unk): raise Fault('unknown-switch', 'switch on an unknown value')
        x = norm(x, st.dom)
        if type(x) is int: return x
        v = D.single(x)
        if v is None: raise D.enum_split(st.dom, list(x.t))
        groups = {}
        m = (1 << w) - 1
        for b in st.dom[v]:
            a = (x.k + x.t[v][b]) & m
            groups.setdefault(a if a in tab else None, []).append(b)
        if len(groups) == 1:
            a = next(iter(groups))
            return -1 if a is None else a
        raise Split(v, [tuple(g) for g in groups.values()])

    # ------------------------------------------------------------ calls
    def call(self, st, fr, name, args, dst, inv, nxt, ins):
        h = self.handlers.get(name)
        if h is None and name.startswith('@llvm.'):
            h = intrinsic(name)
        f = self.mod.functions.get(name)
        if h is not None:
            try:
                r = h(self, st, args, ins)
            except Unwind:
                return True
            if dst is not None: fr.R[dst] = r
            if inv is not None:
                inv[0](fr)
                return True
            return None
        if f is None or not f.defined:
            raise Unsupported('call of %s' % demangle(name))
        fr.ip = nxt
        fr.invoke = (inv, ins)
        fr.retdst = dst
        self.push(st, name, args)
        return True

    def push(self, st, name, args):
        c = self.cf.get(name)
        if c is None: c = self.compiled(name)
        if len(st.frames) > self.maxdepth: raise Fault('recursion', 'call depth exceeds %d' % self.maxdepth)
        self.called.add(name)
        fr = Frame.__new__(Frame)
        fr.cf = c
        R = list(c.template)
        n = c.nparams
        for i in range(n): R[i] = args[i]
        fr.R = R; fr.blk = 0; fr.code = c.blocks[0]; fr.ip = 0
        fr.allocas = []; fr.retdst = None; fr.invoke = None; fr.data = None
        fr.uid = st.nextid
        st.nextid += 1
        st.frames.append(fr)
        if self.call_hook is not None: self.call_hook(st, name, args)

    def kill_frame(self, st, fr):
        for a in fr.allocas:
            o = st.wobj(a)
            o.alive = False
            o.cells = {}
        # dead stack objects are forgotten unless a dangling pointer is possible; keep the marker only

    def do_return(self, st, fr, v):
        st.frames.pop()
        self.kill_frame(st, fr)
        if not st.frames:
            st.ret = v
            raise Pause('return', v)
        c = st.frames[-1]
        if c.retdst is not None: c.R[c.retdst] = v
        inv = c.invoke[0]
        c.invoke = None
        c.retdst = None
        if inv is not None: inv[0](c)

    def throw(self, st, excptr):
        """start unwinding with the exception object excptr (called from handlers)"""
        self.unwind(st, excptr, popself=False)
        raise Unwind()

    def typeid(self, name):
        return self.typeids.setdefault(name, len(self.typeids) + 1)

    def bases(self, ti):
        """typeinfo object -> list of base typeinfo names including itself"""
        r = [ti]
        if ti in STD_BASES:
            for b in STD_BASES[ti]: r += self.bases(b)
            return r
        g = self.mod.globals.get(ti)
        if g is None: return r
        self.mod.gparse(g)
        if g.init is None: return r
        o = self.gobj(ti)
        for off in sorted(o.cells):
            if off >= 16:
                v = o.cells[off][1]
                if isinstance(v, Ptr) and isinstance(v.obj, str) and v.obj.startswith('@_ZTI'): r += self.bases(v.obj)
        return r

    def unwind(self, st, exc, popself):
        """transfer control to the landing pad for exception object pointer exc"""
        o = st.obj(exc.obj)
        ti = st.misc.get(('exctype', exc.obj))
        first = not popself
        bases = self.bases(ti) if ti else []
        while st.frames:
            fr = st.frames[-1]
            if popself or not first:
                pass
            inv = None
            if first:
                # the handler was called by the instruction at fr.ip itself
                cf = fr.cf
                ins = cf.ins[fr.blk][fr.ip]
                if ins.op == 'invoke':
                    inv = self._invinfo(fr)
            elif popself:
                popself = False
                st.frames.pop(); self.kill_frame(st, fr)
                first = False
                continue
            else:
                inv = fr.invoke[0] if fr.invoke else None
            first = False
            if inv is not None:
                lp = inv[2]
                cleanup, clauses = lp.extra
                sel = None
                for kind, c in clauses:
                    if kind == 'catch':
                        if c[0] == 'i': sel = self.typeid(None); break
                        if c[1] in bases: sel = self.typeid(c[1]); break
                    else:
                        ok = False
                        for _, x in (c[2] if c[0] == 'agg' else []):
                            if x[0] == 'g' and x[1] in bases: ok = True
                        if not ok:
                            sel = (1 << 32) - 1
                            break
                if sel is not None or cleanup:
                    fr.data = (exc, sel or 0)
                    fr.invoke = None; fr.retdst = None
                    inv[1](fr)
                    st.exc = exc
                    return
            st.frames.pop()
            self.kill_frame(st, fr)
        raise Pause('throw', ti)

    def _invinfo(self, fr):
        # closure data of the invoke at fr.ip
        cell = {c: v.cell_contents for c, v in zip(fr.code[fr.ip].__code__.co_freevars, fr.code[fr.ip].__closure__)}
        return cell['inv']

    def abandon(self, st, depth):
        """non-local jump: drop the frames above depth; returns the list of (function, line, skipped cleanup?) dropped"""
        dropped = []
        while len(st.frames) > depth:
            fr = st.frames.pop()
            ins = None
            cleanup = False
            if fr.invoke is not None:
                inv, ins = fr.invoke
                if inv is not None and inv[2].extra[0]: cleanup = True
                if inv is not None and any(k == 'filter' for k, _ in inv[2].extra[1]): pass
            else:
                i2 = fr.cf.ins[fr.blk][fr.ip] if fr.ip < len(fr.cf.ins[fr.blk]) else None
                ins = i2
                if i2 is not None and i2.op == 'invoke':
                    if self._invinfo(fr)[2].extra[0]: cleanup = True
            dropped.append((fr.cf.name, self.mod.loc(ins.line if ins else None), cleanup))
            self.kill_frame(st, fr)
        if self.jump_hook is not None: self.jump_hook(st, dropped)
        return dropped

    # ------------------------------------------------------------ running
    def new_state(self):
        st = State.__new__(State)
        st.E = self
        st.frames = []; st.mem = {}; st.own = set(); st.dom = {}; st.trace = None
        st.nextid = 1; st.exc = None; st.caught = []; st.misc = {}; st.ret = None; st.jmp = {}; st.note = None
        return st

    def start(self, name, args=(), st=None):
        if st is None: st = self.new_state()
        self.push(st, name, list(args))
        return st

    def where(self, st):
        if not st.frames: return '?'
        fr = st.frames[-1]
        lines = fr.cf.lines[fr.blk]
        i = min(fr.ip, len(lines) - 1)
        return '%s (%s)' % (self.mod.loc(lines[i]), demangle(fr.cf.name))

    def backtrace(self, st):
        out = []
        for k, fr in enumerate(reversed(st.frames)):
            lines = fr.cf.lines[fr.blk]
            i = fr.ip if k == 0 else fr.ip - 1
            i = max(0, min(i, len(lines) - 1))
            out.append('%s in %s' % (self.mod.loc(lines[i]), demangle(fr.cf.name)))
        return out

    def run1(self, st):
        """run st until it pauses/faults/forks. Returns ('fork',[states]) | ('pause',kind,data) | ('fault',kind,msg)"""
        steps = 0
        try:
            while True:
                fr = st.frames[-1]
                code = fr.code
                R = fr.R
                ip = fr.ip
                try:
                    while True:
                        r = code[ip](st, R, fr)
                        steps += 1
                        if r is None:
                            ip += 1
                            fr.ip = ip
                            continue
                        break
                except Split as s:
                    fr.ip = ip
                    out = []
                    for g in s.groups:
                        n = st.fork()
                        n.dom[s.var] = tuple(g)
                        out.append(n)
                    return ('fork', out)
                except SplitBoth:
                    fr.ip = ip
                    # unknown condition: follow both branches by fixing the i1 register
                    ins = fr.cf.ins[fr.blk][ip]
                    if ins.op not in ('condbr', 'select'): raise Unsupported('decision on an unknown value in %s' % ins.op)
                    cidx = fr.cf.uses[fr.blk][ip][1][0]
                    out = []
                    for b in (1, 0):
                        n = st.fork()
                        n.frames[-1].R[cidx] = b
                        n.misc['unk'] = n.misc.get('unk', 0) + 1
                        out.append(n)
                    return ('fork', out)
                if steps > 20000:
                    self.steps += steps
                    steps = 0
                    if self.steps > self.max_steps: raise Limit('step limit')
        except Pause as p:
            return ('pause', p.kind, p.data)
        except Fault as e:
            return ('fault', e.kind, e.msg)
        finally:
            self.steps += steps

    def run(self, st, limit=None):
        """all end/pause states reachable from st: list of (status, kind, data, state)"""
        work = [st]
        res = []
        n = 0
        while work:
            s = work.pop()
            r = self.run1(s)
            if r[0] == 'fork':
                if self.steps > self.max_steps: raise Limit('step limit')
                work.extend(reversed(r[1]))
                n += 1
                if limit and n > limit: raise Limit('more than %d partitions' % limit)
            else:
                res.append((r[0], r[1], r[2], s))
        return res

    # ------------------------------------------------------------ canonical form
    def purge(self, st):
        """drop the released local variables"""
        dead = [i for i, o in st.mem.items() if not o.alive and o.kind == 'stack']
        for i in dead: del st.mem[i]

    def rebase(self, st):
        """the objects of st become the initial memory: states derived from st only hold the changed ones"""
        self.purge(st)
        for i, o in st.mem.items(): self._g[i] = o
        st.mem = {}; st.own = set()

    def canon(self, st, ren_var=None, ren_input=None, extra=(), deadkept=None):
        """hashable canonical form of what can influence the future of st"""
        ids = {}
        queue = []
        dom = st.dom
        out = []
        base = self.canon_base

        def ck(v):
            t = type(v)
            if t is int: return v
            if t is Ptr:
                if v.obj == 'INPUT':
                    return ('IN', ren_input(v.off) if ren_input else v.off)
                if base is not None and v.obj in base and base[v.obj] is st.mem.get(v.obj):
                    i = ('B', v.obj)
                elif v.obj not in st.mem and (type(v.obj) is str or v.obj in self._g):
                    i = v.obj
                elif v.obj not in st.mem: i = 'released'
                else:
                    i = ids.get(v.obj)
                    if i is None:
                        i = ids[v.obj] = len(ids)
                        queue.append(v.obj)
                off = v.off
                return ('P', i, off if type(off) is int else D.key(off, dom, ren_var))
            if t is PtrByte: return ('PB', ck(v.p), v.i)
            if t is tuple: return tuple(ck(x) for x in v)
            return D.key(v, dom, ren_var)
        for fr in st.frames:
            lv = self.liveness(fr.cf)[fr.blk]
            live = lv[fr.ip] if fr.ip < len(lv) else frozenset()
            if fr.invoke is not None and fr.invoke[0] is not None:
                # resumes at the normal or unwind edge: take the liveness at the invoke without its result
                ins = fr.invoke[1]
                live = set(lv[fr.ip - 1])
                for r in fr.cf.uses[fr.blk][fr.ip - 1][1]:
                    if type(r) is int: pass
            R = fr.R
            ent = [fr.cf.name, fr.blk, fr.ip]
            for r in sorted(live):
                if r != fr.retdst or fr is st.frames[-1]: ent.append((r, ck(R[r])))
            if fr.data is not None: ent.append(ck(fr.data))
            # order of allocas matters only through the registers
            out.append(tuple(ent))
        if st.caught: out.append(('caught', tuple(ck(x) for x in st.caught)))
        for x in extra: out.append(('x', ck(x)))
        for g in sorted(k for k in st.mem if type(k) is str):
            if base is not None and base.get(g) is st.mem[g]: continue
            queue.append(g)
            ids.setdefault(g, len(ids))
        qi = 0
        seen = set()
        while qi < len(queue):
            i = queue[qi]; qi += 1
            if i in seen: continue
            seen.add(i)
            o = st.obj(i)
            if not o.alive:
                out.append((ids[i], 'dead'))
                continue
            cells = o.cells
            out.append((ids[i], o.size if type(o.size) is int else ck(o.size), tuple((a, cells[a][0], ck(cells[a][1])) for a in sorted(cells) if cells[a][1].__class__ is not Dead)))
            if deadkept and i in deadkept: out.append(('kept', tuple(sorted(deadkept[i]))))
        return tuple(out)

    def leaks(self, st, roots=()):
        """alive heap objects"""
        return [(i, o) for i, o in st.mem.items() if o.alive and o.kind in ('new', 'new[]', 'malloc')]


# ---------------------------------------------------------------- builtins
BUILTINS = {}


def builtin(*names):
    def deco(f):
        for n in names: BUILTINS['@' + n] = f
        return f
    return deco


STD_BASES = {
    '@_ZTISt9bad_alloc': ['@_ZTISt9exception'], '@_ZTISt13runtime_error': ['@_ZTISt9exception'], '@_ZTISt11logic_error': ['@_ZTISt9exception'],
    '@_ZTISt12out_of_range': ['@_ZTISt11logic_error'], '@_ZTISt12length_error': ['@_ZTISt11logic_error'],
    '@_ZTISt16invalid_argument': ['@_ZTISt11logic_error'], '@_ZTISt12domain_error': ['@_ZTISt11logic_error'],
    '@_ZTISt14overflow_error': ['@_ZTISt13runtime_error'], '@_ZTISt11range_error': ['@_ZTISt13runtime_error'],
    '@_ZTISt20bad_array_new_length': ['@_ZTISt9bad_alloc'], '@_ZTISt9exception': [], '@_ZTISt8bad_cast': ['@_ZTISt9exception'],
    '@_ZTISt15underflow_error': ['@_ZTISt13runtime_error'],
}


def conc(st, v, what='size'):
    v = norm(v, st.dom)
    if type(v) is int: return v
    if v is UNDEF: raise Fault('uninitialised-' + what, 'uninitialised %s' % what)
    if isinstance(v, Sep): raise D.enum_split(st.dom, list(v.t))
    raise Unsupported('unknown %s' % what)


def site(E, st): return E.where(st)


def maybe_oom(E, st):
    """allocation failure as a nondeterministic choice when fault injection is on"""
    if not st.misc.get('oom', E.oom): return False
    v = Var(('oom', 0), 2)
    if v not in st.dom: st.dom[v] = (0, 1)
    if len(st.dom[v]) == 2: raise Split(v, [(0,), (1,)])
    r = st.dom[v][0]
    del st.dom[v]
    return r == 1


def std_throw(E, st, ti):
    id = st.alloc(64, 'exc', 'exception object', fill=0)
    st.misc[('exctype', id)] = '@' + ti
    E.throw(st, Ptr(id, 0))


@builtin('_Znwm', '_Znam')
def b_new(E, st, a, ins):
    n = conc(st, a[0])
    if n > (1 << 40): std_throw(E, st, '_ZTISt9bad_alloc')
    if maybe_oom(E, st): std_throw(E, st, '_ZTISt9bad_alloc')
    kind = 'new' if ins.args[0][1] == '@_Znwm' else 'new[]'
    return Ptr(st.alloc(n, kind, 'heap block of %d bytes allocated at %s' % (n, E.mod.loc(ins.line)), site=E.mod.loc(ins.line)), 0)


@builtin('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def b_newnt(E, st, a, ins):
    n = conc(st, a[0])
    if maybe_oom(E, st): return 0
    kind = 'new' if 'nwm' in ins.args[0][1] else 'new[]'
    return Ptr(st.alloc(n, kind, 'heap block of %d bytes allocated at %s' % (n, E.mod.loc(ins.line)), site=E.mod.loc(ins.line)), 0)


def do_free(E, st, p, kinds, ins):
    if type(p) is int and p == 0: return
    if type(p) is not Ptr:
        if p is UNDEF: raise Fault('free-of-uninitialised-pointer', 'release of an uninitialised pointer')
        raise Fault('invalid-free', 'release of an invalid pointer %r' % (p,))
    o = st.obj(p.obj)
    if o.kind not in ('new', 'new[]', 'malloc'): raise Fault('invalid-free', 'release of %s which is not on the heap' % o.name)
    if not o.alive: raise Fault('double-free', 'second release of %s' % o.name)
    if norm(p.off, st.dom) != 0: raise Fault('invalid-free', 'release of a pointer into the middle of %s' % o.name)
    if o.kind not in kinds: raise Fault('mismatched-free', 'release of %s with the wrong function' % o.name)
    o = st.wobj(p.obj)
    o.alive = False
    o.cells = {}


@builtin('_ZdlPv', '_ZdlPvm')
def b_delete(E, st, a, ins): do_free(E, st, a[0], ('new',), ins)


@builtin('_ZdaPv', '_ZdaPvm')
def b_deletea(E, st, a, ins): do_free(E, st, a[0], ('new[]',), ins)


@builtin('free')
def b_free(E, st, a, ins): do_free(E, st, a[0], ('malloc',), ins)


def do_malloc(E, st, n, ins, fill=None):
    if n > (1 << 40): return 0
    if maybe_oom(E, st): return 0
    return Ptr(st.alloc(n, 'malloc', 'heap block of %d bytes allocated at %s' % (n, E.mod.loc(ins.line)), fill=fill, site=E.mod.loc(ins.line)), 0)


@builtin('malloc')
def b_malloc(E, st, a, ins): return do_malloc(E, st, conc(st, a[0]), ins)


@builtin('calloc')
def b_calloc(E, st, a, ins): return do_malloc(E, st, conc(st, a[0]) * conc(st, a[1]), ins, 0)


@builtin('realloc')
def b_realloc(E, st, a, ins):
    n = conc(st, a[1])
    p = a[0]
    if type(p) is int and p == 0: return do_malloc(E, st, n, ins)
    if type(p) is not Ptr: raise Fault('invalid-free', 'realloc of an invalid pointer')
    o = st.obj(p.obj)
    if not o.alive: raise Fault('use-after-free', 'realloc of %s after its release' % o.name)
    if o.kind != 'malloc' or norm(p.off, st.dom) != 0: raise Fault('invalid-free', 'realloc of %s' % o.name)
    if maybe_oom(E, st): return 0
    q = Ptr(st.alloc(n, 'malloc', 'heap block of %d bytes allocated at %s' % (n, E.mod.loc(ins.line)), site=E.mod.loc(ins.line)), 0)
    st.copybytes(q, Ptr(p.obj, 0), min(n, o.size))
    do_free(E, st, p, ('malloc',), ins)
    return q


@builtin('memcpy', 'memmove')
def b_memcpy(E, st, a, ins):
    n = conc(st, a[2])
    if n: st.copybytes(a[0], a[1], n)
    return a[0]


@builtin('memset')
def b_memset(E, st, a, ins):
    n = conc(st, a[2])
    v = a[1]
    b = D.cast('trunc', v, 32, 8, st.dom) if ins.args[0][1] == '@memset' else v
    do_memset(E, st, a[0], b, n)
    return a[0]


def do_memset(E, st, p, b, n):
    if n == 0: return
    o = st.check(p, n, 'memset')
    off = conc(st, p.off)
    if off < 0 or off + n > o.size: raise Fault('out-of-bounds-write', 'memset of %d bytes at offset %d of %s (size %s)' % (n, off, o.name, o.size))
    if E.store_hook is not None: E.store_hook(st, p.obj, off, n, b)
    o = st.wobj(p.obj)
    if type(b) is int and off == 0 and n == o.size:
        o.cells = {}
        o.fill = b
        return
    st.clear(o, off, n)
    i = 0
    while i < n:
        if type(b) is int and b == 0 and i + 8 <= n and (off + i) % 8 == 0:
            o.cells[off + i] = (8, 0); i += 8
        else:
            o.cells[off + i] = (1, b); i += 1


def sbyte(st, p, i):
    return st.load(st.E.ptr_add(st, p, i), 1)


def beq(E, st, x, y):
    return E.truth(st, E.do_icmp(st, 'eq', x, y, 8))


@builtin('strlen')
def b_strlen(E, st, a, ins):
    i = 0
    while True:
        if beq(E, st, sbyte(st, a[0], i), 0): return i
        i += 1
        if i > 1 << 20: raise Fault('unterminated', 'string without end')


def cmpbytes(E, st, p, q, n, stopnul):
    i = 0
    while n is None or i < n:
        x = sbyte(st, p, i); y = sbyte(st, q, i)
        if not beq(E, st, x, y):
            lt = E.truth(st, E.do_icmp(st, 'ult', x, y, 8))
            return (1 << 32) - 1 if lt else 1
        if stopnul and beq(E, st, x, 0): return 0
        i += 1
    return 0


@builtin('memcmp', 'bcmp')
def b_memcmp(E, st, a, ins): return cmpbytes(E, st, a[0], a[1], conc(st, a[2]), False)


@builtin('strcmp')
def b_strcmp(E, st, a, ins): return cmpbytes(E, st, a[0], a[1], None, True)


@builtin('strncmp')
def b_strncmp(E, st, a, ins): return cmpbytes(E, st, a[0], a[1], conc(st, a[2]), True)


def lower(E, st, x):
    if type(x) is int: return x + 32 if 65 <= x <= 90 else x
    x = norm(x, st.dom)
    if type(x) is int: return lower(E, st, x)
    if isinstance(x, Sep):
        v = D.single(x)
        if v is None: raise D.enum_split(st.dom, list(x.t))
        return D.pointwise(x, v, x.w, lambda a: a + 32 if 65 <= (a & 0xff) <= 90 and a < 256 else a, st.dom)
    return x


@builtin('tolower')
def b_tolower(E, st, a, ins): return lower(E, st, a[0])


@builtin('strcasecmp')
def b_strcasecmp(E, st, a, ins):
    i = 0
    while True:
        x = lower(E, st, sbyte(st, a[0], i)); y = lower(E, st, sbyte(st, a[1], i))
        if not beq(E, st, x, y): return 1
        if beq(E, st, x, 0): return 0
        i += 1


@builtin('strchr', 'index')
def b_strchr(E, st, a, ins):
    c = D.cast('trunc', a[1], 32, 8, st.dom)
    i = 0
    while True:
        x = sbyte(st, a[0], i)
        if beq(E, st, x, c): return E.ptr_add(st, a[0], i)
        if beq(E, st, x, 0): return 0
        i += 1


@builtin('memchr')
def b_memchr(E, st, a, ins):
    c = D.cast('trunc', a[1], 32, 8, st.dom)
    n = conc(st, a[2])
    for i in range(n):
        if beq(E, st, sbyte(st, a[0], i), c): return E.ptr_add(st, a[0], i)
    return 0


@builtin('strcpy')
def b_strcpy(E, st, a, ins):
    i = 0
    vals = []
    while True:
        x = sbyte(st, a[1], i)
        vals.append(x)
        if beq(E, st, x, 0): break
        i += 1
    for j, x in enumerate(vals): st.store(E.ptr_add(st, a[0], j), 1, x)
    return a[0]


def _isclass(name, pred):
    def h(E, st, a, ins):
        x = norm(a[0], st.dom)
        if type(x) is int: return 1 if x < 256 and pred(x) else 0
        if isinstance(x, Sep):
            v = D.single(x)
            if v is None: raise D.enum_split(st.dom, list(x.t))
            return D.pointwise(x, v, 32, lambda c: 1 if c < 256 and pred(c) else 0, st.dom)
        return Unk()
    BUILTINS['@' + name] = h


_isclass('isspace', lambda c: c in (9, 10, 11, 12, 13, 32))
_isclass('isdigit', lambda c: 48 <= c <= 57)
_isclass('isalpha', lambda c: 65 <= c <= 90 or 97 <= c <= 122)
_isclass('isalnum', lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57)
_isclass('isupper', lambda c: 65 <= c <= 90)
_isclass('islower', lambda c: 97 <= c <= 122)
_isclass('isxdigit', lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102)


@builtin('abort', '_ZSt9terminatev', '__assert_fail', '__clang_call_terminate', 'exit', '__cxa_pure_virtual')
def b_abort(E, st, a, ins): raise Fault('abort', 'call of %s' % demangle(ins.args[0][1]))


@builtin('__cxa_call_unexpected')
def b_unexp(E, st, a, ins): raise Fault('unexpected-exception', 'exception violates an exception specification')


@builtin('__cxa_guard_acquire')
def b_gacq(E, st, a, ins):
    b = st.load(a[0], 1)
    if b == 0:
        if st.misc.get(('guard', a[0].obj)): raise Fault('static-init', 'one-time initialisation entered again before it completed (deadlock or recursion): %s' % demangle(a[0].obj))
        st.misc[('guard', a[0].obj)] = True
        return 1
    return 0


@builtin('__cxa_guard_release')
def b_grel(E, st, a, ins):
    st.misc.pop(('guard', a[0].obj), None)
    st.store(a[0], 1, 1)


@builtin('__cxa_guard_abort')
def b_gab(E, st, a, ins): st.misc.pop(('guard', a[0].obj), None)


@builtin('__cxa_atexit')
def b_atexit(E, st, a, ins): return 0


@builtin('__cxa_allocate_exception')
def b_allocexc(E, st, a, ins):
    return Ptr(st.alloc(conc(st, a[0]) , 'exc', 'exception object'), 0)


@builtin('__cxa_free_exception')
def b_freeexc(E, st, a, ins): return None


@builtin('__cxa_throw')
def b_throw(E, st, a, ins):
    st.misc[('exctype', a[0].obj)] = a[1].obj
    st.misc[('excdtor', a[0].obj)] = a[2].obj if isinstance(a[2], Ptr) else None
    E.throw(st, a[0])


@builtin('__cxa_rethrow')
def b_rethrow(E, st, a, ins):
    if not st.caught: raise Fault('abort', 'rethrow without exception')
    E.throw(st, st.caught[-1])


@builtin('__cxa_begin_catch')
def b_begin(E, st, a, ins):
    st.caught.append(a[0])
    return a[0]


@builtin('__cxa_get_exception_ptr')
def b_getexc(E, st, a, ins): return a[0]


@builtin('__cxa_end_catch')
def b_end(E, st, a, ins):
    if st.caught: st.caught.pop()


def _stdthrow(name, ti):
    def h(E, st, a, ins): std_throw(E, st, ti)
    BUILTINS['@' + name] = h


_stdthrow('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error')
_stdthrow('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error')
_stdthrow('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range')
_stdthrow('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range')
_stdthrow('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc')
_stdthrow('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length')
_stdthrow('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument')
_stdthrow('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error')
_stdthrow('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')
_stdthrow('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call')


@builtin('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorC2EPKc',
         '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeC2EPKc', '_ZNSt12length_errorC1EPKc')
def b_rterr(E, st, a, ins):
    st.store(a[0], 8, 0)
    st.store(E.ptr_add(st, a[0], 8), 8, a[1])


@builtin('_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
         '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
         '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
         '_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')
def b_rterrs(E, st, a, ins):
    st.store(a[0], 8, 0)
    st.store(E.ptr_add(st, a[0], 8), 8, st.load(a[1], 8))


@builtin('_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZNSt11logic_errorD1Ev',
         '_ZNSt11logic_errorD2Ev', '_ZNSt13runtime_errorD0Ev', '_ZNSt13runtime_errorC2ERKS_', '_ZNSt13runtime_errorC1ERKS_',
         '_ZNSt9bad_allocD1Ev', '_ZNSt8ios_base4InitC1Ev')
def b_noop(E, st, a, ins): return None


@builtin('_ZNKSt13runtime_error4whatEv', '_ZNKSt11logic_error4whatEv')
def b_what(E, st, a, ins): return st.load(E.ptr_add(st, a[0], 8), 8)


@builtin('__errno_location')
def b_errno(E, st, a, ins):
    id = st.misc.get('errno')
    if id is None:
        id = st.alloc(4, 'errno', 'errno', fill=0)
        st.misc['errno'] = id
    return Ptr(id, 0)


@builtin('_setjmp', '__sigsetjmp', 'setjmp', 'sigsetjmp')
def b_setjmp(E, st, a, ins):
    fr = st.frames[-1]
    p = a[0]
    st.jmp[(p.obj, conc(st, p.off))] = (fr.uid, fr.blk, fr.ip)
    return 0


@builtin('longjmp', '_longjmp', 'siglongjmp')
def b_longjmp(E, st, a, ins):
    p = a[0]
    if type(p) is not Ptr: raise Fault('bad-longjmp', 'long jump without jump buffer')
    t = st.jmp.get((p.obj, conc(st, p.off)))
    if t is None: raise Fault('bad-longjmp', 'long jump through an unset jump buffer')
    uid, blk, ip = t
    depth = None
    for i, fr in enumerate(st.frames):
        if fr.uid == uid: depth = i + 1
    if depth is None: raise Fault('bad-longjmp', 'long jump to a frame that has returned')
    E.abandon(st, depth)
    fr = st.frames[-1]
    fr.blk = blk; fr.code = fr.cf.blocks[blk]
    ins2 = fr.cf.ins[blk][ip]
    d = fr.cf.uses[blk][ip][0]
    v = norm(a[1], st.dom)
    if v == 0: v = 1
    fr.ip = ip
    inv = E._invinfo(fr) if ins2.op == 'invoke' else None
    fr.invoke = None; fr.retdst = None
    if d is not None: fr.R[d] = v
    if inv: inv[0](fr)
    else: fr.ip = ip + 1
    raise Unwind()


_INTR = {}


def intrinsic(name):
    h = _INTR.get(name)
    if h is not None: return h
    n = name[6:]
    if n.startswith('memcpy') or n.startswith('memmove'): h = b_memcpy
    elif n.startswith('memset'):
        def h(E, st, a, ins): do_memset(E, st, a[0], a[1], conc(st, a[2]))
    elif n.startswith('umul.with.overflow'):
        def h(E, st, a, ins):
            w = ins.args[1][0][0].bits
            x = conc(st, a[0]); y = conc(st, a[1])
            return ((x * y) & ((1 << w) - 1), 1 if x * y >> w else 0)
    elif n.startswith('uadd.with.overflow'):
        def h(E, st, a, ins):
            w = ins.args[1][0][0].bits
            x = conc(st, a[0]); y = conc(st, a[1])
            return ((x + y) & ((1 << w) - 1), 1 if x + y >> w else 0)
    elif n.startswith('eh.typeid.for'):
        def h(E, st, a, ins): return E.typeid(a[0].obj if isinstance(a[0], Ptr) else None)
    elif n.startswith('trap') or n.startswith('ubsantrap'):
        def h(E, st, a, ins): raise Fault('trap', 'trap')
    elif n.startswith('expect'):
        def h(E, st, a, ins): return a[0]
    elif n.startswith('is.constant'):
        def h(E, st, a, ins): return 0
    elif n.startswith('objectsize'):
        def h(E, st, a, ins): return (1 << 64) - 1
    elif n.startswith('assume') or n.startswith('stackrestore') or n.startswith('donothing') or n.startswith('dbg'):
        def h(E, st, a, ins): return None
    elif n.startswith('stacksave'):
        def h(E, st, a, ins): return 0
    elif n.startswith(('umax', 'umin', 'smax', 'smin')):
        def h(E, st, a, ins):
            w = ins.args[1][0][0].bits
            pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n[:4]]
            return a[0] if E.truth(st, E.do_icmp(st, pred, a[0], a[1], w)) else a[1]
    else:
        return None
    _INTR[name] = h
    return h
