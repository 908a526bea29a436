"""Labelled transition system of the XML scanner, computed by abstract interpretation: states are the abstract program states at
the reads of input bytes (relative to the read position), labels are input byte classes and delivered tokens."""
from charsets import Sub, merge, locs, parallel
from vf import *
START = time.time()
import traceback
from xmlref import *
from dom import Dead
from absint import DeadRead, DeadFill
import copyreg, pickle, marshal, hashlib, gc, json, time

WARMDOC = (b"<?xml version='1.0' encoding=\"x\" ?><!DOCTYPE a [<b>] 'c' \"d\"><!-- x --><a b='c&lt;&#32;&#x20;&ent;' d=\"e\" f=g>x\r\ny&amp;\xe4<?pi x?><![CDATA[x]]></a><b/>z")
FULL = tuple(b for b in range(256) if b != 5)


class Machine:
    def __init__(self, defs=(), entry='@d_scan', mask=None, unit='scanner', warm=WARMDOC, extra=None):
        self.mod = compile_unit(unit, defs)
        H = {'@vf_byte': self.h_byte, '@vf_advance': self.h_adv, '@vf_out': self.h_out, '@vf_outbyte': self.h_outb, '@vf_clear': lambda E, st, a, i: st.emit(('clear',)),
             '@vf_drop': lambda E, st, a, i: None, '@vf_mask': self.h_mask, '@vf_item': self.h_item, '@vf_err': self.h_err,
             '@vf_obs': lambda E, st, a, i: st.emit(('obs', a[0], a[1]))}
        if extra: H.update(extra)
        self.E = Engine(self.mod, H)
        self.mask = mask
        self.warmdoc = warm + b'\0'
        self.guards = []
        self.entry = entry
        st = self.E.start(entry, [Ptr('WARM', 0)])
        st.misc['warm'] = True
        r = self.E.run(st)
        if len(r) != 1 or r[0][:2] != ('ok', 'return') and r[0][1] != 'return': raise Unsupported('set-up run does not end normally: %r at %s' % (r[0][:3], self.E.where(st)))
        self.warm_events = st.events()
        self.warm = st
        self.E.rebase(st)
        self.transitions = 0

    # ---- handlers
    def h_byte(self, E, st, a, ins):
        p = a[0]
        if type(p) is not Ptr or type(p.off) is not int: raise Fault('bad-source-position', 'the byte source is read at %r' % (p,))
        if p.obj == 'WARM':
            g = [k for k in st.misc if type(k) is tuple and k[0] == 'guard']
            if g or st.caught: self.guards.append((E.where(st), [demangle(x[1]) for x in g] + ['exception being handled'] * bool(st.caught)))
            if p.off >= len(self.warmdoc): raise Fault('overread', 'byte behind the end of the input is read')
            return self.warmdoc[p.off]
        v = bvar(p.off)
        if v not in st.dom: raise Pause('byte', p.off)
        return norm(D.var_sep(v, 8), st.dom)

    def h_adv(self, E, st, a, ins):
        p = a[0]
        if type(p) is Ptr and p.obj == 'INPUT' and bvar(p.off) not in st.dom:
            raise Fault('blind-advance', 'the source is advanced over a byte that has never been asked for')

    def h_out(self, E, st, a, ins):
        st.emit(('out', a[0]))
        return 1

    h_outb = h_out

    def h_item(self, E, st, a, ins):
        t = a[0]
        k = st.misc['nitem'] = st.misc.get('nitem', 0) + 1
        if k > 20 and not st.misc.get('warm'): raise Fault('no-progress', 'tokens are delivered without end and without reading the input')
        z = 0       # bits of the mask known to be 0
        for k in range(16):
            if st.dom.get(Var(('m', k), 2)) == (0,): z |= 1 << k
        st.emit(('item', chr(t) if type(t) is int else '?', a[1].off if type(a[1]) is Ptr and a[1].obj in ('INPUT', 'WARM') else None, a[2], None, z))

    def h_err(self, E, st, a, ins):
        txt = None
        if type(a[2]) is Ptr:
            try: txt = st.cstring(a[2])
            except Exception: txt = None
            if isinstance(txt, (bytes, bytearray)): txt = txt.decode('latin1')
        st.emit(('err', a[0], a[1], txt if isinstance(txt, str) else (None if txt is None else str(txt))))

    def h_mask(self, E, st, a, ins):
        fr = st.frames[-1]
        st.misc['re'] = (len(st.frames), fr.blk, fr.ip)
        if st.misc.pop('resume', None): return st.misc['maskv']
        m = st.misc.get('mask', self.mask)
        if st.misc.get('warm') or m is None: m = 0xFFFF
        elif m == 'sym':
            x = 0
            for k in range(16):
                v = Var(('m', k), 2); st.dom[v] = (0, 1)
                x = D.lin(x, Sep(32, 0, {v: (0, 1 << k)}), 1, 1, 32, st.dom)
            m = x
        st.misc['maskv'] = m
        return m

    # ---- transitions
    def begin(self, mask=None, entry=None):
        st = self.warm.fork()
        st.misc = {'mask': mask} if mask else {}; st.trace = None
        self.E.start(entry or self.entry, [Ptr('INPUT', 0)], st)
        return self.drive(st)

    def drive(self, st, limit=3000000):
        """run to the next reads of a byte / the end: list of (status, kind, data, state)"""
        self.E.max_steps = self.E.steps + limit
        st.misc['nitem'] = 0
        try: return self.E.run(st)
        except Limit as e:
            if 'step limit' not in str(e): raise
            return [('fault', 'no-progress', 'no byte is read and no token is delivered any more', st)]

    def feed(self, st, i, box=FULL, dom=None):
        """all successors of st, paused at the read of byte i, on this byte"""
        self.transitions += 1
        s = st.fork(); s.trace = None
        s.dom = dict(s.dom if dom is None else dom)
        s.dom[bvar(i)] = box
        return self.drive(s)

    def suspend(self, st):
        """the call is left by a long jump at the read and repeated: (dropped frames, successors)"""
        s = st.fork(); s.trace = None
        depth, blk, ip = s.misc['re']
        dropped = self.E.abandon(s, depth)
        fr = s.frames[-1]
        fr.blk, fr.ip = blk, ip
        fr.code = fr.cf.blocks[blk]; fr.invoke = None; fr.retdst = None
        s.misc['resume'] = True
        return dropped, self.drive(s)

    def label(self, o, i): return (o.kind, o.name, i if type(i) is str else None)

    def loc(self, st): return tuple((f.cf.name, f.blk, f.ip) for f in st.frames)

    def kill(self, st, keep, loc):
        """copy of st where the cells not in keep (label -> offsets) are assumed not to be read any more; st.note: the cells
        in keep that have been assumed to be dead before"""
        s = st.fork(); s.trace = None
        self.E.purge(s)
        was = {}
        none = frozenset()
        for i, o in list(s.mem.items()):
            if not o.alive or o.kind == 'const': continue
            lab = self.label(o, i)
            kp = keep.get(lab, none)
            w = None
            for off, (n, v) in o.cells.items():
                t = type(v)
                if t is Dead:
                    if off in kp: was.setdefault(i, []).append(off)
                    continue
                if off in kp: continue
                if t is Ptr:
                    if v.obj != 'INPUT': continue
                elif t is not int and t is not Sep and v is not UNDEF and not isinstance(v, Unk): continue
                if w is None:
                    w = s.wobj(i); cells = dict(w.cells)
                cells[off] = (n, Dead((loc, (lab, off))))
            if w is not None: w.cells = cells
            f = o.fill
            if type(f) is DeadFill:
                if f.loc == loc and f.keep == kp:
                    g = f
                else:
                    g = DeadFill(loc, lab, frozenset(kp), {off: t for off, t in ((off, f.tag(off)) for off in kp) if t is not None}, f.orig)
            else: g = DeadFill(loc, lab, frozenset(kp), {}, f)
            if g is not f: s.wobj(i).fill = g
            for off in kp:
                if off not in o.cells: was.setdefault(i, []).append(off if off in g.was else -1 - off)
        s.note = was
        return s

    def canon(self, st, i, ren, extra=()):
        """canonical form of a state with its dead cells marked relative to input position i, and the input variables in it"""
        used = set()
        def rv(v):
            used.add(v)
            return ('b', v.key[1] - i) if v.key[0] == 'b' else v.key
        c = self.E.canon(st, rv, ren, extra, st.note)
        return c, used


class Node:
    """node of a product: program states (full; with dead cells marked: sts), position, state of the other components (x)"""
    __slots__ = ('full', 'sts', 'i', 'key', 'dom', 'parent', 'lab', 'locs', 'x', 'valid', 'depth', 'late', 'version', 'merge', 'idx', 'hash')

    def __init__(self): self.sts = self.merge = self.idx = self.hash = None; self.late = self.valid = False; self.version = 0


FAR = 1
NONE = frozenset()


def renamer(i):
    """input positions: near ones relative to i, far ones up to renaming (they are only passed on and compared)"""
    ids = {}
    def ren(o):
        if o is None: return None
        if i - o <= FAR: return o - i
        k = ids.get(o)
        if k is None: k = ids[o] = len(ids)
        return ('O', k)
    return ren


# ---- transport of nodes between the processes of an exploration
_here = {}


def _engine(): return _here['E']
def _cfn(name): return _here['E'].compiled(name)
def _undef(): return UNDEF
def _gone(): return absint.GONE
def _node(idx): return _here['nodes'][idx]


def _frame(cf, R, blk, ip, allocas, retdst, invoke, uid, data):
    f = absint.Frame.__new__(absint.Frame)
    f.cf = cf; f.R = R; f.blk = blk; f.code = cf.blocks[blk]; f.ip = ip; f.allocas = allocas; f.retdst = retdst; f.uid = uid; f.data = data; f.invoke = None
    if invoke:
        c = f.code[ip - 1]
        cell = dict(zip(c.__code__.co_freevars, c.__closure__))
        f.invoke = (cell['inv'].cell_contents, cell['ins'].cell_contents)
    return f


def _red_node(n):
    if n.idx is not None: return (_node, (n.idx,))
    return n.__reduce_ex__(2)


def _red_obj(o):
    if o is absint.GONE: return (_gone, ())
    return o.__reduce_ex__(2)


class Pickler(pickle.Pickler):
    dispatch_table = dict(copyreg.dispatch_table)
    dispatch_table.update({
        Engine: lambda E: (_engine, ()),
        type(UNDEF): lambda u: (_undef, ()),
        absint.Obj: _red_obj,
        Node: _red_node,
        absint.Frame: lambda f: (_frame, (f.cf, f.R, f.blk, f.ip, f.allocas, f.retdst, f.invoke is not None, f.uid, f.data)),
        absint.CompiledFunction: lambda c: (_cfn, (c.name,)),
    })


class Explorer:
    """exploration of a product of scanner runs up to dead memory. Which cells are dead at a place is assumed first and the
    assumption is withdrawn (and the states of that place explored again) when a cell is read; results of the runs that
    read such a cell are dropped. The states of a round are distributed to several processes.
    key(n, ren): (rest of the key, set of input variables used in it)
    S: Report where the callables collect what they find"""

    def __init__(self, M, key, S, hints=None, procs=8):
        self.M = M
        M.E.far = FAR
        self.keyfn = key; self.S = S
        self.keep = {}
        self.hints = Hints(hints)
        self.hintname = hints
        self.nodes = {}             # by place
        self.all = []
        self.seen = set()
        self.work = []
        self.late = []              # examined last
        self.dirty = set()
        self.count = 0
        self.version = self.base = 0
        self.phase = 300
        self.roots = []
        self.limit = 2000000
        self.deadline = min(time.time() + float(os.environ.get('VF_TIME', 560)), START + float(os.environ.get('VF_TOTAL', 760)))
        self.complete = True
        self.procs = procs
        self.worker = False
        self.restarts = self.rounds = 0
        _here['E'] = M.E; _here['nodes'] = self.all

    def keepat(self, l):
        k = self.keep.get(l)
        if k is None:
            k = self.keep[l] = {}
            for lab, off in self.hints.get(l): k.setdefault(lab, set()).add(off)
        return k

    def add(self, n):
        """n.full, n.i, n.x (rest of the state), n.parent, n.lab, n.merge, n.late given"""
        n.locs = tuple(self.M.loc(s) for s in n.full)
        n.depth = 0 if n.parent is None else n.parent.depth + 1
        h = self.hash(n)
        if self.worker:
            n.hash = h
            if h is None or h in self.seen: n.valid = False
            else: self.seen.add(h); n.valid = True
            self.new.append(n)
            return
        if n.parent is None and n not in self.roots: self.roots.append(n)
        self.register(n)
        self.settle(n, h)

    def register(self, n):
        n.idx = len(self.all); self.all.append(n)
        for l in set(n.locs): self.nodes.setdefault(l, []).append(n)

    def obsolete(self, n):
        """a state with a cell that was dropped and has turned out to be read: the node before is explored again anyway"""
        for s in n.full:
            for i, o in s.mem.items():
                for n_, v in o.cells.values():
                    if v.__class__ is Dead and v.tag[1][1] in self.keepat(v.tag[0]).get(v.tag[1][0], ()): return True
                f = o.fill
                if type(f) is DeadFill:
                    if not self.keepat(f.loc).get(f.lab, NONE) <= f.keep: return True
                    for t in f.was.values():
                        if t[1][1] in self.keepat(t[0]).get(t[1][0], ()): return True
        return False

    def mark(self, n):
        """the states of n with the dead cells marked"""
        sts = []
        for s, l in zip(n.full, n.locs):
            k = self.M.kill(s, self.keepat(l), l)
            k.dom = n.dom
            sts.append(k)
        return sts

    def hash(self, n):
        if self.version != self.base and self.obsolete(n): return None
        ren = renamer(n.i)
        xk, xv = self.keyfn(n, ren)
        cs = []; used = set(xv)
        for k in self.mark(n):
            c, u = self.M.canon(k, n.i, ren)
            cs.append(c); used |= u
        if len(cs) == 2 and cs[0] == cs[1] and n.merge:
            # both runs are in the same state: one of them is enough
            cs = cs[:1]; xk = n.merge
        dk = tuple(sorted((v.key[1] - n.i if v.key[0] == 'b' else -1000, v.key if v.key[0] != 'b' else 0, n.dom[v]) for v in used))
        h = hashlib.blake2b(marshal.dumps((plain(cs), plain(xk), dk), 2), digest_size=16).digest()
        return (h, len(cs) == 1)

    def settle(self, n, h, version=None):
        if h is None or h in self.seen:
            n.valid = False
            return
        self.seen.add(h)
        n.valid = True; n.version = self.version if version is None else version; n.hash = h
        (self.late if n.late else self.work).append(n)

    def redo(self):
        ms = []
        for x in self.dirty: ms += self.nodes[x]
        self.dirty = set()
        ms = list(dict.fromkeys(ms))
        if len(ms) < 100: hs = [self.hash(m) for m in ms]
        else:
            hs = [None] * len(ms)
            for r in self.fork(lambda k, w: [(j, self.hash(ms[j])) for j in range(k, len(ms), w)]):
                for j, h in r: hs[j] = h
        for m, h in zip(ms, hs):
            if not (m.valid and m.hash == h): self.settle(m, h)

    def restart(self):
        """explore again from the start with the assumptions made so far"""
        self.nodes = {}; self.seen = set(); self.work = []; self.late = []; self.dirty = set()
        del self.all[:]
        self.base = self.version; self.count = 0; self.restarts += 1
        for n in self.roots:
            n.late = False
            self.register(n); self.settle(n, self.hash(n))

    def fork(self, fn):
        """results of fn(k, procs) computed in processes"""
        jobs = []
        gc.freeze()
        for k in range(self.procs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    for _, q, in jobs: q.close()
                    gc.disable()
                    try: out = ('ok', fn(k, self.procs))
                    except (Unsupported, Limit) as e: out = ('unsupported', str(e))
                    except BaseException as e: out = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
                    with os.fdopen(w, 'wb', 1 << 20) as f: Pickler(f, 4).dump(out)
                    code = 0
                except BaseException: traceback.print_exc()
                finally: os._exit(code)
            os.close(w)
            jobs.append((pid, os.fdopen(r, 'rb', 1 << 20)))
        res = []
        err = None
        for pid, f in jobs:
            try:
                with f: out = pickle.load(f)
            except EOFError: out = ('err', 'a process of the exploration ended')
            os.waitpid(pid, 0)
            if out[0] == 'ok': res.append(out[1])
            elif err is None or out[0] == 'unsupported': err = out
        if err: raise (Unsupported(err[1]) if err[0] == 'unsupported' else RuntimeError(err[1]))
        return res

    def explore(self, n, expand):
        """None or the cell that is not dead"""
        n.sts = tuple(self.mark(n))
        if n.hash[1]: n.sts = n.sts[:1]
        try: res = expand(n)
        except DeadRead as e: return e.tag
        finally: n.sts = None
        self.count += 1
        for f in res: f()

    def slice(self, batch, expand, k, w):
        self.worker = True; self.new = []; self.S.clear()
        self.M.E.called = set(); s0 = self.M.E.steps; c0 = self.count
        reads = []
        for n in batch[k::w]:
            t = self.explore(n, expand)
            if t is not None: reads.append((t, n.idx))
        return [n for n in self.new if n.valid], reads, self.S.data(), self.M.E.called, self.M.E.steps - s0, self.count - c0

    def live(self, n, tag):
        l, c = tag
        while n is not None:        # the cell was live on the whole way
            for x in n.locs:
                k = self.keepat(x)
                k = k.setdefault(c[0], set())
                if c[1] not in k: k.add(c[1]); self.dirty.add(x); self.version += 1
            if l in n.locs: break
            n = n.parent

    def run(self, expand, stop=None):
        """expand(n) -> list of callables executed when the run is valid"""
        while True:
            if self.dirty: self.redo()
            if not self.work: self.work, self.late = self.late, self.work
            if not self.work or self.count > self.phase:
                # the last exploration is one without any wrong assumption
                if self.version != self.base:
                    if self.work: self.phase *= 2
                    self.restart(); continue
                if not self.work: break
                self.phase *= 2
            batch = [n for n in self.work if n.valid and (n.version == self.version or not self.obsolete(n))]
            self.work = []
            self.rounds += 1
            if self.procs == 1 or len(batch) < 2 * self.procs:
                for n in batch:
                    t = self.explore(n, expand)
                    if t is not None: self.live(n, t)
            else:
                v = self.version
                for new, reads, data, called, steps, count in self.fork(lambda k, w: self.slice(batch, expand, k, w)):
                    for n in new: self.register(n)
                    for n in new: self.settle(n, n.hash, v)
                    for t, idx in reads: self.live(self.all[idx], t)
                    self.S.absorb(data)
                    self.M.E.called |= called; self.M.E.steps += steps; self.count += count
            if self.count > self.limit: raise Unsupported('more than %d states' % self.limit)
            if stop and stop(): return
            if time.time() > self.deadline:
                self.complete = False
                return
        if os.environ.get('VF_HINTS') and self.hintname: save_hints(self.hintname, self.keep)


class Report(Sub):
    """what an exploration has found: obligations, mismatches bad: (tags, key, text)"""

    def __init__(self):
        Sub.__init__(self); self.clear()

    def clear(self):
        Sub.__init__(self)
        self.bad = []; self.keys = set(); self.dropped = {}

    def report(self, tags, key, text):
        k = (frozenset(tags), key)
        if k not in self.keys:
            self.keys.add(k); self.bad.append((k[0], key, text))

    def data(self): return (self.items, self.oks, self.counts, self.bad, self.dropped)

    def absorb(self, d):
        o = Sub(); o.items, o.oks, o.counts = d[:3]
        self.add(o)
        for b in d[3]: self.report(*b)
        for k, v in d[4].items(): self.dropped[k] = self.dropped.get(k, 0) + v


HINTS = os.path.join(VERIF, 'engine', 'hints')


class Hints:
    """cells that are usually live at a place: only a start value of the assumption, no result depends on it. A place that is
    not known (the code has been changed) takes those of the known one with the most similar stack of functions"""

    def __init__(self, name):
        self.exact = {}; self.stacks = {}; self.near = {}
        p = name and os.path.join(HINTS, name + '.json')
        if not p or not os.path.exists(p): return
        with open(p) as f: j = json.load(f)
        cells = [((tuple(a), o)) for a, o in j['cells']]
        for stack, blks, cs in j['places']:
            names = tuple(j['names'][k] for k in stack)
            cs = [cells[k] for k in cs]
            self.exact[tuple(zip(names, *zip(*blks)))] = cs
            self.stacks.setdefault(names, set()).update(cs)

    def get(self, l):
        h = self.exact.get(l)
        if h is not None: return h
        names = tuple(f[0] for f in l)
        h = self.stacks.get(names)
        if h is not None or not self.stacks: return h or ()
        h = self.near.get(names)
        if h is None: h = self.near[names] = self.stacks[max(self.stacks, key=lambda x: self.similar(x, names))]
        return h

    @staticmethod
    def similar(a, b):
        """length of the longest common subsequence, the same innermost function first"""
        row = [0] * (len(b) + 1)
        for x in a:
            prev = 0
            for k, y in enumerate(b):
                cur = row[k + 1]
                row[k + 1] = prev + 1 if x == y else max(row[k + 1], row[k])
                prev = cur
        return (row[-1] - abs(len(a) - len(b)) / 4, a[-1:] == b[-1:], a)


def save_hints(name, keep):
    os.makedirs(HINTS, exist_ok=True)
    names = {}; cells = {}; places = []
    for l, c in keep.items():
        cs = sorted(cells.setdefault((lab, o), len(cells)) for lab, os_ in c.items() for o in os_)
        places.append(([names.setdefault(f[0], len(names)) for f in l], [list(f[1:]) for f in l], cs))
    with open(os.path.join(HINTS, name + '.json'), 'w') as f:
        f.write('{"names": %s,\n"cells": %s,\n"places": [\n%s\n]}\n' % (json.dumps(list(names), indent=0), json.dumps([[list(a), o] for a, o in cells]), ',\n'.join(json.dumps(p) for p in places)))


def plain(x):
    """nested tuples of plain values"""
    t = type(x)
    if t is int or t is str or x is None or t is bool or t is bytes: return x
    if t is tuple or t is list: return tuple([plain(y) for y in x])
    if t is frozenset or t is set: return tuple(sorted((plain(y) for y in x), key=repr))
    if t is dict: return tuple(sorted(((plain(a), plain(b)) for a, b in x.items()), key=repr))
    raise RuntimeError('key with %r' % (x,))


def dedirty(ev, dirty):
    """drop the clears of an empty buffer"""
    out = []
    for e in ev:
        if e[0] == 'clear':
            if dirty: out.append(e)
            dirty = False
        else:
            if e[0] == 'out': dirty = True
            if e[0] == 'item' and len(e) > 3:
                # the fifth component: the size that should have been reported
                e = e[:4] + ((int(dirty) if type(e[3]) is int and e[3] < 2 and e[3] != int(dirty) else None),) + e[5:]
            out.append(e)
    return out, dirty


def evvars(q):
    s = set()
    for e in q:
        for x in e[1:]:
            if type(x) is Sep:
                for v in x.t:
                    if v.key[0] == 'b': s.add(v.key[1])
    return s


def evkey(q, i, dom, ren):
    def k(x):
        if type(x) is Sep: return D.key(x, dom, lambda v: ('b', v.key[1] - i) if v.key[0] == 'b' else v.key)
        return x
    out = []
    for e in q:
        if e[0] == 'item': out.append(('item', e[1], ren(e[2])))
        else: out.append(tuple(k(x) for x in e))
    return tuple(out)


def evshow(e, dom):
    if e is None: return 'nothing'
    if e[0] == 'out':
        if type(e[1]) is int: return 'the character %s' % (repr(chr(e[1])) if e[1] < 0x110000 else hex(e[1]))
        vs = D.values(e[1], dom, 300) if type(e[1]) is Sep and len(e[1].t) <= 1 else None
        if vs and len(vs) == 1: return 'the character %r' % chr(next(iter(vs)))
        return 'a character of the input' if type(e[1]) is Sep else 'an unknown character'
    if e[0] == 'item': return 'the token %s' % TYPES.get(e[1], e[1])
    if e[0] == 'err': return 'an error' + (' (%s)' % e[3] if len(e) > 3 else '')
    if e[0] == 'clear': return 'the start of a new token'
    return repr(e)


def cshow(vals):
    if len(vals) == 1:
        b = vals[0]
        return {0: 'NUL', 10: 'LF', 13: 'CR', 9: 'TAB'}.get(b, chr(b) if 32 <= b < 127 else '0x%02x' % b)
    s = set(CLASS[b] for b in vals)
    if len(s) == 1:
        c = next(iter(s))
        return {'ANY': 'letter', 'UND': 'non-ASCII', 'CT': 'control', 'SP': 'SPACE'}.get(c, c)
    r = rng(vals)
    return '[%s]' % r


def hist(node):
    out = []
    while node is not None:
        if node.lab: out.append(node.lab)
        node = node.parent
    out.reverse()
    return ' '.join(out)


class Mismatch(Exception):
    def __init__(self, a, b, dom): self.a = a; self.b = b; self.dom = dom


def align(qi, qr, dom, exactpos=True):
    """cancel the common prefix of two event queues"""
    n = 0
    qi = list(qi); qr = list(qr)
    while qi and qr:
        a, b = qi[0], qr[0]
        if a[0] == 'err' and b[0] in ('out', 'clear'): qr.pop(0); continue
        if b[0] == 'err' and a[0] in ('out', 'clear'): qi.pop(0); continue
        if a[0] == 'item' and a[1] == '!': qi.pop(0); continue
        if b[0] == 'item' and b[1] == '!': qr.pop(0); continue
        if a[0] != b[0]: raise Mismatch(a, b, dom)
        if a[0] == 'out':
            w = equal_on(a[1], b[1], 32, dom)
            if w is not None: raise Mismatch(a, b, w)
        elif a[0] == 'item':
            if a[1] != b[1]: raise Mismatch(a, b, dom)
            if b[2] is not None and a[2] != b[2]: raise Mismatch(a, b, dom)
        qi.pop(0); qr.pop(0)
    return qi, qr
