"""Reachable states of library objects under all sequences of operations: abstract interpretation of a driver that calls the
operations in any order with any arguments; the states at the merge points are explored to the fixpoint and every obligation
(vf_assert, memory accesses, releases, exceptions) is decided on each of them."""
from scan import *
import mmap, struct


class ObjMachine(Machine):
    def __init__(self, unit, defs, entry, extra=None, warm=None):
        self.mod = compile_unit(unit, defs)
        self.E = E = Engine(self.mod, dict({
            '@vf_choose': self.h_choose, '@vf_pick': self.h_pick, '@vf_state': self.h_state, '@vf_assert': self.h_assert,
            '@vf_note': lambda E, st, a, i: st.emit(('note', self.text(st, a[0]))), '@vf_oom': self.h_oom, '@vf_heap': self.h_heap,
            '@vf_mark': lambda E, st, a, i: self.live(st)}, **(extra or {})))
        self.entry = entry
        if warm:
            st = E.start(warm, [])
            r = E.run(st)
            if len(r) != 1 or r[0][1] != 'return': raise Unsupported('set-up run does not end normally: %r' % (r[0][:3],))
            self.warm = st
            E.rebase(st)
        else: self.warm = None

    def text(self, st, p):
        try: t = st.cstring(p)
        except Exception: return '?'
        return t.decode('latin1') if isinstance(t, (bytes, bytearray)) else str(t)

    def fresh(self, st, n):
        k = 0
        while Var(('c', k), n) in st.dom: k += 1
        v = Var(('c', k), n)
        st.dom[v] = tuple(range(n))
        return v

    def h_choose(self, E, st, a, ins):
        n = a[0]
        if n == 1: return 0
        return D.var_sep(self.fresh(st, n), 32)

    def h_pick(self, E, st, a, ins):
        n = a[0]
        if n == 1: return 0
        # the variable is made once, the call is repeated after the partition
        v = st.misc.get('pick')
        if v is None:
            v = self.fresh(st, n)
            st.misc['pick'] = v
        if len(st.dom[v]) > 1: raise Split(v, [(b,) for b in st.dom[v]])
        del st.misc['pick']
        x = st.dom[v][0]
        del st.dom[v]
        t = self.text(st, a[1])
        if t: st.emit(('note', '%s%d' % (t, x)))
        return x

    def h_state(self, E, st, a, ins):
        if st.misc.pop('go', None): return None
        st.misc['tag'] = a[0] if a else 0
        raise Pause('state', None)

    def loc(self, st): return Machine.loc(self, st) + (('tag', st.misc.get('tag'), 0),)

    def h_assert(self, E, st, a, ins):
        c = a[0]
        if c is UNDEF: raise Fault('assert', self.text(st, a[1]) + ' (depends on memory that has never been written)')
        if not E.truth(st, c): raise Fault('assert', self.text(st, a[1]))
        st.emit(('ok', self.text(st, a[1])))

    def h_oom(self, E, st, a, ins):
        if a[0]: st.misc['oom'] = True
        else: st.misc.pop('oom', None)

    def live(self, st): return sum(1 for i, o in st.mem.items() if o.alive and o.kind in ('new', 'new[]', 'malloc'))

    def h_heap(self, E, st, a, ins):
        base = self.E.canon_base or {}
        left = [o.name for i, o in st.mem.items() if o.alive and o.kind in ('new', 'new[]', 'malloc') and i not in base]
        if left: raise Fault('leak', '%s: %s is never released' % (self.text(st, a[0]), left[0]))
        st.emit(('ok', 'all memory is released'))

    def canon(self, st, i, ren, extra=()):
        order = {}
        def rv(v):
            k = order.get(v)
            if k is None: k = order[v] = len(order)
            return ('v', k)
        m = tuple(sorted((str(k), str(v)) for k, v in st.misc.items() if k not in ('nalloc', 'pick') and (st.caught or type(k) is not tuple or k[0] not in ('exctype', 'excdtor'))))
        c = self.E.canon(st, rv, ren, extra, st.note)
        self.order = order
        return (c, m, tuple(D.short(st.dom[v]) for v in order)), set()


ALARM = mmap.mmap(-1, 8)
GRACE = 45


def raise_alarm():
    """a violation has been found: the explorations of the check, in all of its processes, are ended soon"""
    if ALARM[:8] == bytes(8): ALARM[:8] = struct.pack('d', time.time())


def alarmed():
    return ALARM[:8] != bytes(8) and time.time() > struct.unpack('d', ALARM[:8])[0] + GRACE


def explore(unit, defs, entries, hints=None, extra=None, limit=None, procs=8, stop=25, machine=None, warm=None, fault=None, done=None, alarm=lambda tags, key: True):
    """all entries of a unit; returns the Report"""
    S = Report(); S.alarmed = False
    for entry in entries:
        M = machine or ObjMachine(unit, defs, entry, extra, warm)

        def path(n):
            out = []
            while n is not None:
                if n.lab: out.append(n.lab)
                n = n.parent
            return ' '.join(reversed(out))

        def key(n, ren): return (0,), set()

        def enter(results, node):
            acts = []
            for status, kind, data, st in results:
                ev = st.events()
                lab = ' '.join(e[1] for e in ev if e[0] == 'note')
                notes = [e[1] for e in ev if e[0] == 'note']
                if status == 'fault':
                    if st.misc.get('unk') or kind.startswith('unknown'): raise Unsupported('fault on an imprecise path: %s %s at %s' % (kind, data, M.E.where(st)))
                    where = M.E.where(st)
                    last = notes[-1] if notes else ''
                    k = '%s %s' % (kind, data if kind in ('assert', 'leak') else where)
                    txt = '%s [%s]' % (data if kind == 'assert' else '%s: %s at %s' % (kind, data, where), (path(node) + ' ' + lab).strip()[-400:])
                    if fault:
                        k = fault(kind, data, st, M, k)
                        if k is None: continue
                    acts.append(lambda k=k, txt=txt, kind=kind: S.report({kind}, k, txt))
                    continue
                for e in ev:
                    if e[0] == 'ok': acts.append(lambda e=e: S.ok(e[1]))
                acts.append(lambda: S.count('transitions'))
                if status == 'pause' and kind == 'state': acts.append(lambda st=st, lab=lab: push(st, node, lab))
                elif kind != 'return': raise Unsupported('run ends with %s %s %r' % (status, kind, data))
                else:
                    acts.append(lambda: S.count('ends'))
                    if done: done(st, acts, S, M)
            return acts

        def push(st, parent, lab):
            s = st.fork(); s.trace = None
            s.misc.pop('go', None)
            n = Node()
            if len(s.dom) > 4:
                M.canon(s, 0, lambda o: o)
                s.dom = {v: t for v, t in s.dom.items() if v in M.order or len(t) == 1}
            n.full = (s,); n.dom = s.dom; n.i = 0; n.x = (); n.parent = parent; n.lab = lab; n.late = False
            XP.add(n)

        def expand(n):
            s = n.sts[0].fork(); s.trace = None
            s.misc['go'] = True
            M.E.max_steps = M.E.steps + 3000000
            try: r = M.E.run(s)
            except Limit as e:
                if 'step limit' not in str(e): raise
                r = [('fault', 'no-progress', 'the operation does not end', s)]
            return enter(r, n)
        XP = Explorer(M, key, S, hints and '%s-%s' % (hints, entry), procs)
        if limit: XP.limit = limit
        if M.warm is not None:
            st = M.warm.fork(); st.misc = {}; st.trace = None
            M.E.start(entry, [], st)
        else: st = M.E.start(entry, [])
        M.E.max_steps = M.E.steps + 5000000
        for f in enter(M.E.run(st), None): f()
        def ended():
            if alarm and not S.alarmed and any(alarm(t, k) for t, k, _ in S.bad): S.alarmed = True; raise_alarm()
            return len(S.bad) > stop or (alarm and alarmed())
        XP.run(expand, ended)
        S.count('states', XP.count)
        if not XP.complete: S.count('incomplete')
        S.unit(M.E)
        if len(S.bad) > stop: break
    return S


def explore_all(jobs, procs=8):
    """jobs: callables returning Reports, each explored in a process of its own"""
    import pickle
    todo = list(enumerate(jobs)); run = {}; res = [None] * len(jobs); err = None
    import select as sel
    while todo or run:
        while todo and len(run) < procs:
            k, j = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    try:
                        S = j()
                        out = ('ok', (S.data(), S.funcs))
                    except BuildError as e: out = ('build', str(e))
                    except (Unsupported, Limit) as e: out = ('unsupported', str(e))
                    except BaseException as e: out = ('err', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()))
                    with os.fdopen(w, 'wb') as f: pickle.dump(out, f, 4)
                    code = 0
                except BaseException: traceback.print_exc()
                finally: os._exit(code)
            os.close(w)
            run[r] = (pid, k, os.fdopen(r, 'rb'))
        for r in sel.select(list(run), [], [])[0]:
            pid, k, f = run.pop(r)
            try:
                with f: out = pickle.load(f)
            except EOFError: out = ('err', 'a process of the exploration ended')
            os.waitpid(pid, 0)
            if out[0] == 'ok':
                S = Report(); S.absorb(out[1][0]); S.funcs |= out[1][1]; res[k] = S
            elif err is None: err = out
    if err: raise {'build': BuildError, 'unsupported': Unsupported}.get(err[0], RuntimeError)(err[1])
    return res


def conclude(C, runs, rule, explanation, assume=()):
    """runs: list of callables returning Reports"""
    for r in runs:
        S = r()
        merge(C, [('ok', '', S)])
        for tags, key, text in S.bad: C.fail(rule, key, text)
        C.ok(rule, S.counts.get('states', 0) + S.counts.get('transitions', 0))
        if S.counts.get('incomplete'): C.notes.append('an exploration has been ended by its time limit: what is reported holds for the states explored')
    C.finish(explanation, ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does'] + list(assume))
