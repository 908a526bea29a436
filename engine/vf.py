"""Common parts of all checks: building the analysis units from /repo's working tree, reporting, evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, traceback, atexit, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import ir, absint, dom as D
from absint import Engine, Unsupported, Limit, Fault, Pause
from dom import Sep, Ptr, Var, Split, UNDEF, Unk, norm
from ir import demangle

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CLANG = 'clang++'
FLAGS = ['-std=gnu++98', '-Wno-everything', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-g', '-O0', '-Xclang', '-disable-O0-optnone',
         '-fno-discard-value-names', '-fno-access-control', '-I' + REPO + '/include', '-I' + VERIF + '/harness']

_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vf-')
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


class BuildError(Exception):
    pass


def compile_unit(name, defs=(), std=None):
    """harness/<name>.cpp -> Module"""
    src = os.path.join(VERIF, 'harness', name + '.cpp')
    out = os.path.join(tmpdir(), name + '-' + str(abs(hash(tuple(defs))) % 100000))
    flags = list(FLAGS)
    if std: flags[0] = '-std=' + std
    r = subprocess.run([CLANG] + flags + ['-D' + d for d in defs] + ['-S', '-emit-llvm', src, '-o', out + '.0.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-6000:])
    r = subprocess.run(['opt', '-passes=mem2reg', '-S', out + '.0.ll', '-o', out + '.ll'], capture_output=True, text=True)
    if r.returncode: raise BuildError(r.stderr[-2000:])
    with open(out + '.ll') as f: text = f.read()
    os.unlink(out + '.0.ll'); os.unlink(out + '.ll')
    return ir.Module(text)


class Check:
    def __init__(self, prop, level='other'):
        self.prop = prop; self.level = level
        self.t0 = time.time()
        self.viol = []          # (key, text)
        self.oblig = {}         # rule -> [count, ok]
        self.samples = []
        self.notes = []
        self.counts = {}
        self.assumptions = []
        self.functions = set()

    def ok(self, rule, n=1, sample=None):
        o = self.oblig.setdefault(rule, [0, 0])
        o[0] += n; o[1] += n
        if sample and len(self.samples) < 40: self.samples.append(sample)

    def fail(self, rule, key, text, n=1):
        o = self.oblig.setdefault(rule, [0, 0])
        o[0] += n
        if not any(k == key for k, _ in self.viol):
            self.viol.append((key, text))

    def decide(self, cond, rule, key, text, sample=None):
        if cond: self.ok(rule, 1, sample)
        else: self.fail(rule, key, text)
        return cond

    def count(self, name, n=1): self.counts[name] = self.counts.get(name, 0) + n

    def engine(self, E):
        """record what an engine analysed"""
        fs = [f for f in E.called]
        for f in fs:
            d = E.mod.functions[f]
            l = E.mod.fn_loc(d)
            if 'textwolf/' in l: self.functions.add('%s %s' % (l, demangle(f)[:160]))
        self.count('abstract_steps', E.steps)

    def finish(self, explanation, assumptions=()):
        known = load_known(self.prop)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        new = []
        used = []
        for key, text in self.viol:
            k = [x for x in known if x[0] == key]
            if k:
                used.append(key)
                print('KNOWN-FINDING: property=%s %s' % (self.prop, k[0][1]))
            else:
                new.append((key, text))
        total = sum(o[0] for o in self.oblig.values()); done = sum(o[1] for o in self.oblig.values())
        cov = dict(explanation=explanation, obligations=total, discharged=done,
                   obligations_by_rule={k: '%d of %d' % (v[1], v[0]) for k, v in sorted(self.oblig.items())},
                   functions_analysed=len(self.functions), functions=sorted(self.functions)[:60],
                   counts=self.counts, samples=self.samples[:25], notes=self.notes[:40],
                   exhaustive=True)
        if self.level == 'model_checking':
            cov.setdefault('states', self.counts.get('states', 0)); cov.setdefault('transitions', self.counts.get('transitions', 0))
            cov.setdefault('traces_validated_against_impl', 0)
        ev = dict(property=self.prop, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=list(assumptions) + self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s: %d of %d obligations discharged, %d function(s) analysed, %.1f s' % (self.prop, done, total, len(self.functions), time.time() - self.t0))
        for k, v in sorted(self.oblig.items()): print('  %-60s %d/%d' % (k, v[1], v[0]))
        if total == 0:
            print('ANALYSIS-BROKEN: no obligation was generated')
            sys.exit(2)
        if new:
            rp = os.path.join(VERIF, 'evidence', 'violation-%s.txt' % self.prop)
            with open(rp, 'w') as f:
                for key, text in new: f.write('[%s]\n%s\n\n' % (key, text))
            for key, text in new[:20]:
                print('-- ' + text)
            if len(new) > 20: print('-- ... %d more' % (len(new) - 20))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            sys.exit(1)
        sys.exit(0)


def load_known(prop):
    """known_findings.txt: lines 'finding: property=<id> key=<key> :: <text>'"""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=(.*?) :: (.*)$', ln.rstrip('\n'))
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out


def main(fn):
    """run a check; anything unexpected is an error exit, never a verdict"""
    try:
        fn()
    except SystemExit:
        raise
    except BuildError as e:
        print('ANALYSIS-BROKEN: the analysis unit does not compile against /repo:\n%s' % e)
        sys.exit(2)
    except (Unsupported, Limit) as e:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: %s: %s' % (type(e).__name__, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN: internal error')
        sys.exit(2)


# ---------------------------------------------------------------- partitions
def forall(dom, fn, limit=200000):
    """evaluate fn on the box; fn may ask for partitions by raising Split. Returns the results per sub-box."""
    work = [dict(dom)]
    out = []
    while work:
        d = work.pop()
        try:
            out.append((d, fn(d)))
        except Split as s:
            for g in reversed(s.groups):
                n = dict(d); n[s.var] = tuple(g)
                work.append(n)
        if len(out) + len(work) > limit: raise Limit('partition too fine')
    return out


def equal_on(x, y, w, dom):
    """None if x == y on the whole box else a witness box"""
    if x is UNDEF or y is UNDEF or isinstance(x, (Unk, Ptr)) or isinstance(y, (Unk, Ptr)): return dict(dom) if x is not y and x != y else None

    # x - y (mod 2^w) is separable: it is zero on the box exactly if it is the constant 0
    z = norm(D.lin(x, y, 1, -1, w, dom), dom)
    if type(z) is int: return None if z == 0 else dict(dom)
    at = {v: vals[0] for v, vals in dom.items()}
    var = next(v for v in z.t if any(z.t[v][b] != z.t[v][dom[v][0]] for b in dom[v]))
    for b in dom[var]:
        at[var] = b
        if (z.k + sum(t[at[v]] for v, t in z.t.items())) & ((1 << w) - 1):
            return {v: (at[v],) if v in z.t else vals for v, vals in dom.items()}
    raise Limit('equal_on')


def lt(x, c, w, d): return D.truth_groups(D.icmp('ult', x, c, w, d), d)


def boxstr(d, names=None):
    out = []
    for v in sorted(d, key=lambda v: str(v.key)):
        vals = d[v]
        if len(vals) == v.n: continue
        out.append('%s=%s' % ('/'.join(map(str, v.key)) if isinstance(v.key, tuple) else v.key, rng(vals)))
    return ', '.join(out) or 'any'


def rng(vals):
    vals = sorted(vals)
    out = []
    i = 0
    while i < len(vals):
        j = i
        while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1: j += 1
        out.append('%02X' % vals[i] if i == j else '%02X-%02X' % (vals[i], vals[j]))
        i = j + 1
    s = ','.join(out)
    return s if len(s) < 60 else s[:57] + '...'
