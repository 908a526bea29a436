"""M05: call graph of the whole library"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from vf import *

NAME = r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)'
CALL = re.compile(r'\b(?:call|invoke)\b')
DIRECT = re.compile(r'(%s)\(' % NAME)
ADDR = re.compile(r'ptr (?:noundef |nonnull |align \d+ |dereferenceable\(\d+\) |byval\([^)]*\) |sret\([^)]*\) )*(%s)(?!\()' % NAME)
INDIRECT = re.compile(r'\b(?:call|invoke)\s[^@]*?(%[-\w.$]+)\(')


def signature(s):
    """number and kinds of the arguments of a parameter list starting at s[0] == '('"""
    d = 0; out = []; cur = ''
    for c in s:
        if c in '([{<':
            d += 1
            if d == 1: continue
        elif c in ')]}>':
            d -= 1
            if d == 0: break
        if c == ',' and d == 1: out.append(cur); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur)
    return tuple(a.strip().split(' ')[0] for a in out)


def vslot(defs, r):
    """position of the table of virtual functions the register is loaded from, None if it is not a virtual call"""
    m = re.match(r'load ptr, ptr (%[-\w.$]+)', defs.get(r, ''))
    if not m: return None
    g = re.match(r'getelementptr inbounds ptr, ptr (%[-\w.$]+), i64 (\d+)', defs.get(m.group(1), ''))
    if g and g.group(1).startswith('%vtable'): return int(g.group(2))
    return None


def sccs(graph):
    """Tarjan, without recursion"""
    index = {}; low = {}; on = set(); stack = []; out = []; n = 0
    for root in graph:
        if root in index: continue
        work = [(root, iter(graph[root]))]
        index[root] = low[root] = n; n += 1; stack.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in graph: continue
                if w not in index:
                    index[w] = low[w] = n; n += 1; stack.append(w); on.add(w)
                    work.append((w, iter(graph[w])))
                    break
                if w in on: low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append(c)
    return out


def check():
    C = Check('M05', 'other')
    mod = compile_unit('all')
    F = {n: f for n, f in mod.functions.items() if f.defined}
    sig = {}
    for n, f in mod.functions.items():
        k = f.attrs.index(n + '(') + len(n)
        sig[n] = signature(f.attrs[k:])
    taken = set()           # functions whose address is used: possible targets of an indirect call
    slots = {}              # position in a table of virtual functions -> functions
    for g in mod.globals.values():
        if g.name.startswith(('@_ZTV', '@_ZTC')):
            k = None
            for e in re.findall(r'ptr (?:inttoptr[^,]*|null|%s)' % NAME, g.init_toks or ''):
                e = e[4:]
                if e.startswith('@_ZTI'): k = 0; continue
                if k is None: continue
                if e in mod.functions: slots.setdefault(k, set()).add(e)
                k += 1
            continue
        for m in re.finditer(NAME, g.init_toks or ''):
            if m.group(0) in mod.functions: taken.add(m.group(0))
    graph = {}; indirect = {}; nind = 0; dyn = []; frame = {}
    for n, f in F.items():
        out = set(); ind = []; size = 0; defs = {}
        for ln in f.body_lines:
            if ' = alloca ' in ln:
                m = re.search(r'alloca (.*?)(?:, (i\d+) (\S+))?, align', ln)
                if m and m.group(2) and not m.group(3).lstrip('-').isdigit(): dyn.append((n, ln.strip()))
                else:
                    try: size += mod.size(ir.Parser(mod, ir.tokenize(m.group(1))).parse_type()) * (int(m.group(3)) if m.group(3) else 1)
                    except Exception: size += 64
            if '@llvm.dbg.' in ln: continue
            m = re.match(r'\s*(%[-\w.$]+) = (.*)', ln)
            if m: defs[m.group(1)] = m.group(2)
            c = CALL.search(ln)
            if c:
                m = DIRECT.search(ln, c.end())
                i = INDIRECT.search(ln)
                if m and not (i and i.start(1) < m.start()):
                    out.add(m.group(1))
                elif i: ind.append((signature(ln[i.end() - 1:]), vslot(defs, i.group(1)))); nind += 1
            for m in ADDR.finditer(ln):
                if m.group(1) in mod.functions:
                    taken.add(m.group(1))
                    if c: out.add(m.group(1))          # handed to the callee, which may call it
        graph[n] = out; indirect[n] = ind; frame[n] = size
    bysig = {}
    for t in taken: bysig.setdefault(sig[t], []).append(t)
    for n, l in indirect.items():
        for s, k in l:
            if k is None: graph[n] |= set(bysig.get(s, ())) | {t for v in slots.values() for t in v if sig[t] == s}
            else: graph[n] |= {t for t in slots.get(k, ()) if sig[t] == s}
    lib = {n for n, f in F.items() if 'include/textwolf/' in mod.fn_loc(f)}
    for n in lib: C.functions.add('%s %s' % (mod.fn_loc(F[n]), demangle(n)[:160]))
    comps = sccs(graph)
    std = []
    order = []
    for c in comps:
        order.append(c)
        rec = len(c) > 1 or c[0] in graph[c[0]]
        mine = [n for n in c if n in lib]
        if rec and mine:
            mine.sort(key=lambda n: mod.fn_loc(F[n]))
            C.fail('no cycle of calls through a library function', 'cycle %s' % re.sub(r'<.*', '', demangle(mine[0])).split('(')[0],
                   'the calls %s form a cycle: the stack grows with the recursion' % ' -> '.join('%s (%s)' % (demangle(n)[:120], mod.fn_loc(F[n])) for n in mine[:6]), len(mine))
        else:
            C.ok('no cycle of calls through a library function', len(mine))
            if rec: std.append(demangle(c[0])[:100])
    for n, ln in dyn:
        if n in lib: C.fail('no stack allocation of variable size', 'alloca %s' % demangle(n).split('(')[0], '%s (%s) allocates stack memory of variable size' % (demangle(n)[:160], mod.fn_loc(F[n])))
    C.ok('no stack allocation of variable size', len(lib) - len({n for n, _ in dyn if n in lib}))
    # bound of the stack consumption: the heaviest path of calls (the components come in topological order, callees first)
    depth = {}
    for c in comps:
        for n in c: depth[n] = frame[n] + 96 + max([depth.get(w, 0) for w in graph[n] if w not in c], default=0)
    top = max(lib, key=lambda n: depth[n])
    C.count('call_sites_indirect', nind); C.count('functions_in_unit', len(F)); C.count('call_edges', sum(len(v) for v in graph.values()))
    C.notes.append('stack of the heaviest path: about %d bytes (at -O0) from %s' % (depth[top], demangle(top)[:120]))
    C.notes.append('recursive functions of the standard library in the unit (depth logarithmic in the number of named entities registered by the user): ' + '; '.join(sorted(set(std))))
    C.finish('Call graph of every function of the library, instantiated with all character sets, byte sources and buffers; indirect calls go to every function of that signature whose address is taken (virtual calls: to every virtual function at that position of a table), '
             'functions handed to a callee count as called. No cycle contains a function of the library and no function of the library allocates stack memory of variable size.',
             ['functions outside of the unit (libstdc++.so, libc) call back only what they are handed'])


if __name__ == '__main__': main(check)
