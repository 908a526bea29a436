"""M06: texts of the codes"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from vf import *

# the text of an error message is free: what it has to say
ERR = dict(Ok=None, ErrIllegalDocumentAttributeDef=('document', 'attribute'), ErrExpectedOpenTag=('open', 'tag'), ErrExpectedXMLTag=('xml', 'tag'),
           ErrUnexpectedEndOfText=('end', 'text'), ErrSyntaxToken=('token',), ErrStringNotTerminated=('string', 'terminated'), ErrUndefinedCharacterEntity=('entity',),
           ErrExpectedTagEnd=('tag', 'end'), ErrExpectedEqual=('equal',), ErrExpectedTagAttribute=('tag', 'attribute'), ErrExpectedCDATATag=('cdata',), ErrInternal=('internal',),
           ErrUnexpectedEndOfInput=('end', 'input'), ErrExpectedEndOfLine=('end', 'line'), ErrExpectedDash2=('-',))
LOOKUPS = [('n_ElementType', 'XMLScannerBase', 'ElementType'), ('n_Error', 'XMLScannerBase', 'Error'), ('n_STMState', 'XMLScannerBase', 'STMState'), ('n_STMAction', 'XMLScannerBase', 'STMAction'),
           ('n_ControlCharacter', None, 'ControlCharacter'), ('n_Cause', 'throws_exception', 'Cause'), ('n_Operation', 'XMLPathSelectAutomaton', 'Operation'), ('n_seekop', 'XMLPathSelectAutomaton', 'Operation'),
           ('n_State', 'XmlHdrParser', 'State')]
NOT_CODES = {'NofSTMActions', 'NofElementTypes', 'NofControlCharacter'}       # number of codes, not a code


def enumerators(mod, scope, name):
    """from the debug information of the unit"""
    for s in mod.md.values():
        if 'DICompositeType(tag: DW_TAG_enumeration_type' not in s or 'name: "%s"' % name not in s: continue
        i = re.search(r'scope: !(\d+)', s).group(1)
        sc = re.search(r'name: "([^"<]*)', mod.md.get(i, ''))
        if scope and (not sc or sc.group(1) != scope): continue
        el = re.search(r'elements: !(\d+)', s).group(1)
        out = []
        for e in re.findall(r'!(\d+)', mod.md[el]):
            m = re.search(r'name: "([^"]*)", value: (-?\d+)', mod.md[e])
            out.append((m.group(1), int(m.group(2))))
        return out
    raise Unsupported('enumeration %s not found' % name)


def check():
    C = Check('M06', 'other')
    try: mod = compile_unit('names', ['HDR'])
    except BuildError: mod = compile_unit('names'); C.notes.append('the state names of the header parser are not accessible')
    E = Engine(mod)
    for fn, scope, enum in LOOKUPS:
        if '@' + fn not in mod.functions: continue
        names = [(n, v) for n, v in enumerators(mod, scope, enum) if n not in NOT_CODES]
        by = dict((v, n) for n, v in names)
        seen = {}
        var = Var(('code', 0), max(by) + 1)
        st = E.new_state(); st.dom[var] = tuple(sorted(by))
        E.start('@' + fn, [D.var_sep(var, 32)], st)
        for status, kind, data, s in E.run(st):
            d = s.dom
            if status == 'fault' or kind != 'return':
                for v in d[var]: C.fail('lookup stays inside its table', '%s %s' % (fn, by[v]), 'the text of %s: %s %s at %s' % (by[v], kind, data or '', E.where(s)))
                continue

            def f(box):
                if len(box[var]) > 1: raise Split(var, [(b,) for b in box[var]])
                r = norm(s.ret, box)
                return r
            for box, r in forall(d, f):
                v = box[var][0]; n = by[v]
                text = None
                if isinstance(r, Ptr):
                    try:
                        if type(r.off) is not int: r = Ptr(r.obj, norm(r.off, box))
                        text = s.cstring(r)
                        text = text.decode('latin1') if isinstance(text, (bytes, bytearray)) else str(text)
                    except Fault as e:
                        C.fail('lookup stays inside its table', '%s %s' % (fn, n), 'the text of %s is not a terminated string: %s' % (n, e.msg)); continue
                elif r != 0:
                    C.fail('lookup stays inside its table', '%s %s' % (fn, n), 'the text of %s is %r' % (n, r)); continue
                C.ok('lookup stays inside its table')
                where = locs(E, fn)
                if enum == 'Error':
                    if n == 'Ok': C.decide(text is None, 'text of its own', 'n_Error Ok', 'Ok has the error text %r (%s)' % (text, where)); continue
                    if not C.decide(bool(text), 'text of its own', '%s %s none' % (fn, n), '%s has no text (%s)' % (n, where)): continue
                    want = ERR.get(n, ())
                    C.decide(all(w in text.lower() for w in want), 'text of its own', '%s %s' % (fn, n), 'the text of %s is %r (%s)' % (n, text, where), '%s: %r' % (n, text))
                    if n in ('ErrExpectedOpenTag', 'ErrExpectedXMLTag', 'ErrExpectedTagEnd'): C.decide('attribute' not in text, 'text of its own', '%s %s' % (fn, n), 'the text of %s is %r (%s)' % (n, text, where))
                else: C.decide(text == n, 'text of its own', '%s %s' % (fn, n), 'the text of %s is %r (%s)' % (n, text, where), '%s: %r' % (n, text))
                if text in seen: C.fail('different codes have different texts', '%s %s %s' % (fn, n, seen[text]), '%s and %s have the same text %r (%s)' % (n, seen[text], text, where))
                else: C.ok('different codes have different texts')
                seen[text] = n
    C.count('enumerations', len(LOOKUPS))
    C.engine(E)
    C.finish('Value-set propagation of every enumerator (from the debug information of the sources) through the text lookup functions: the text is a terminated constant inside of the table, '
             'it is the name of the enumerator (for error messages: the message about that error) and no two codes share one.', ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does'])


def locs(E, fn):
    return ', '.join(sorted(E.mod.fn_loc(E.mod.functions[f]) for f in E.called if 'textwolf/' in E.mod.fn_loc(E.mod.functions[f])
                            and any(k in demangle(f) for k in ('Name', 'String', 'name', 'what')))[-1:])


if __name__ == '__main__': main(check)
