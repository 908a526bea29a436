#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of LLVM IR (finite value-set domain, exact partitions)'
CH = {
 'C01': ('decode.py C01', AI + ' of every decoder against the encoding specification', ''),
 'C02': ('decode.py C02', AI + ' of every decoder on malformed sequences, bounds of every access', ''),
 'C03': ('encode.py', AI + ' of every encoder against the encoding specification', ''),
 'C04': ('views.py C04', AI + ' of the ASCII view and classification against the specification', ''),
 'C05': ('views.py C05', 'fixpoint over abstract reader states under all operation sequences and suspensions', ''),
 'C06': ('codepages.py', 'interprocedural constant and value-set propagation through the code page tables', ''),
 'S01': ('scanner.py S01', AI + ' of the scanner: transition system explored in product with a reference grammar', ''),
 'S02': ('scanner.py S02', AI + ' and self composition: interrupted against uninterrupted scanning', ''),
 'S03': ('scanner.py S03', AI + ' of the scanner: printed characters against a reference transducer', ''),
 'S04': ('scanner.py S04', AI + ' of the scanner: references against a reference transducer', ''),
 'S05': ('scanner.py S05', AI + ' and self composition: masked against unmasked scanning', ''),
 'S06': ('scanner.py S06', AI + ' of the scanner on all inputs: memory accesses, progress, error reports', ''),
 'B01': ('buffer.py B01', AI + ' of all operation sequences against a ghost sequence', ''),
 'M05': ('stack.py', 'call graph of the LLVM IR: strongly connected components and dynamic stack allocations', ''),
 'M06': ('names.py', 'value-set propagation of every enumerator through the text lookup functions', ''),
 'I01': ('sources.py I01', AI + ' of all operation sequences on the byte sources against a ghost position', ''),
 'I02': ('sources.py I02', AI + ' of the stream sources over a nondeterministic model of the standard stream', ''),
 'H01': ('hdrparser.py', AI + ' of the header parser in product with a reference automaton', ''),
 'W01': ('printer.py W01', AI + ' of all call sequences, output read by an acceptor of well-formed text', ''),
 'W02': ('printer.py W02', AI + ' of all call sequences against the specification of the calls', ''),
 'W03': ('printer.py W03', AI + ' of value printing, output read by the reference of the scanner', ''),
 'M02': ('copies.py', AI + ' and self composition: copied against original objects', ''),
 'M03': ('scanner.py M03', AI + ' of the scanner: frames alive at every possible suspension', ''),
 'N01': ('selection.py N01', AI + ' of the selection over all token sequences in product with a reference of path matching', ''),
 'A01': ('selection.py A01', AI + ' of the operations of the path language: token masks against their definition', ''),
 'A02': ('selection.py A02', AI + ' of the selection with copied and advanced iterators and unbalanced tags', ''),
 'A03': ('selection.py A03', AI + ' of the selection with tracked memory: validity, bounds and release', ''),
 'A04': ('selection.py A04', AI + ' of the selection over all token sequences against a reference of index conditions', ''),
 'A06': ('errors.py', AI + ' of the definition of paths with impossible names and failing allocations', ''),
 'B02': ('buffer.py B02', AI + ' of all operation sequences against a ghost stack', ''),
}
DEEP = ('N01', 'A02', 'A04', 'M03', 'S02', 'S05', 'B02', 'W01', 'W02', 'I01', 'I02', 'H01')
NA = {
 'M01': 'a single analysis of all orders of copy, assignment and destruction over all classes did not reach its fixpoint in the time of a check; copies, releases and leaks are decided class by class within B01, B02, I01, A03, A06, M02',
 'M04': 'not built: that no input memory is written through const_cast readers and that every one-time initialised static table stays constant needs a points-to analysis of all stores of the library, which this machinery (path-exact interpretation of drivers) does not provide for all instantiations',
 'A05': 'not built: needs a reference of the undocumented grammar of path expressions over expressions of any length; the definition calls an expression is translated to are decided by N01, A01, A04 and A06',
 'N02': 'a bound on running time relates loop counts to the length of the input, a runtime quantity; selection also depends on the number of active tokens, which no static argument in reach bounds',
}
NOTE = ('Decided statically on the IR of the current sources for all values of the abstract inputs; bounds and assumptions are in DESIGN.md and in the evidence file.')
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for p in props:
    if p in CH:
        c, t, note = CH[p]
        m['checks'].append(dict(property=p, quick_cmd='python3 checks/' + c, thorough_cmd=('VF_TOTAL=20000 VF_TIME=5000 ' if p in DEEP else '') + 'python3 checks/' + c + (' --thorough' if p in DEEP else ''), evidence_file='evidence/%s.json' % p,
                                technique=t, level='other', level_note=note or NOTE))
    else:
        m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
