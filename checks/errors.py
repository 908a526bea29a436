"""A06: errors in the definition of automatons"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from objects import *

RULE = 'errors of a definition arrive with their cause and change nothing else'


def one(entry): return lambda: explore('errors', [], [entry], warm='@d_warm', procs=2)


def check():
    C = Check('A06', 'other')
    for S in explore_all([one(e) for e in ('@d_names', '@d_memory', '@d_state', '@d_expr')], 4):
        merge(C, [('ok', '', S)])
        for tags, key, text in S.bad: C.fail(RULE, key, text)
        C.ok(RULE, S.counts.get('ends', 0))
    C.finish('Abstract interpretation of the definitions of paths (members of PathElement, expressions) with names and values that are not possible, states that do not exist and every allocation failing, also the one of the exception itself: '
             'the exception arrives with the cause of the error, no memory is lost or released twice, the definitions before select what they did, the failed one selects nothing and can be repeated.',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does', 'the impossible names, values and definitions are the ones of harness/errors.cpp'])


if __name__ == '__main__': main(check)
