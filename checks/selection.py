"""N01, A01, A02, A03, A04: selection of paths"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from objects import *

NAMES = 'names and values of one byte represent all (two bytes in the set of paths that distinguishes their lengths)'
GROW = 'at most 2 open tags (thorough: 3) and one attribute of a tag at the same time; the sets of paths are the ones of harness/select.cpp'
RULE = {
    'N01': 'the results of every token are the ones of the reference',
    'A02': 'scopes are closed once, with the results of every way to iterate',
    'A03': 'no access to memory that is not valid any more or out of bounds, all memory is released',
    'A04': 'values delivered are the ones with an index in the range',
    'A01': 'operations accept and reject the token types of their definition',
}


def concerns(tags, key):
    return sys.argv[1] != 'A03' or 'assert' not in tags or 'in range' in key


def one(name, defs, hint=None, entry='@d_scopes'):
    alarm = None if any(d.startswith('WHAT') for d in defs) else concerns
    return lambda: explore('select', defs, [entry], warm='@d_warm', procs=1, hints=hint or 'select-' + name, alarm=alarm)


def check(prop, tier):
    C = Check(prop, 'other')
    big = tier == 'thorough'
    jobs = []
    def sets(r, extra=(), tag=''):
        for k in r: jobs.append(one('%d%s' % (k, tag), ['SETS=1', 'FIRST=%d' % k] + list(extra)))
    if prop == 'N01':
        sets((13, 16, 11, 8, 10, 6, 4, 12, 15, 5, 7, 1, 3, 2, 9, 0))
        sets((8, 2), ['HEADER=1', 'DEPTH=1'], 'h')
        if big: sets((0, 1, 2, 3, 5, 9, 15), ['DEPTH=3'], 'd'); sets((4, 8, 12), ['ATTRS=2'], 'a')
    elif prop == 'A04':
        sets(range(20, 28))
        sets((30, 31), ['WHAT="conditions on the index of a tag select the tags with this index"'])
        if big: sets((20, 22, 23, 27), ['DEPTH=3'], 'd'); sets((24,), ['ATTRS=2'], 'a')
    elif prop == 'A02':
        sets((1, 2, 9), ['ITER=1', 'UNBAL=1', 'DEPTH=1'], 'i')
        sets((2, 9, 3), ['UNBAL=1'], 'u')
        if big: sets((1, 2, 9), ['ITER=1', 'UNBAL=1'], 'j'); sets((2, 9, 3, 7), ['UNBAL=1', 'DEPTH=3'], 'v')
    elif prop == 'A01':
        jobs += [one('ops', [], None, '@d_ops'), one('masks', [], None, '@d_masks')]
        sets((9, 16))
    elif prop == 'A03':
        jobs += [one('build', [], None, '@d_build'), one('list', [], None, '@d_list')]
        sets((13, 22, 4))
        sets((2,), ['ITER=1', 'UNBAL=1', 'DEPTH=1'], 'i')
    for S in explore_all(jobs):
        merge(C, [('ok', '', S)])
        for tags, key, text in S.bad:
            if concerns(tags, key): C.fail(RULE[prop], key, text)
        C.ok(RULE[prop], S.counts.get('states', 0) + S.counts.get('transitions', 0))
        if S.counts.get('incomplete'): C.notes.append('an exploration has been ended by its time limit or a violation found: what is reported holds for the states explored')
    C.finish('Abstract interpretation of the definition of an automaton and of the path selector fed with all token sequences of documents (abstract names, all nestings up to a bound, documents of any length) to the fixpoint; the results of every token are compared with a reference that keeps the steps matched for every open tag.',
             ['LLVM IR of clang 18 at -O0 represents the program as the build compiler does', NAMES, GROW, 'the results of a token are fetched to the end before the next token is fed'])


if __name__ == '__main__':
    main(lambda: check(sys.argv[1], 'thorough' if '--thorough' in sys.argv else 'quick'))
