"""W01, W02, W03: printer"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from objects import *

OUT = 'the output encoding is abstract: that it writes every character in its encoding is decided by C03'
NAMES = 'names are non-empty and consist of name characters, identifiers of the document type contain no quotes; names of one and two characters represent all'


FORM = ('text produced by accepted calls', 'output is encoded')
REFUSE = ('a refused call reports', 'a refused call writes', 'that fit the position', 'error is cleared')


def mine(prop):
    """what violates the other one of the two properties only is left to its check"""
    def f(kind, data, st, M, k):
        if kind != 'assert': return k
        return None if any(x in data for x in (REFUSE if prop == 'W01' else FORM)) else k
    return f


def check(prop, tier):
    C = Check(prop, 'other')
    big = tier == 'thorough'
    def calls(n, d): return lambda: explore('printer', d, ['@d_calls'], warm='@d_warm', hints='printer-' + n, fault=mine(prop))
    def values(d): return lambda: explore('printer', d, ['@d_values'], warm='@d_warm')
    if prop == 'W03':
        conclude(C, [values(d) for d in (['LEN=3'], ['APP=UTF8', 'MULTI', 'LEN=2'], ['APP=UTF16BE', 'UNIT=2', 'LEN=2'], ['APP=UCS4BE', 'UNIT=4', 'LEN=2'], ['APP=UCS2BE', 'UNIT=2', 'LEN=1'])], 'the scanner delivers exactly the characters printed',
                 'Abstract interpretation of printing attribute values and content of up to 3 abstract characters in every application character set; the output is read by the reference of the scanner (S01, S03, S04: what is raw text in the position, line end normalisation, predefined and numeric references) and compared with the characters printed.',
                 [OUT, 'values of up to 3 characters represent all values: characters are printed one by one without state in between'])
        return
    R = [('one', ['DEPTH=1']), ('two', ['DEPTH=2', 'APP=UTF16BE', 'UNIT=2']), ('copy', ['DEPTH=1', 'COPY=1'])]
    if big: R += [('three', ['DEPTH=3']), ('copy2', ['DEPTH=2', 'COPY=1', 'APP=UTF16BE', 'UNIT=2'])]
    conclude(C, [calls(*r) for r in R], 'accepted calls write well-formed text' if prop == 'W01' else 'refused calls write and change nothing, accepted ones write the construct',
             'Abstract interpretation of all sequences of print calls with abstract names and values to the fixpoint up to a depth of 2 (thorough: 3) open tags, also on copies: the text produced is read by an acceptor of well-formed XML that keeps the open tags; result, error text, output and state of every call are compared with the specification of the call.',
             [OUT, NAMES])


if __name__ == '__main__':
    main(lambda: check(sys.argv[1], 'thorough' if '--thorough' in sys.argv else 'quick'))
