"""H01: header parser"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from objects import *


def check(tier):
    C = Check('H01', 'other')
    R = [('one', ['SLACK=2', 'ATTRS=1', 'CHUNK=2']), ('two', ['SLACK=1', 'ATTRS=2', 'CHUNK=1']), ('zeros', ['SLACK=4', 'ATTRS=0', 'CHUNK=1']), ('wide', ['SLACK=1', 'ATTRS=1', 'CHUNK=1', 'WIDE']), ('copy', ['SLACK=2', 'ATTRS=1', 'CHUNK=1', 'COPY=1'])]
    if tier == 'thorough': R += [('slack', ['SLACK=4', 'ATTRS=1', 'CHUNK=2']), ('three', ['SLACK=2', 'ATTRS=3', 'CHUNK=1']), ('wider', ['SLACK=2', 'ATTRS=2', 'CHUNK=1', 'WIDE'])]
    conclude(C, [lambda n=n, d=d: explore('hdr', d, ['@d_feed'], hints='hdr-' + n) for n, d in R] + [lambda: explore('hdr', [], ['@d_data'])], 'the header parser agrees with the reference automaton',
             'Abstract interpretation of the header parser fed with chunks of 0..2 abstract bytes until the declaration is complete, in product with a reference automaton for the declaration: result, error, encoding and the number of characters consumed after every chunk, input with 0, 1 or 3 null bytes before or after each character, copies, reset.',
             ['declarations with up to 2 attributes (thorough: 3), encoding names up to 2 characters, few additional blanks represent all: the parser has no other dependency on lengths'])


if __name__ == '__main__':
    main(lambda: check('thorough' if '--thorough' in sys.argv else 'quick'))
