"""B01, B02: fixed size buffer and tag stack"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from objects import *


def check(prop, tier):
    C = Check(prop, 'other')
    if prop == 'B01':
        conclude(C, [lambda e=e: explore('buffer', [], [e]) for e in ('@d_own', '@d_given', '@d_huge', '@d_copy')], 'the buffer agrees with the sequence of appended characters',
                 'Abstract interpretation of all sequences of operations on a StaticBuffer with abstract characters to the fixpoint, own and given memory with capacities 0..3 (every access is bounds checked), lengths up to the maximum of the type; each state is compared with the ghost sequence of the appended characters. Copies and assignments with failing allocations.')
        return
    conclude(C, [lambda e=e: explore('buffer', ['DEPTH=%d' % (3 if tier == 'thorough' else 2)], [e]) for e in ('@d_tagcopy', '@d_length', '@d_deep', '@d_tags')], 'the tag stack agrees with the sequence of pushed tags',
             'Abstract interpretation of all sequences of push, pop and clear on a TagStack with abstract tag bytes to the fixpoint up to a depth of 2 (thorough: 3), tag lengths around the alignment and growing the memory once and twice, failing allocations, lengths near the maximum of the type; each state is compared with the ghost stack.',
             ['in the sequences of operations tags of the lengths 0,1,2,7,8,9,300,600 (thorough: 0,1,8,300) represent all tag lengths; single tags of all lengths below 1100 and stacks 70 deep of all lengths below 26 are analysed in addition'])


if __name__ == '__main__':
    main(lambda: check(sys.argv[1], 'thorough' if '--thorough' in sys.argv else 'quick'))
