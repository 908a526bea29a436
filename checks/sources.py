"""I01, I02: byte sources"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'engine'))
from objects import *


def check(prop, tier):
    C = Check(prop, 'other')
    big = tier == 'thorough'
    if prop == 'I01':
        conclude(C, [lambda e=e: explore('source', ['CHUNKS=%d' % (4 if big else 3), 'BYTES=%d' % (6 if big else 4)], [e]) for e in ('@d_cstring', '@d_chunks', '@d_istream', '@d_both')], 'the source delivers the bytes of its input',
                 'Abstract interpretation of all sequences of operations (access, advance, copy, assign, next chunk) on CStringIterator, SrcIterator and IStreamIterator with abstract bytes to the fixpoint; each state is compared with the ghost position in the input, every access is bounds checked against the input of exact size.',
                 ['inputs of up to 3 bytes (strings, chunks) or 4 bytes (streams; thorough: 6) with buffers of 1..3 bytes represent all sizes: the code compares positions and sizes only',
                  'the standard stream behaves as specified (read, exceptions, eof and bad state)'])
        return
    conclude(C, [lambda e=e: explore('source', ['BYTES=%d' % (6 if big else 4)], [e]) for e in ('@d_std', '@d_both', '@d_istream')], 'a failing stream is reported',
             'Abstract interpretation of StdInputStream and IStreamIterator over a model of the standard input stream in which every read may succeed, end early or fail in any way (state bits, exceptions of any type, bytes already stored, any system error number): a failure is always raised as an error at the point where it happens and never taken for the end.',
             ['the standard stream behaves as specified (read, exceptions, eof and bad state)', 'streams of up to 4 bytes (thorough: 6) with buffers of 1..3 bytes represent all sizes'])


if __name__ == '__main__':
    main(lambda: check(sys.argv[1], 'thorough' if '--thorough' in sys.argv else 'quick'))
