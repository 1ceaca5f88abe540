""" C07: element ID and size decoding. """

from absint.scen import *

RULE = ('Abstract interpretation of readElementID, readElementSize, decodeIDLength and decodeIntLength over a stream '
        'whose contents and position are unconstrained, one scenario per class of first byte (the position of its '
        'highest set bit): the returned value must equal, as a linear form over the stream\'s bytes, the big-endian '
        'value of the descriptor (without marker for sizes), None exactly where the path facts imply the all-ones '
        'value, and the stream must have advanced by exactly the descriptor\'s length. IDs of 5 to 8 bytes must '
        'end in an IOError on every path.')
LEVEL = 'other'

DEC = 'ebmlite.decoding.'


def run(C):
    for length in range(1, 9):
        C.scenario('ID length %d' % length, split, read_id, length)
        C.scenario('size length %d' % length, split, read_size, length)
        C.scenario('length tables %d' % length, split, tables, length)


def split(S, f, length):
    """ Decide per class of first byte; refine to single bytes where the
        interval is too coarse. """
    lo, hi = 1 << (8 - length), (1 << (9 - length)) - 1
    n = len(S.c.obs)
    f(S, length, lo, hi)
    if lo != hi and any(o[2] == 'undecided' for o in S.c.obs[n:]):
        del S.c.obs[n:]
        for b in range(lo, hi + 1):
            f(S, length, b, b)


def setup(S, length, lo, hi):
    st = S.fresh()
    if lo == hi:
        b = K(lo)
    else:
        b = Sym('first', 'int')
        st.facts.restrict(b, lo, hi)
    p = Sym('p', 'int')
    st.facts.restrict(p, 0)
    stream = new_stream(S.ip, st, 'src', 'io.BufferedReader', src=K('f'), pos=p, bytes={p: b.v if type(b) is K else b})
    raw = b
    for i in range(1, length):
        raw = add(scale(raw, 256), byte_at(K('f'), add(p, K(i))))
    return st, b, p, stream, raw


def read_id(S, length, lo, hi):
    fn = DEC + 'readElementID'
    st, b, p, stream, raw = setup(S, length, lo, hi)
    outs = S.call(st, fn, stream)
    if length > 4:
        S.raises(outs, 'OSError', 'IDs longer than four bytes raise IOError', fn)
        return
    for s, v in S.normal(outs, 'ID decoded', fn):
        S.eq(s, v, Tup([raw, K(length)]), 'ID is its own bytes and length', fn, 'result')
        S.eq(s, s.get(stream).info['pos'], add(p, K(length)), 'ID: exactly its bytes are consumed', fn, 'position')


def read_size(S, length, lo, hi):
    fn = DEC + 'readElementSize'
    st, b, p, stream, raw = setup(S, length, lo, hi)
    ones = K((1 << (7 * length)) - 1)
    value = add(raw, K(-(1 << (7 * length))))
    for s, v in S.normal(S.call(st, fn, stream), 'size decoded', fn):
        its = S.items(s, v)
        if its is None or len(its) != 2:
            S.undecided(s, 'size result', fn, repr(v))
            continue
        size, n = its
        S.eq(s, n, K(length), 'size: length is the position of the highest set bit', fn, 'length')
        S.eq(s, s.get(stream).info['pos'], add(p, K(length)), 'size: exactly its bytes are consumed', fn, 'position')
        c = S.cond(s, Op('eq0', (sub(value, ones),), 'bool'))
        if s.facts.typeof(size) == 'NoneType':
            S.true(s, c is True, 'only the all-ones value decodes as unknown', fn,
                   'unknown size returned where the descriptor %r need not be all ones' % (raw,))
        elif s.facts.typeof(size) == 'int':
            S.true(s, c is False, 'the all-ones value decodes as unknown', fn,
                   'a size (%r) is returned where the descriptor may be all ones' % (size,))
            S.eq(s, size, value, 'size is the descriptor without its marker', fn, 'size')
        else:
            S.undecided(s, 'size result', fn, repr(size))


def tables(S, length, lo, hi):
    for name, limit in (('decodeIntLength', 8), ('decodeIDLength', 4)):
        fn = DEC + name
        st, b, p, stream, raw = setup(S, length, lo, hi)
        outs = S.call(st, fn, b)
        if length > limit:
            S.raises(outs, 'OSError', 'ID length over four raises IOError', fn)
            continue
        for s, v in S.normal(outs, 'length decoded', fn):
            its = S.items(s, v)
            if its is None or not its:
                S.undecided(s, 'decoded length', fn, repr(v))
                continue
            S.eq(s, its[0], K(length), 'decoded length is the position of the highest set bit', fn, 'length')
            if len(its) > 1:
                want = b if name == 'decodeIDLength' else add(b, K(-(1 << (8 - length))))
                S.eq(s, its[1], want, 'first byte of the value', fn, 'first byte')
