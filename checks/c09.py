""" C09: encoded IDs and sizes decode to themselves. """

from absint.scen import *

RULE = ('Abstract interpretation of encodeSize and encodeId over value classes (one interval per minimal descriptor '
        'length, values symbolic) and every explicit length: the byte string returned must have the minimal or given '
        'length and, as a linear form, the value of the marker plus the size; interpreting readElementSize and '
        'readElementID on that abstract string must give the same value and length back. Classes that do not fit the '
        'explicit length must end in a ValueError on every path.')
LEVEL = 'other'
ENC, DEC = 'ebmlite.encoding.', 'ebmlite.decoding.'


def run(C):
    for k in range(1, 9):
        C.scenario('size class %d' % k, size, k, None)
        for n in range(0, 9):
            C.scenario('size class %d in %d' % (k, n), size, k, n)
        C.scenario('unknown size in %d' % k, unknown, k)
    C.scenario('unknown size', unknown, None)
    C.scenario('size in length -1', unknown, -1)
    for k in range(1, 5):
        C.scenario('ID of %d bytes' % k, eid, k, None)
        for n in (-1, 0, 1, 2, 3, 4, 5, 8):
            C.scenario('ID of %d bytes in %d' % (k, n), eid, k, n)


def edges(lo, hi):
    """ The interval, and its ends on their own. """
    return [(lo, hi), (lo, lo), (hi, hi)]


def size(S, k, n):
    fn = ENC + 'encodeSize'
    lo, hi = (0 if k == 1 else (1 << (7 * (k - 1))) - 1), (1 << (7 * k)) - 2
    for a, b in edges(lo, hi):
        st = S.fresh()
        v = K(a) if a == b else Sym('size', 'int')
        if a != b:
            st.facts.restrict(v, a, b)
        outs = S.call(st, fn, v, *([] if n is None else [K(n)]))
        if n is not None and n < k:
            S.raises(outs, 'ValueError', 'size that does not fit the explicit length raises ValueError', fn)
            continue
        length = k if n is None else n
        for s, r in S.normal(outs, 'size encodes', fn):
            r = M.deref(s, r)
            S.eq(s, bytes_len(r), K(length), 'size descriptor has the %s length' % ('minimal' if n is None else 'given'), fn, 'length')
            u = ube_value(segs_of(r))
            if u is not None:
                S.eq(s, u, add(v, K(1 << (7 * length))), 'size descriptor is marker plus size', fn, 'descriptor value')
            back(S, s, r, DEC + 'readElementSize', Tup([v, K(length)]), 'size decodes to itself', fn)


def back(S, s, r, reader, want, name, fn):
    stream = new_stream(S.ip, s, 'mem', content=r)
    for s2, v in S.normal(S.call(s, reader, stream), name, fn):
        S.eq(s2, v, want, name, fn, 'decoded')


def unknown(S, n):
    fn = ENC + 'encodeSize'
    st = S.fresh()
    outs = S.call(st, fn, NONE, *([] if n is None else [K(n)]))
    for s, r in S.normal(outs, 'unknown size encodes', fn):
        S.eq(s, r, K(b'\xff' * (1 if n in (None, -1) else n)), 'unknown size is all one bits of the requested length', fn, 'descriptor')


def eid(S, k, n):
    fn = ENC + 'encodeId'
    st = S.fresh()
    v = Sym('eid', 'int')
    st.facts.restrict(v, 1 << (7 * k), (1 << (7 * k + 1)) - 1)
    outs = S.call(st, fn, v, *([] if n is None else [K(n)]))
    if n is not None and (n < k or n > 4):
        S.raises(outs, 'ValueError', 'impossible explicit ID length raises ValueError', fn)
        return
    if n is not None and n != k:
        return
    for s, r in S.normal(outs, 'ID encodes', fn):
        r = M.deref(s, r)
        S.eq(s, bytes_len(r), K(k), 'ID has its own length', fn, 'length')
        u = ube_value(segs_of(r))
        if u is not None:
            S.eq(s, u, v, 'ID encodes as its own bytes', fn, 'encoded value')
        back(S, s, r, DEC + 'readElementID', Tup([v, K(k)]), 'ID decodes to itself', fn)
