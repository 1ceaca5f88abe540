""" C11: explicit lengths are honoured exactly or refused. """

from checks.enclib import *

RULE = ('Abstract interpretation of the payload encoder of every element class (and the encode* functions) with an '
        'explicit length over partitions of value magnitude or data length: on every normal path the length of the '
        'abstract bytes, a linear form, must equal the length given, and its contents must be the unpadded encoding '
        'padded (integers on the left by sign, data on the right) or, for text, cut; partitions that do not fit must '
        'end in ValueError on every path (integers, binary); floats accept only 0, 4, 8 and dates only 8.')
LEVEL = 'other'
C = CORE
FN = {'UIntegerElement': 'encodeUInt', 'IntegerElement': 'encodeInt', 'FloatElement': 'encodeFloat',
      'StringElement': 'encodeString', 'UnicodeElement': 'encodeUnicode', 'BinaryElement': 'encodeBinary',
      'DateElement': 'encodeDate'}


def run(C):
    for k in range(0, 9):
        for n in range(0, 10):
            C.scenario('unsigned of %d bytes in %d' % (k, n), integer, 'UIntegerElement', k, n, 1)
            if k:
                C.scenario('signed of %d bytes in %d' % (k, n), integer, 'IntegerElement', k, n, 1)
                C.scenario('negative of %d bytes in %d' % (k, n), integer, 'IntegerElement', k, n, -1)
    for cls in ('BinaryElement', 'StringElement', 'UnicodeElement'):
        for kind in ('str', 'bytes', 'bytearray'):
            for rel in ('shorter', 'equal', 'longer'):
                C.scenario('%s from %s %s than the length' % (cls, kind, rel), data, cls, kind, rel)
            C.scenario('%s from %s without a length' % (cls, kind), unpadded, cls, kind)
        for n in (0, 1, 2, 5, 127, 128, 300):
            C.scenario('%s: nothing in %d bytes' % (cls, n), empty, cls, n)
    C.scenario('binary from nothing', nothing)
    C.scenario('void', void)
    for n in range(0, 11):
        C.scenario('float in %d' % n, real, n)
        C.scenario('date in %d' % n, date, n)
    C.scenario('float in other lengths', real, None)
    C.scenario('date in other lengths', date, None)
    for n in ('U', 'I', 'F', 'S', 'T', 'D', 'B', 'P'):
        C.scenario('element %s' % n, element, n)


def encoders(S, st, cls, v, n):
    """ Outcomes of the class's payload encoder and of the encoding function. """
    out = []
    for what in ('class', 'function'):
        s = st.clone()
        if what == 'class':
            out.append((CORE + cls + '.encodePayload', payload_of(S, s, S.ip.resolve(s, CORE + cls), v, n)))
        elif cls in FN:
            out.append((ENC + FN[cls], S.call(s, ENC + FN[cls], v, n)))
    return out


def exact(S, outs, n, where, name):
    good = []
    for s, r in S.normal(outs, name, where):
        r = M.deref(s, r)
        S.eq(s, bytes_len(r), n, name, where, 'payload length')
        good.append((s, r))
    return good


def integer(S, cls, k, n, sign):
    """ Values whose shortest encoding has k bytes. """
    st = S.fresh()
    v = Sym('v', 'int')
    if cls == 'UIntegerElement':
        lo, hi = (0 if k < 2 else 1 << (8 * (k - 1))), (1 << (8 * k)) - 1
    else:
        lo, hi = (0 if k == 1 else 1 << (8 * (k - 1) - 1)), (1 << (8 * k - 1)) - 1
        if sign < 0:
            lo, hi = -hi - 1, -lo - 1
    if n == 0 and k and lo == 0:
        lo = 1      # zero in no bytes may be written or refused
    for a, b in ((lo, hi), (lo, lo), (hi, hi)):
        s = st.clone()
        x = K(a) if a == b else v
        if a != b:
            s.facts.restrict(v, a, b)
        for where, outs in encoders(S, s, cls, x, K(n)):
            if max(k, 1) > n:
                if k == 0 and n == 0:
                    continue    # zero in no bytes may be written or refused
                S.raises(outs, 'ValueError', 'an integer that does not fit the length raises ValueError', where)
                continue
            if n > 8:
                # longer than any reader accepts: refused, or padded exactly
                for s2, sig, r in outs:
                    if sig == 'v':
                        S.eq(s2, bytes_len(M.deref(s2, r)), K(n), 'an integer has exactly the length given', where, 'length')
                continue
            for s2, r in exact(S, outs, K(n), where, 'an integer has exactly the length given'):
                u = ube_value(segs_of(r))
                if u is None:
                    S.undecided(s2, 'integers are padded by sign', where, repr(r))
                    continue
                S.eq(s2, u, x if sign > 0 else add(x, K(1 << (8 * n))), 'integers are padded by sign', where, 'encoded integer')


def source(S, st, kind, cls):
    """ A value of a kind; ASCII where only that is representable. """
    x = Sym('text', 'str')
    b = Sym('data', 'bytes')
    if cls == 'StringElement':
        st.facts.tr[Op('printable', (x,), 'bool')] = True
        st.facts.tr[Op('printable', (b,), 'bool')] = True
    if kind == 'str':
        return x
    if kind == 'bytes':
        return b
    return S.ip.alloc(st, Obj('bytearray', data=b))


def plain(S, st, cls, v):
    """ What is encoded without an explicit length. """
    return payload_of(S, st, S.ip.resolve(st, CORE + cls), v)


def data(S, cls, kind, rel):
    st = S.fresh()
    v = source(S, st, kind, cls)
    n = Sym('n', 'int')
    st.facts.restrict(n, 0)
    for s, p in S.normal(plain(S, st, cls, v), 'data encodes', CORE + cls + '.encodePayload'):
        p = M.deref(s, p)
        d = sub(n, bytes_len(p))
        lo, hi = {'shorter': (1, INF), 'equal': (0, 0), 'longer': (-INF, -1)}[rel]
        if not s.facts.restrict(d, lo, hi):
            continue
        for where, outs in encoders(S, s, cls, v, n):
            if rel == 'longer' and cls == 'BinaryElement':
                S.raises(outs, 'ValueError', 'binary data that does not fit the length raises ValueError', where)
                continue
            for s2, r in exact(S, outs, n, where, 'data has exactly the length given'):
                name = 'data is kept whole and padded on the right' if rel != 'longer' else 'text is cut to the length'
                if rel == 'longer':
                    if S.same(s2, r, p) == 'eq':
                        S.violated(s2, name, where, 'nothing was cut')
                    prefix(S, s2, r, p, n, where, name)
                    continue
                stream = new_stream(S.ip, s2, 'mem', content=r)
                for s3, head in S.normal(S.method(s2, stream, 'read', bytes_len(p)), name, where):
                    S.eq(s3, head, p, name, where, 'start of the payload')


def prefix(S, st, r, p, n, where, name):
    """ r is the first n bytes of p. """
    stream = new_stream(S.ip, st, 'mem', content=p)
    for s, want in S.normal(S.method(st, stream, 'read', n), name, where):
        S.eq(s, r, M.deref(s, want), name, where, 'payload')


def unpadded(S, cls, kind):
    st = S.fresh()
    v = source(S, st, kind, cls)
    name = 'without a length the data is written whole'
    want = M.deref(st, v)
    if kind == 'str':
        want = Op('encodestr', (v, K('utf-8' if cls != 'StringElement' else 'ascii')), 'bytes')
    for where, outs in encoders(S, st, cls, v, NONE):
        for s, r in S.normal(outs, name, where):
            if kind == 'str' and cls == 'StringElement':
                S.eq(s, bytes_len(M.deref(s, r)), mklen(v), name, where, 'length')
            else:
                S.eq(s, M.deref(s, r), want, name, where, 'payload')


def empty(S, cls, n):
    st = S.fresh()
    for v in (K(''), K(b'')):
        for where, outs in encoders(S, st, cls, v, K(n)):
            exact(S, outs, K(n), where, 'data has exactly the length given')


def nothing(S):
    st = S.fresh()
    n = Sym('n', 'int')
    st.facts.restrict(n, 0)
    for where, outs in encoders(S, st, 'BinaryElement', NONE, n):
        exact(S, outs, n, where, 'data has exactly the length given')


def void(S):
    st = S.fresh()
    n = Sym('n', 'int')
    st.facts.restrict(n, 0)
    for v in (NONE, Sym('data', 'bytes'), K(b'abc')):
        for where, outs in encoders(S, st, 'VoidElement', v, n):
            exact(S, outs, n, where, 'void data has exactly the length given')


def real(S, n):
    st = S.fresh()
    x = Sym('x', 'float')
    if n is None:
        n = Sym('n', 'int')
        st.facts.restrict(n, 9)
    else:
        n = K(n)
    for v in (x, K(0.0), K(1.5)):
        for where, outs in encoders(S, st, 'FloatElement', v, n):
            if n in (K(0), K(4), K(8)):
                if n == K(0):
                    continue
                for s, sig, r in outs:
                    if sig == 'v':
                        S.eq(s, bytes_len(M.deref(s, r)), n, 'a float has the length given', where, 'length')
                    elif v is not x or n == K(8):
                        S.violated(s, 'a float has the length given', where, 'raises %s' % S.exc_text(s, r))
            else:
                S.raises(outs, 'ValueError', 'floats accept only lengths they can be read back from', where)


def date(S, n):
    st = S.fresh()
    us = Sym('us', 'int')
    st.facts.restrict(us, -(1 << 50), 1 << 50)
    if n is None:
        n = Sym('n', 'int')
        st.facts.restrict(n, 9)
    else:
        n = K(n)
    for where, outs in encoders(S, st, 'DateElement', Desc('dt', us), n):
        if n == K(8):
            exact(S, outs, n, where, 'a date has 8 bytes')
        else:
            S.raises(outs, 'ValueError', 'dates accept only the length they can be read back from', where)


def element(S, n):
    """ Through encode(): the whole element grows by exactly the padding. """
    st, schema = S.w.with_schema(EDEFS)
    vals = values(S, st)
    v = vals[n]
    if type(v) is Sym and v.ty in ('str', 'bytes'):
        st.facts.restrict(mklen(v), 0, 8)
    cls = klass(S, st, schema, n)
    for m in (8,):
        for s, r in S.normal(encode(S, st.clone(), cls, v, length=m), 'an explicit length is honoured', CORE + 'Element.encode'):
            for s2, i, il, sz, nl, stream in split(S, s, r, CORE + 'Element.encode', 'an explicit length is honoured'):
                S.eq(s2, sz, K(m), 'an explicit length is honoured by encode()', CORE + 'Element.encode', 'payload size')
                S.eq(s2, bytes_len(M.deref(s2, r)), add(add(il, nl), K(m)), 'an explicit length is honoured by encode()',
                     CORE + 'Element.encode', 'length')
