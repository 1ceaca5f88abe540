""" C12: writers and readers of each type agree on the representation. """

from absint.scen import *

RULE = ('Abstract interpretation of every reader over an unconstrained stream (one scenario per payload size) against '
        'the value its definition prescribes, as a linear form over the payload\'s bytes; and of every element '
        'class\'s encodePayload on symbolic values (partitioned by magnitude and length) followed by the same '
        'class\'s parse of the abstract bytes produced: the value must come back unchanged. Lengths and values '
        'outside a type\'s range must end in an exception on every path.')
LEVEL = 'other'
DEC, ENC = 'ebmlite.decoding.', 'ebmlite.encoding.'


def run(C):
    for n in range(0, 9):
        C.scenario('read unsigned, %d bytes' % n, read_int, 'readUInt', 'UIntegerElement', n)
        C.scenario('read signed, %d bytes' % n, read_int, 'readInt', 'IntegerElement', n)
    for rd, cls in (('readUInt', 'UIntegerElement'), ('readInt', 'IntegerElement')):
        C.scenario('%s over 8 bytes' % rd, refused, rd, cls, 9, None)
    C.scenario('float sizes 1-3', refused, 'readFloat', 'FloatElement', 1, 3)
    C.scenario('float sizes 5-7', refused, 'readFloat', 'FloatElement', 5, 7)
    C.scenario('float sizes over 8', refused, 'readFloat', 'FloatElement', 9, None)
    C.scenario('date sizes under 8', refused, 'readDate', 'DateElement', 0, 7)
    C.scenario('date sizes over 8', refused, 'readDate', 'DateElement', 9, None)
    for n in (0, 4, 8):
        C.scenario('read float, %d bytes' % n, read_float, n)
    C.scenario('read date', read_date)
    for cls in ('StringElement', 'UnicodeElement'):
        C.scenario('read text, %s' % cls, read_text, cls)
        C.scenario('text ended by zero, %s' % cls, zero_text, cls)
        C.scenario('round trip text, %s' % cls, trip_text, cls, None)
        C.scenario('round trip padded text, %s' % cls, trip_text, cls, 'n')
    C.scenario('read binary', read_binary)
    C.scenario('round trip binary', trip_binary)
    for k in range(0, 9):
        for n in [None] + list(range(max(1, k), 9)):
            C.scenario('round trip unsigned class %d in %s' % (k, n), trip_uint, k, n)
    for k in range(1, 9):
        for sign in (1, -1):
            for n in [None] + list(range(k, 9)):
                C.scenario('round trip signed class %d%s in %s' % (k, '+-'[sign < 0], n), trip_int, k, sign, n)
    for n in (None, 8):
        C.scenario('round trip float in %s' % n, trip_float, n)
        C.scenario('round trip date in %s' % n, trip_date, n)
    C.scenario('round trip zero float', trip_zero)
    C.scenario('integers out of range', out_of_range)


def src(S, st, n):
    return new_stream(S.ip, st, 'src', 'io.BufferedReader', src=K('f'), pos=Sym('p', 'int'))


def rd(n):
    return Bs([Seg('rd', K('f'), Sym('p', 'int'), n)])


def readers(S, st, fn, cls, n):
    """ Outcomes of the reading function and of the class's parse method. """
    out = []
    for what in ('fn', 'cls'):
        s = st.clone()
        stream = src(S, s, n)
        if what == 'fn':
            out.append((DEC + fn, S.call(s, DEC + fn, stream, n)))
        else:
            s, el = one(S.call(s, E + cls, stream, ZERO, n, Sym('p', 'int')), 'element')
            out.append((E + cls + '.parse', S.method(s, el, 'parse', stream, n)))
    return out


def two(raw, n):
    return sub(raw, K(1 << (8 * n)))


def read_int(S, fn, cls, n):
    st = S.fresh()
    want = ube_value([Seg('rd', K('f'), Sym('p', 'int'), K(n))]) if n else ZERO
    for where, outs in readers(S, st, fn, cls, K(n)):
        for s, v in S.normal(outs, 'integer of %d bytes' % n if False else 'integer payload of 0 to 8 bytes', where):
            name = 'big-endian %s value' % ('unsigned' if fn == 'readUInt' else 'two\'s complement')
            if fn == 'readInt' and n:
                neg = S.cond(s, Op('lt0', (sub(K(127), byte_at(K('f'), Sym('p', 'int'))),), 'bool'))
                if neg is None:
                    for s2, b in S.ip.branch(s, S.ip.decide(s, Op('lt0', (sub(K(127), byte_at(K('f'), Sym('p', 'int'))),), 'bool'))):
                        S.eq(s2, v, two(want, n) if b else want, name, where)
                else:
                    S.eq(s, v, two(want, n) if neg else want, name, where)
            else:
                S.eq(s, v, want, name, where)


def refused(S, fn, cls, lo, hi):
    st = S.fresh()
    n = Sym('n', 'int')
    st.facts.restrict(n, lo, INF if hi is None else hi)
    for where, outs in readers(S, st, fn, cls, n):
        S.raises(outs, 'Exception', 'payload lengths the type does not have are refused', where)


def read_float(S, n):
    st = S.fresh()
    if n:
        s0, want = one(S.call(st, Ext('struct.unpack'), K('>f' if n == 4 else '>d'), rd(K(n))), 'unpack')
        want = want.items[0]
    else:
        want = K(0.0)
    for where, outs in readers(S, st, 'readFloat', 'FloatElement', K(n)):
        for s, v in S.normal(outs, 'float payload of 0, 4 or 8 bytes', where):
            S.eq(s, v, want, 'big-endian IEEE value', where)


def read_date(S):
    st = S.fresh()
    raw = ube_value([Seg('rd', K('f'), Sym('p', 'int'), K(8))])
    name = 'nanoseconds since 2001-01-01'
    for where, outs in readers(S, st, 'readDate', 'DateElement', K(8)):
        for s, v in S.normal(outs, 'date payload of 8 bytes', where):
            for s2, neg in S.ip.branch(s, S.ip.decide(s, Op('lt0', (sub(K(127), byte_at(K('f'), Sym('p', 'int'))),), 'bool'))):
                ns = two(raw, 8) if neg else raw
                us = M.dt_us(s2, v)
                if us is None:
                    S.undecided(s2, name, where, repr(v))
                    continue
                r = sub(ns, scale(us, 1000))
                lo, hi = s2.facts.interval(r)
                # within a microsecond of the exact value
                if lo > -1000 and hi < 1000:
                    S.holds(s2, name, where)
                elif lo >= 1000 or hi <= -1000 or lo != -INF and hi != INF:
                    S.violated(s2, name, where, 'date is %r microseconds for %r nanoseconds' % (us, ns))
                else:
                    S.undecided(s2, name, where, 'date is %r microseconds for %r nanoseconds' % (us, ns))


def read_text(S, cls):
    """ Text whose payload holds no zero byte: all of it is the value. """
    st = S.fresh()
    x = Sym('text', 'str')
    st.facts.tr[Op('has', (x, K('\0')), 'bool')] = False
    enc = K('ascii' if cls == 'StringElement' else 'utf-8')
    if cls == 'StringElement':
        st.facts.tr[Op('printable', (x,), 'bool')] = True
    body = Op('encodestr', (x, enc), 'bytes')
    parse(S, st, cls, [Seg('t', body, mklen(x) if cls == 'StringElement' else mklen(body))], x, 'text to the payload\'s end')


def zero_text(S, cls):
    st = S.fresh()
    x, y = Sym('text', 'str'), Sym('junk', 'bytes')
    st.facts.tr[Op('has', (x, K('\0')), 'bool')] = False
    st.facts.tr[Op('has', (y, K(b'\0')), 'bool')] = False
    st.facts.restrict(mklen(y), 1)
    enc = K('ascii' if cls == 'StringElement' else 'utf-8')
    if cls == 'StringElement':
        st.facts.tr[Op('printable', (x,), 'bool')] = True
    body = Op('encodestr', (x, enc), 'bytes')
    b = Seg('t', body, mklen(x) if cls == 'StringElement' else mklen(body))
    name = 'text ends at the first zero byte'
    parse(S, st, cls, [b, Seg('lit', b'\0'), Seg('t', y, mklen(y))], x, name)
    parse(S, st, cls, [b, Seg('lit', b'\0\0'), Seg('t', y, mklen(y)), Seg('lit', b'\0')], x, name)
    parse(S, st, cls, [Seg('lit', b'\0'), Seg('t', y, mklen(y))], K(''), name)


def parse(S, st, cls, segs, want, name):
    """ Parse an abstract payload with an element class. """
    s = st.clone()
    data = segs if isinstance(segs, Bs) or isinstance(segs, Term_) else mkbs(segs)
    n = bytes_len(M.deref(s, data))
    stream = new_stream(S.ip, s, 'mem', content=M.deref(s, data))
    s, el = one(S.call(s, E + cls, stream, ZERO, n, ZERO), 'element')
    where = E + cls + '.parse'
    for s2, v in S.normal(S.get(s, el, 'value'), name, where):
        S.eq(s2, v, want, name, where)


Term_ = (K, Sym, Op, Lin, Bs, Ref)


def trip(S, st, cls, v, n, name, want=None, bad_ok=False):
    """ encodePayload then parse. """
    where = E + cls + '.encodePayload'
    f = S.ip.getattr_(st, S.ip.resolve(st, E + cls), 'encodePayload')
    outs = []
    for s, sig, fn in f:
        outs.extend(S.call(s, fn, v, *([] if n is None else [n if not isinstance(n, int) else K(n)])))
    for s, r in S.normal(outs, name, where):
        r = M.deref(s, r)
        if type(r) is Ref:
            S.violated(s, name, where, 'payload is %r' % (r,))
            continue
        w = want if want is not None else v
        parse(S, s, cls, r, w, name)


def trip_uint(S, k, n):
    st = S.fresh()
    v = Sym('v', 'int')
    st.facts.restrict(v, 0 if k < 2 else 1 << (8 * (k - 1)), (1 << (8 * k)) - 1)
    if k == 0:
        v = ZERO
    trip(S, st, 'UIntegerElement', v, n, 'unsigned integer round trip')


def trip_int(S, k, sign, n):
    st = S.fresh()
    v = Sym('v', 'int')
    lo, hi = (0 if k == 1 else 1 << (8 * (k - 1) - 1)), (1 << (8 * k - 1)) - 1
    if sign > 0:
        st.facts.restrict(v, lo, hi)
    else:
        st.facts.restrict(v, -hi - 1, -lo - 1)
    trip(S, st, 'IntegerElement', v, n, 'signed integer round trip')


def trip_float(S, n):
    st = S.fresh()
    x = Sym('x', 'float')
    trip(S, st, 'FloatElement', x, n, 'float round trip')


def trip_zero(S):
    st = S.fresh()
    trip(S, st, 'FloatElement', K(0.0), None, 'float round trip')
    trip(S, S.fresh(), 'FloatElement', K(1.5), 4, 'float round trip')


def trip_date(S, n):
    for lo, hi in ((0, 1 << 40), (-(1 << 40), -1), (1 << 40, (1 << 63) // 1000), (-(1 << 63) // 1000 + 1, -(1 << 40))):
        st = S.fresh()
        us = Sym('us', 'int')
        st.facts.restrict(us, lo, hi)
        trip(S, st, 'DateElement', Desc('dt', us), n, 'date round trip')


def trip_text(S, cls, n):
    st = S.fresh()
    x = Sym('text', 'str')
    st.facts.tr[Op('has', (x, K('\0')), 'bool')] = False
    st.facts.tr[Op('printable', (x,), 'bool')] = True
    if n:
        n = Sym('n', 'int')
        st.facts.restrict(sub(n, mklen(x)), lo=0)
    trip(S, st, cls, x, n, 'text round trip')


def read_binary(S):
    st = S.fresh()
    n = Sym('n', 'int')
    st.facts.restrict(n, 0)
    st.facts.restrict(Sym('p', 'int'), 0)
    stream = src(S, st, n)
    st, el = one(S.call(st, E + 'BinaryElement', stream, ZERO, n, Sym('p', 'int')), 'element')
    where = E + 'BinaryElement.parse'
    for s, v in S.normal(S.get(st, el, 'value'), 'binary value', where):
        S.eq(s, v, rd(n), 'binary is the raw payload', where)


def trip_binary(S):
    st = S.fresh()
    x = Sym('data', 'bytes')
    trip(S, st, 'BinaryElement', x, None, 'binary round trip')
    st = S.fresh()
    ba = S.ip.alloc(st, Obj('bytearray', data=Sym('data', 'bytes')))
    trip(S, st, 'BinaryElement', ba, None, 'binary round trip', Sym('data', 'bytes'))


def out_of_range(S):
    for cls, lo, hi in (('UIntegerElement', -INF, -1), ('UIntegerElement', 1 << 64, INF),
                        ('IntegerElement', -INF, -(1 << 63) - 1), ('IntegerElement', 1 << 63, INF)):
        st = S.fresh()
        v = Sym('v', 'int')
        st.facts.restrict(v, lo, hi)
        where = E + cls + '.encodePayload'
        f = S.ip.getattr_(st, S.ip.resolve(st, E + cls), 'encodePayload')[0][2]
        for n in (None, 8):
            s = st.clone()
            S.raises(S.call(s, f, v, *([] if n is None else [K(n)])), 'Exception',
                     'integers outside the 64-bit range are refused', where)
