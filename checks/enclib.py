""" Shared parts of the encoding checks: reading an abstract encoding apart. """

from absint.scen import *
from absint import models as M

ENC, DEC, CORE = 'ebmlite.encoding.', 'ebmlite.decoding.', 'ebmlite.core.'

EDEFS = [HEADER] + GLOBALS + [
    edef('BinaryElement', 0x4FE0, 'Fixed', length='6'),
    edef('UIntegerElement', 0x4FE1, 'FixedU', length='4', multiple='1'),
    BODY]


def klass(S, st, schema, name):
    """ The element class registered under a name. """
    return one(S.method(st, schema, 'get', K(name)), 'element class')[1]


def values(S, st):
    """ A symbolic value of every leaf type: {element name: [value]}. """
    u, i, x, d = Sym('u', 'int'), Sym('i', 'int'), Sym('x', 'float'), Sym('us', 'int')
    st.facts.restrict(u, 256, 65535)
    st.facts.restrict(i, -32768, -129)
    st.facts.restrict(d, -(1 << 40), 1 << 40)
    st.facts.tr[Op('eq', (x, K(0.0)), 'bool')] = False
    s, t, b = Sym('s', 'str'), Sym('t', 'str'), Sym('b', 'bytes')
    for y in (s, t):
        st.facts.tr[Op('has', (y, K('\0')), 'bool')] = False
    st.facts.tr[Op('printable', (s,), 'bool')] = True
    st.facts.restrict(mklen(s), 1, 100)
    st.facts.restrict(mklen(Op('encodestr', (t, K('utf-8')), 'bytes')), 1, 100)
    st.facts.restrict(mklen(b), 1, 100)
    return {'U': u, 'I': i, 'F': x, 'D': Desc('dt', d), 'S': s, 'T': t, 'B': b, 'P': b, 'Crc': b, 'FixedU': u}


def dictref(S, st, pairs):
    return S.ip.alloc(st, Obj('dict', data=tuple((k if not isinstance(k, str) else K(k), v) for k, v in pairs)))


def listref(S, st, items):
    return S.ip.alloc(st, Obj('list', data=tuple(items)))


def split(S, st, data, where, name):
    """ Read one element's frame off abstract bytes: outcomes
        (state, id, id length, size, size length, stream). """
    stream = new_stream(S.ip, st, 'mem', content=M.deref(st, data))
    out = []
    for s, v in S.normal(S.call(st, DEC + 'readElementID', stream), name, where):
        for s2, v2 in S.normal(S.call(s, DEC + 'readElementSize', stream), name, where):
            if type(v) is Tup and type(v2) is Tup:
                out.append((s2, v.items[0], v.items[1], v2.items[0], v2.items[1], stream))
            else:
                S.undecided(s2, name, where, 'frame not determined')
    return out


def framed(S, st, data, eid, payload, where, name, sizelen=None, infinite=False, last=True):
    """ data is exactly one element: ID, size of payload, payload. """
    payload = M.deref(st, payload)
    for s, i, il, n, nl, stream in split(S, st.clone(), data, where, name):
        S.eq(s, i, K(eid), name + ': ID', where, 'ID')
        if infinite:
            S.eq(s, n, NONE, name + ': unknown size', where, 'size')
        else:
            S.eq(s, n, bytes_len(payload), name + ': size is the payload\'s', where, 'size')
        if sizelen is not None:
            S.eq(s, nl, K(sizelen), name + ': size has the given length', where, 'size length')
        S.eq(s, bytes_len(M.deref(s, data)), add(add(il, nl), bytes_len(payload)), name + ': nothing but the frame and payload',
             where, 'length')
        for s2, rest in S.normal(S.method(s, stream, 'read'), name, where):
            S.eq(s2, rest, payload, name + ': payload', where, 'payload')


def payload_of(S, st, cls, v, length=None):
    """ Outcomes of the class's own payload encoder. """
    out = []
    for s, sig, f in S.ip.getattr_(st, cls, 'encodePayload'):
        out.extend(S.call(s, f, v, **({} if length is None else {'length': length})))
    return out


def encode(S, st, cls, v, **kw):
    out = []
    for s, sig, f in S.ip.getattr_(st, cls, 'encode'):
        out.extend(S.call(s, f, v, **{k: x if not isinstance(x, (int, bool)) else K(x) for k, x in kw.items()}))
    return out


def cat(st, *parts):
    """ Concatenated abstract bytes. """
    segs = []
    for p in parts:
        p = M.deref(st, p)
        segs.extend(segs_of(p))
    return mkbs(segs)
