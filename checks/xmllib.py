""" Shared parts of the XML conversion checks: abstract encoded documents
    built from trees, XML trees, and encodings read back. """

from .doclib import *
from .enclib import cat, split, framed
from .schemalib import dict_items

UTIL = 'ebmlite.util.'
TOXML, X2E, XDOC, PPRINT = UTIL + 'toXml', UTIL + 'xmlElement2ebml', UTIL + 'xml2ebml', UTIL + 'pprint'
IDS = {'EBML': 0x1A45DFA3, 'EBMLVersion': 0x4286, 'EBMLReadVersion': 0x42F7, 'DocType': 0x4282, 'DocTypeVersion': 0x4287,
       'DocTypeReadVersion': 0x4285, 'Seg': 0x81, 'Sub': 0x89, 'Deep': 0x8B, 'Eager': 0x8C, 'Lazy': 0x8D, 'Crc': 0xBF}
IDS.update(KINDS)
TYPES = {'U': 'UIntegerElement', 'I': 'IntegerElement', 'F': 'FloatElement', 'S': 'StringElement', 'T': 'UnicodeElement',
         'D': 'DateElement', 'B': 'BinaryElement', 'P': 'BinaryElement', 'Crc': 'BinaryElement', 'Void': 'VoidElement',
         'Lazy': 'UIntegerElement', 'Seg': 'MasterElement', 'Sub': 'MasterElement'}
SIZES = {'U': 2, 'I': 2, 'F': 8, 'D': 8, 'B': 5, 'P': 6, 'Void': 3, 'Lazy': 3, 'Crc': 4}


def eid_bytes(eid):
    return eid.to_bytes((eid.bit_length() + 7) // 8, 'big')


def size_bytes(n, width=None):
    w = width or next(i for i in range(1, 9) if n < (1 << (7 * i)) - 1)
    return (n | (1 << (7 * w))).to_bytes(w, 'big')


class Encoder:
    """ Encoded abstract bytes from a tree: a leaf is a name or (name, size
        or bytes), a master (name, [children]); a name '#9F' stands for the
        unknown ID 0x9F. """

    def __init__(self, S, st, width=None, textlen=None, dates=True):
        self.S, self.st, self.width, self.textlen, self.n, self.dates = S, st, width, textlen, 0, dates

    def some(self, name, n):
        if isinstance(n, bytes):
            return K(n)
        if not isinstance(n, int) and n is not None:
            return n
        self.n += 1
        if name in ('S', 'T') and n is None:
            enc = 'ascii' if name == 'S' else 'utf-8'
            x = Sym('text%d' % self.n, 'str')
            self.st.facts.tr[Op('has', (x, K('\0')), 'bool')] = False
            if name == 'S':
                self.st.facts.tr[Op('printable', (x,), 'bool')] = True
            body = Op('encodestr', (x, K(enc)), 'bytes')
            ln = mklen(x) if name == 'S' else mklen(body)
            self.st.facts.restrict(ln, self.textlen or 1, self.textlen or 100)
            if self.S.concrete:
                return K(('text %d' % self.n + ('' if name == 'S' else ' \xe9<&>')).encode(enc))
            return Bs([Seg('t', body, ln)])
        n = SIZES.get(name, 4) if n is None else n
        if self.S.concrete:
            return K(bytes(17 + (self.n * 31 + i * 13) % 100 for i in range(n)))
        if self.textlen and name in ('U', 'I', 'D', 'Lazy') and n > 1:
            # of a known magnitude, to keep the paths of large trees few
            return mkbs([Seg('lit', b'\x01'), Seg('rd', K('payload%d' % self.n), ZERO, K(n - 1))])
        src = K('payload%d' % self.n)
        if name == 'D':
            # not within a microsecond of the first representable date
            b = byte_at(src, ZERO)
            self.st.facts.restrict(b, *((0, 127) if self.dates else (129, 255)))
        return mkbs([Seg('rd', src, ZERO, K(n))])

    def tree(self, tree):
        out = K(b'')
        for x in tree:
            name, arg = x if isinstance(x, tuple) else (x, None)
            if isinstance(arg, list):
                body = self.tree(arg)
            else:
                body = self.some(name, arg)
            eid = int(name[1:], 16) if name.startswith('#') else IDS[name]
            n = self.st.facts.const(bytes_len(body))
            out = cat(self.st, out, K(eid_bytes(eid)), self.size(n, body), body)
        return out

    def size(self, n, body):
        if n is not None:
            return K(size_bytes(n, self.width))
        return Bs([Seg('ube', add(bytes_len(body), K(0x4000)), 2)])


def loaded(S, st, schema, data):
    """ A document over encoded bytes. """
    stream = new_stream(S.ip, st, 'mem', content=M.deref(st, data))
    return S.pick(S.method(st, schema, 'load', stream, headers=TRUE), 'document')


def kids_of(S, st, el, where, name):
    """ Children of a document or master element: [(state, items)]. """
    out = []
    for s, v in S.normal(S.listof(st, el), name, where):
        its = S.items(s, v)
        if its is None:
            S.undecided(s, name, where, 'children not determined')
        else:
            out.append((s, its))
    return out


def xattrs(st, x):
    """ Attributes of an abstract XML element: {name: value}, or None. """
    its = dict_items(st, st.get(x).attrs['attrib'])
    if its is None:
        return None
    return {k.v: v for k, v in its if type(k) is K}


def xmlkids(st, x):
    return list(st.get(x).data)
