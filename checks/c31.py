""" C31: whole documents survive a round trip. """

from .xmllib import *
from .enclib import dictref, listref
from . import enclib

RULE = ('Abstract interpretation of the whole composition over structured data whose numbers, texts, dates and binary '
        'contents are symbolic: encode, load, dump, encode again - the dump must equal the data and the second encoding '
        'the first, as abstract bytes, with and without headers; and encode, load, toXml, xml2ebml, load - the dump must '
        'be that of the original document for every option that matters to it, and converting the result once more must reproduce its bytes exactly.')
LEVEL = 'other'

DUMP, ENCODE, LOAD = CORE + 'MasterElement.dump', CORE + 'Document.encode', CORE + 'Document.__init__'
SAME = 'the dump of an encoded document is the data it was encoded from'
BYTES = 'encoding the dump of an encoded document gives the same bytes'
XML = 'a document converted to XML and back has the same contents'
XORDER = 'a document converted to XML and back has its elements in the same order'
XBYTES = 'converting to XML and back again gives the same bytes'


class Data:
    """ Symbolic values, a fresh symbol each, in one class of lengths. """

    def __init__(self, S, st, big=False):
        self.S, self.st, self.n, self.big = S, st, 0, big

    def sym(self, ty):
        self.n += 1
        return Sym('%s%d' % (ty[0], self.n), ty)

    def value(self, name, arg=None):
        f = self.st.facts
        if arg is not None and not isinstance(arg, range):
            return K(arg)
        lo, hi = (300, 4000) if self.big else (5, 6 if self.S.thorough else 5)
        if arg is not None:
            lo, hi = arg[0], arg[-1]
        if name in ('U', 'Lazy'):
            x = self.sym('int')
            f.restrict(x, 256, 65535)
            return x
        if name == 'I':
            x = self.sym('int')
            f.restrict(x, -32768, -1000)
            return x
        if name == 'F':
            x = self.sym('float')
            f.tr[Op('eq', (x, K(0.0)), 'bool')] = False
            return x
        if name == 'D':
            x = self.sym('int')
            f.restrict(x, 1 << 33, 1 << 36)
            return Desc('dt', x)
        if name in ('S', 'T'):
            x = self.sym('str')
            f.tr[Op('has', (x, K('\\0')), 'bool')] = False
            f.tr[Op('has', (x, K('\0')), 'bool')] = False
            if name == 'S':
                f.tr[Op('printable', (x,), 'bool')] = True
                f.restrict(mklen(x), lo, hi)
            else:
                f.restrict(mklen(Op('encodestr', (x, K('utf-8')), 'bytes')), lo, hi)
            return x
        x = self.sym('bytes')
        f.restrict(mklen(x), lo, hi)
        return x

    def make(self, tree):
        """ Nested dictionaries from a tree of (name, contents); repeated names become lists. """
        pairs, S = [], self.S
        for x in tree:
            name, arg = x if isinstance(x, tuple) else (x, None)
            v = self.make(arg) if isinstance(arg, list) else self.value(name, arg)
            if name in MULTIPLE:
                old = next((p for p in pairs if p[0] == name), None)
                if old is None:
                    pairs.append([name, [v]])
                else:
                    old[1].append(v)
            else:
                pairs.append([name, v])
        return dictref(S, self.st, [(k, listref(S, self.st, v) if isinstance(v, list) else v) for k, v in pairs])


MASTERS = ('Seg', 'Sub', 'Deep', 'Eager')
MULTIPLE = ('Seg', 'Sub', 'U', 'I', 'B', 'Void')
LEAVES = ('U', 'I', 'F', 'S', 'T', 'D', 'B', 'P')
TREES = {
    'every type': [('Seg', ['U', 'I', 'F', 'S', 'T', 'D', 'B', 'P'])],
    'every type in another order': [('Seg', ['P', 'B', 'D', 'T', 'S', 'F', 'I', 'U', 'Crc'])],
    'repeated': [('Seg', ['U', 'U', 'U', 'B', 'B', 'F', 'I', 'I'])],
    'nested': [('Seg', ['U', ('Sub', ['U', 'S', ('Deep', ['U', 'U', ('Lazy', 70000)])]), ('Sub', [('Deep', ['U'])]), 'T'])],
    'several roots': [('Seg', ['U']), ('Seg', ['S', 'B']), ('Seg', [('Sub', ['U'])])],
    'empty masters': [('Seg', ['U', ('Sub', []), ('Sub', [('Deep', [])])]), ('Seg', [])],
    'eager': [('Seg', [('Eager', ['U', 'U']), 'P', 'D'])],
    'nothing': [],
    'small values': [('Seg', [('U', 0), ('U', 1), ('U', 255), ('I', 0), ('I', -1), ('I', 127), ('I', -128), ('F', 0.0), ('S', ''),
                              ('T', ''), ('B', b''), ('B', b'\0'), ('P', b'\xff\0')])],
    'large values': [('Seg', [('U', 2 ** 64 - 1), ('U', 2 ** 63), ('U', 2 ** 56), ('I', 2 ** 63 - 1), ('I', -2 ** 63),
                              ('I', 2 ** 31), ('F', float('-inf')), ('S', 'a & <b> "c"'), ('T', '\xe9\u20ac\U0001f600 <&>"\'')])],
    'global': ['Crc', ('Seg', ['U', 'Crc'])],
}
for _n in LEAVES:
    TREES['only ' + _n] = [('Seg', [_n])]
# lengths around those where the sizes of masters and leaves take another byte
EDGES = {'%s of %d bytes' % (_n, _i): [('Seg', [(_n, range(_i, _i + 1))])]
         for _n, _r in (('B', (*range(121, 130), *range(16376, 16386))), ('S', range(122, 129)), ('T', range(122, 129))) for _i in _r}
EDGES.update(('nested B of %d bytes' % _i, [('Seg', [('U', 0), ('Sub', [('B', range(_i, _i + 1))])])]) for _i in range(110, 130))
XOPTS = [dict(), dict(offsets=False, sizes=False, types=False, ids=False), dict(binary_codec='hex', ids=False),
         dict(sizes=False, types=False), dict(offsets=False, ids=False, binary_codec='hex')]

QUICK = ('nested', 'small values', 'large values')


def run(C):
    for n, tree in TREES.items():
        for hd in (False, True):
            C.scenario('%s, headers %s' % (n, hd), trip, tree, hd)
        for i, o in enumerate(XOPTS if C.thorough or n in QUICK else XOPTS[:3]):
            C.scenario('%s through XML, options %d' % (n, i), xtrip, tree, o)
    for n, tree in EDGES.items():
        C.scenario(n, trip, tree, False)
        C.scenario(n + ' through XML', xtrip, tree, XOPTS[0])
    for n in ('every type', 'nested', 'several roots', 'repeated'):
        C.scenario('%s, long' % n, trip, TREES[n], False, True)
        C.scenario('%s, long, through XML' % n, xtrip, TREES[n], XOPTS[0], True)


def encoded(S, st, schema, data, hd):
    return [(s, sig, M.deref(s, v) if sig == 'v' else v)
            for s, sig, v in S.method(st, schema, 'encodes', data, headers=K(hd))]


def load(S, st, schema, data, hd):
    stream = new_stream(S.ip, st, 'mem', content=M.deref(st, data))
    return S.method(st, schema, 'load', stream, headers=K(hd))


def trip(S, tree, hd, big=False):
    st, schema = S.w.with_schema(peel=40)
    d = Data(S, st, big)
    data = d.make(tree)
    for s, b in S.normal(encoded(S, st, schema, data, hd), BYTES, ENCODE):
        for s1, doc in S.normal(load(S, s, schema, b, False), SAME, LOAD):
            for s2, dump in S.normal(S.method(s1, doc, 'dump'), SAME, DUMP):
                compare_data(S, s2, dump, data, SAME, DUMP)
                for s3, b2 in S.normal(encoded(S, s2, schema, dump, hd), BYTES, ENCODE):
                    S.eq(s3, b2, b, BYTES, ENCODE, 'encoded document')
        # with the header among the elements
        if hd:
            for s1, doc in S.normal(load(S, s.clone(), schema, b, True), BYTES, LOAD):
                for s2, dump in S.normal(S.method(s1, doc, 'dump'), BYTES, DUMP):
                    for s3, b2 in S.normal(encoded(S, s2, schema, dump, False), BYTES, ENCODE):
                        S.eq(s3, b2, b, BYTES, ENCODE, 'encoded document with its header')


def compare_data(S, st, got, want, name, where):
    r = S.same(st, got, want)
    if r == 'eq':
        S.holds(st, name, where)
    elif r == 'ne':
        S.violated(st, name, where, 'dump is %s, data %s' % (S.show(st, got), S.show(st, want)))
    else:
        S.undecided(st, name, where, 'dump is %s, data %s' % (S.show(st, got), S.show(st, want)))


def order(tree):
    out = []
    for x in tree:
        out.append(x[0] if isinstance(x, tuple) else x)
        if isinstance(x, tuple) and isinstance(x[1], list):
            out.extend(order(x[1]))
    return tuple(out)


def sequence(S, st, el):
    """ States with the names of the elements below el, in order. """
    res = [(st, [])]
    for s, sig, kids in S.listof(st, el):
        res = [(s, [])]
        for k in S.items(s, kids) if sig == 'v' else ():
            nxt = []
            for s1, names in res:
                for s2, sig2, n in S.get(s1, k, 'name'):
                    if sig2 != 'v' or type(n) is not K:
                        continue
                    sub = sequence(S, s2, k) if n.v in MASTERS else [(s2, [])]
                    nxt.extend((s3, names + [n.v] + m) for s3, m in sub)
            res = nxt
        break
    return res


def through(S, st, schema, doc, opts):
    """ toXml and xml2ebml: outcomes whose value is the bytes. """
    def back(s, x):
        out = new_stream(S.ip, s, 'mem', content=K(b''))
        return [(s2, sig, M.deref(s2, s2.get(out).data) if sig == 'v' else v)
                for s2, sig, v in S.call(s, XDOC, x, out, schema, headers=FALSE)]
    return S.ip.bind(S.call(st, TOXML, doc, **{k: K(v) for k, v in opts.items()}), back)


def xtrip(S, tree, opts, big=False):
    st, schema = S.w.with_schema(peel=40)
    d = Data(S, st, big)
    data = d.make(tree)
    for s, b in S.normal(encoded(S, st.clone(), schema, data, True), XML, ENCODE):
        for s1, doc in S.normal(load(S, s, schema, b, True), XML, LOAD):
            for s2, x in S.normal(through(S, s1, schema, doc, opts), XML, XDOC):
                for s3, doc2 in S.normal(load(S, s2.clone(), schema, x, False), XML, LOAD):
                    for s4, dump in S.normal(S.method(s3, doc2, 'dump'), XML, DUMP):
                        compare_data(S, s4, dump, data, XML, XDOC)
                        for s5, names in sequence(S, s4, doc2):
                            S.true(s5, tuple(names) == order(tree), XORDER, XDOC, 'elements are %s, expected %s' % (names, order(tree)))
                for s3, doc2 in S.normal(load(S, s2.clone(), schema, x, True), XML, LOAD):
                    for s4, x2 in S.normal(through(S, s3, schema, doc2, opts), XBYTES, XDOC):
                        S.eq(s4, x2, x, XBYTES, XDOC, 'bytes converted twice')
