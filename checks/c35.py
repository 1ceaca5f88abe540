""" C35: every way to read, write and convert a document gives the same. """

from .xmllib import *
from .oplib import digest, differ, CODEC
from .c15 import deep
from .c24 import Tree
from .c31 import Data, TREES as DATA
from .fslib import Disk, SMALL, set_paths, path_of
from .enclib import listref

RULE = ('Abstract interpretation of each entry point over the same operands: loading one abstract document (symbolic '
        'contents) from memory, an open file, a file name, a Path and a thread-aware file, by load(), loads(), a call and '
        'the document class; encoding one tree of symbolic data to a stream and to a string, as dictionaries and as lists of '
        'pairs; converting one XML tree given as element, tree, name, Path and stream, to an open stream and to a file by '
        'name, with the schema itself and its name; loadXml() by each of its kinds of storage. The abstract results '
        '(elements with geometry and values, information, name and size; bytes) must be equal.')
LEVEL = 'other'

ELS = 'a document has the same elements whichever way it is loaded'
INFO = 'a document has the same information whichever way it is loaded'
NAME = 'a document is named as asked, after its file, or after its class'
SIZE = 'the size of a document is that of its data'
SAME = 'encoding writes the same bytes whichever way it is done'
BACK = 'loading XML is converting it and loading the result'
XSAME = 'XML is converted to the same bytes whichever way it is given'
REFUSE = 'unknown elements are refused whichever way XML is given'
COUNTS = 'the same number of bytes is returned whichever way XML is given'

LOAD, ENCODE, LOADXML = CORE + 'Document.__init__', CORE + 'Document.encode', UTIL + 'loadXml'
FNAME = '/data/some.file.ebml'

TREES = {
    'header and master': [('EBML', ['EBMLVersion', ('DocType', b'abs'), 'Void']), ('Seg', ['U', 'S', 'B', ('Sub', ['U', ('Deep', ['Lazy'])])]), 'Void'],
    'no header': [('Seg', ['U', 'I', 'F', 'D', 'T', 'P', '#9F']), ('Seg', []), 'Crc'],
    'header only': [('EBML', [('DocType', b'abs')])],
    'empty': [],
    'unknown root': ['#9F', ('Seg', [('Eager', ['U'])])],
}
WAYS = ('memory', 'open file', 'name', 'path', 'thread-aware', 'nameless file', 'numbered file', 'later', 'bytes', 'buffer')
HOWS = ('load', 'call', 'loads', 'document')


def run(C):
    for t in TREES:
        for way in WAYS:
            for how in HOWS:
                for name in (None, 'given'):
                    if (how == 'loads') != (way in ('buffer', 'bytes')):
                        continue
                    C.scenario('%s, %s, from %s, name %s' % (t, how, way, name), loading, TREES[t], how, way, name)
    for t in ('header and master', 'no header'):
        for h in (True, False):
            for way in ('memory', 'open file', 'name', 'path', 'thread-aware'):
                for how in ('load', 'document'):
                    C.scenario('%s, %s, from %s, headers %s' % (t, how, way, h), loading, TREES[t], how, way, None, h)
        for way in ('memory', 'nameless file', 'numbered file', 'name', 'thread-aware'):
            for how in ('load', 'document'):
                C.scenario('%s, %s, from %s, size given' % (t, how, way), sized_load, TREES[t], how, way)
    for t in ('every type', 'repeated', 'nested', 'several roots', 'empty masters', 'nothing', 'global', 'small values'):
        for h in (True, False):
            C.scenario('encoding %s, headers %s' % (t, h), encoding, DATA[t], h)
    for t in XTREES:
        for kw in KWS:
            C.scenario('XML %s %r' % (t, kw), converting, XTREES[t], kw)
        if t in ('leaves', 'document'):
            C.scenario('XML %s, unknown elements refused' % t, refusing, XTREES[t] if t == 'leaves' else XTREES[t] + ['#9F'])
        for store in ('memory', 'temporary', 'name', 'path', 'stream', 'stream with data'):
            for src in ('element', 'tree', 'name'):
                C.scenario('loadXml %s, %s, by %s' % (t, store, src), load_xml, XTREES[t], store, src)


# ------------------------------------------------------------------ loading
class Files(Disk):
    """ Files written are read back; and one that is there. """

    def __init__(self, S, data=None):
        super().__init__({'/schemata/abs.xml': ABS, FNAME: (), '/data/in.xml': ()}, dirs=('/out',))
        self.S, self.data, self.root = S, data, None

    def filedata(self, st, path):
        if self.data is not None and self.path(path) == FNAME:
            return M.deref(st, self.data)
        # the file's last writer
        for e in reversed(st.event_list()):
            if e[0] == 'open' and type(e[1]) is Ref and e[2] == path and e[1].oid in st.heap and st.get(e[1]).info.get('role') == 'out':
                return M.deref(st, st.get(e[1]).data)
        return None

    def open_fails(self, st, path, mode):
        return None

    def pathq(self, st, op, p):
        if self.path(p) is None:
            return True if op in ('exists', 'isfile') else False
        r = super().pathq(st, op, p)
        return r

    def xmlparse(self, ip, st, src):
        k = src.parts[0] if type(src) is Desc else src
        if type(k) is Ref and st.get(k).kind == 'stream':
            k = st.get(k).info.get('name', k)
        if k == K('/data/in.xml'):
            return self.root
        return super().xmlparse(ip, st, src)

    def cfg(self):
        return dict(super().cfg(), filedata=self.filedata, peel=40, recursion=16)


def prepare(S, tree):
    st, schema = S.w.with_schema(peel=40)
    data = M.deref(st, Encoder(S, st, textlen=7).tree(tree)) if tree is not None else None
    disk = Files(S, data)
    S.ip.cfg.update(disk.cfg())
    return st, schema, data, disk


def source(S, st, way, data):
    """ What to load from: (argument, size known, name it gives). """
    mem = lambda **kw: new_stream(S.ip, st, 'mem', content=data, **kw)
    if way == 'memory':
        return mem(), True, None
    if way == 'bytes':
        return data, True, None
    if way == 'buffer':
        return S.ip.alloc(st, Obj('bytearray', data=data)), True, None
    if way == 'open file':
        return mem(cls='io.BufferedReader', name=K(FNAME)), True, 'some.file'
    if way == 'nameless file':
        return mem(cls='io.BufferedReader', name=K('')), False, None
    if way == 'numbered file':
        return mem(cls='io.BufferedReader', name=K(7)), False, None
    if way == 'name':
        return K(FNAME), True, 'some.file'
    if way == 'path':
        return path_of(S, st, FNAME), True, 'some.file'
    if way == 'thread-aware':
        return one(S.call(st, 'ebmlite.threaded_file.ThreadAwareFile', K(FNAME), K('rb')), 'file')[1], True, 'some.file'
    raise AnalysisError(way)


def opened(S, st, schema, src, how, kw):
    if how == 'document':
        return S.ip.bind(S.get(st, schema, 'document'), lambda s, c: S.call(s, c, src, **kw))
    if how == 'call':
        return S.call(st, schema, src, **kw)
    return S.ip.bind(S.get(st, schema, how), lambda s, f: S.ip.call(s, f, Call([src], kw)))


def digests(S, st, doc, where):
    """ [(state, elements, information)]. """
    out = []
    for s, lst in S.normal(S.listof(st, doc), ELS, where):
        for s2, info in S.normal(S.get(s, doc, 'info'), INFO, where):
            out.append((s2, deep(S, s2, lst), digest(s2, info)))
    return out


def agree(S, st, a, b, name, where, what):
    r = differ(st.facts, a, b)
    if r is None:
        S.holds(st, name, where)
    elif r[1] == 'ne':
        S.violated(st, name, where, '%s: %s differs' % (what, r[0]))
    else:
        S.undecided(st, name, where, '%s: %s not determined' % (what, r[0]))


def loading(S, tree, how, way, name, headers=None):
    st, schema, data, disk = prepare(S, tree)
    later = way == 'later'
    kw = {} if headers is None else {'headers': K(headers)}
    if headers is None and how == 'document':
        kw = {'headers': FALSE}
    s0, ref = S.pick(S.method(st, schema, 'load', mem(S, st, data), **({} if headers is None else kw)), 'document')
    wants = digests(S, s0, ref, LOAD)
    cls = attr(S.ip, s0, attr(S.ip, s0, schema, 'document'), '__name__')
    for sw, els, info in wants:
        s = sw.clone()
        if later:
            # not at the beginning of its stream
            other = mem(S, s, cat(s, K(b'in front'), data))
            S.ip.mut(s, other).info['pos'] = K(8)
            src, sized, fname = other, False, None
        else:
            src, sized, fname = source(S, s, way, data)
        kw2 = dict(kw)
        if name is not None:
            kw2['name'] = K(name)
        where = {'load': CORE + 'Schema.load', 'call': CORE + 'Schema.__call__', 'loads': CORE + 'Schema.loads', 'document': LOAD}[how]
        S.ip.steps = 0
        for s1, doc in S.normal(opened(S, s, schema, src, how, kw2), ELS, where):
            for s2, e2, i2 in digests(S, s1, doc, where):
                if later:
                    agree(S, s2, shift(els, 8, s2), e2, ELS, where, 'from the middle of a stream')
                else:
                    agree(S, s2, els, e2, ELS, where, 'from %s' % way)
                agree(S, s2, info, i2, INFO, where, 'from %s' % way)
            for s2, v in S.normal(S.get(s1, doc, 'name'), NAME, where):
                S.eq(s2, v, K(name or fname) if name or fname else cls, NAME, where, 'name')
            if sized:
                for s2, v in S.normal(S.get(s1, doc, 'size'), SIZE, where):
                    S.eq(s2, v, bytes_len(data), SIZE, where, 'size')


def sized_load(S, tree, how, way):
    """ A size that is given is the document's, and changes nothing else. """
    st, schema, data, disk = prepare(S, tree)
    size = Sym('size', 'int')
    st.facts.restrict(size, lo=1)
    where = CORE + 'Schema.load' if how == 'load' else LOAD
    s0, ref = S.pick(S.method(st, schema, 'load', mem(S, st, data), headers=TRUE), 'document')
    for s, els, info in digests(S, s0, ref, LOAD):
        src = source(S, s, way, data)[0]
        S.ip.steps = 0
        for s1, doc in S.normal(opened(S, s, schema, src, how, {'headers': TRUE, 'size': size}), SIZE, where):
            for s2, v in S.normal(S.get(s1, doc, 'size'), SIZE, where):
                S.eq(s2, v, size, SIZE, where, 'size given')
            for s2, e2, i2 in digests(S, s1, doc, where):
                agree(S, s2, els, e2, ELS, where, 'with a size given')
                agree(S, s2, info, i2, INFO, where, 'with a size given')


def mem(S, st, data):
    return new_stream(S.ip, st, 'mem', content=data)


def shift(d, n, st):
    """ The same elements, n bytes further on. """
    if type(d) is tuple and d[:1] == ('instance',) and len(d) >= 5:
        return d[:2] + (add(d[2], K(n)), d[3], add(d[4], K(n))) + tuple(shift(x, n, st) for x in d[5:])
    if type(d) is tuple:
        return d[:1] + tuple(shift(x, n, st) if type(x) is tuple else x for x in d[1:])
    return d


# ----------------------------------------------------------------- encoding
def as_pairs(S, st, ref):
    """ Nested dictionaries as lists of pairs. """
    o = st.get(ref)
    out = []
    for k, v in o.data:
        vs = list(st.get(v).data) if type(v) is Ref and st.get(v).kind == 'list' else [v]
        for x in vs:
            out.append(Tup([k, as_pairs(S, st, x) if type(x) is Ref and st.get(x).kind == 'dict' else x]))
    return listref(S, st, out) if out else ref


def encoding(S, tree, hd):
    st, schema = S.w.with_schema(peel=40)
    data = Data(S, st).make(tree)
    pairs = as_pairs(S, st, data)
    where = CORE + 'Schema.encode'
    for s0, want in S.normal(S.method(st.clone(), schema, 'encodes', data, headers=K(hd)), SAME, CORE + 'Schema.encodes'):
        want = M.deref(s0, want)
        for what, d in (('a dictionary', data), ('a list of pairs', pairs)):
            for s, v in S.normal(S.method(s0.clone(), schema, 'encodes', d, headers=K(hd)), SAME, CORE + 'Schema.encodes'):
                S.eq(s, M.deref(s, v), want, SAME, CORE + 'Schema.encodes', 'encoding %s' % what)
            for to in ('schema', 'document', 'default'):
                for place in ('empty', 'end', 'middle'):
                    s = s0.clone()
                    before = K(b'') if place == 'empty' else Bs([Seg('rd', K('before'), ZERO, K(40))])
                    after = K(b'') if place != 'middle' else Bs([Seg('rd', K('after'), ZERO, K(9000))])
                    out = new_stream(S.ip, s, 'mem', content=cat(s, before, after))
                    S.ip.mut(s, out).info['pos'] = bytes_len(before)
                    kw = {'headers': K(hd)} if to != 'default' or hd else {}
                    if to == 'document':
                        outs = S.ip.bind(S.get(s, schema, 'document'), lambda s1, c: S.method(s1, c, 'encode', out, d, **kw))
                    else:
                        outs = S.method(s, schema, 'encode', out, d, **kw)
                    for s2, v in S.normal(outs, SAME, where):
                        pos = s2.get(out).info['pos']
                        S.eq(s2, pos, add(bytes_len(before), bytes_len(want)), SAME, where, 'position of the stream afterwards')
                        if place == 'middle':
                            s3, head = one(S.method(s2, mem(S, s2, M.deref(s2, s2.get(out).data)), 'read', pos), 'read')
                        else:
                            s3, head = s2, M.deref(s2, s2.get(out).data)
                        S.eq(s3, head, cat(s3, before, want), SAME, where, 'encoding %s to a stream' % what)


# ---------------------------------------------------------------------- XML
XTREES = {
    'leaves': ('Seg', ['S', '#9F', 'U', 'B', 'Void', 'I', 'T', 'F', 'D'], {}),
    'nested': ('Seg', ['U', ('Sub', ['U', 'S', ('Deep', ['U', 'Lazy'], {})], {}), '#'], {}),
    'document': ['#', ('Seg', ['U', 'B'], {}), ('Seg', [], {}), 'Void'],
    'empty document': [],
}
KWS = [{}, {'sizeLength': 4}, {'headers': False}, {'headers': True, 'sizeLength': 8}, {'unknown': True}]


def xml_root(S, st, schema, spec):
    T = Tree(S, st, None)
    if not isinstance(spec, list):
        return T.make(spec)[0]
    tag = attr(S.ip, st, attr(S.ip, st, schema, 'document'), '__name__')
    return new_xml(S.ip, st, tag, (), NONE, [T.make(x)[0] for x in spec])


def xml_source(S, st, disk, root, how):
    disk.root = root
    if how == 'element':
        return root
    if how == 'tree':
        return one(S.call(st, Ext('xml.etree.ElementTree.ElementTree'), root), 'tree')[1]
    if how == 'name':
        return K('/data/in.xml')
    if how == 'path':
        return path_of(S, st, '/data/in.xml')
    return new_stream(S.ip, st, 'mem', 'io.StringIO', content=K('<xml/>'), text=True, name=K('/data/in.xml'))


def converting(S, spec, kw):
    st, schema, _, disk = prepare(S, None)
    set_paths(S, st, ['/schemata'])
    root = xml_root(S, st, schema, spec)
    kw = {k: K(v) for k, v in kw.items()}
    out = mem(S, st, K(b''))
    for s0, n in S.normal(S.call(st.clone(), XDOC, root, out, schema, **kw), XSAME, XDOC):
        want = M.deref(s0, s0.get(out).data)
        for how in ('element', 'tree', 'name', 'path', 'stream'):
            for to in ('stream', 'file', 'name', 'path'):
                for which in ('instance', 'name', 'path') if how == 'element' else ('instance',):
                    s = s0.clone()
                    src = xml_source(S, s, disk, root, how)
                    if to == 'stream':
                        dst = mem(S, s, K(b''))
                    elif to == 'file':
                        dst = one(S.call(s, Ext('builtins.open'), K('/out/x.ebml'), K('wb')), 'file')[1]
                    else:
                        dst = K('/out/x.ebml') if to == 'name' else path_of(S, s, '/out/x.ebml')
                    sch = {'instance': lambda: schema, 'name': lambda: K('abs.xml'), 'path': lambda: path_of(S, s, '/schemata/abs.xml')}[which]()
                    S.ip.steps = 0
                    mark = s.events
                    what = 'from %s to %s, schema by %s' % (how, to, which)
                    for s2, m in S.normal(S.call(s, XDOC, src, dst, sch, **kw), XSAME, XDOC):
                        S.eq(s2, m, n, COUNTS, XDOC, what)
                        if to in ('name', 'path'):
                            wr = [e for e in s2.event_list(mark) if e[0] == 'open' and type(e[1]) is Ref and s2.get(e[1]).info.get('role') == 'out']
                            if len(wr) != 1:
                                S.undecided(s2, XSAME, XDOC, '%s: %d files written' % (what, len(wr)))
                                continue
                            S.true(s2, disk.path(e_path(wr[0])) == '/out/x.ebml', XSAME, XDOC, '%s: writes %r' % (what, wr[0][2]))
                            ref = wr[0][1]
                        else:
                            ref = dst
                        S.eq(s2, M.deref(s2, s2.get(ref).data), want, XSAME, XDOC, what)


def refusing(S, spec):
    st, schema, _, disk = prepare(S, None)
    root = xml_root(S, st, schema, spec)
    for how in ('element', 'tree', 'name'):
        for to in ('stream', 'name', 'path'):
            s = st.clone()
            src = xml_source(S, s, disk, root, how)
            dst = mem(S, s, K(b'')) if to == 'stream' else K('/out/x.ebml') if to == 'name' else path_of(S, s, '/out/x.ebml')
            S.raises(S.call(s, XDOC, src, dst, schema, unknown=FALSE), 'NameError', REFUSE, XDOC)


def e_path(e):
    p = e[2]
    return p.parts[0] if type(p) is Desc and p.kind == 'path' else p


def load_xml(S, spec, store, how):
    st, schema, _, disk = prepare(S, None)
    root = xml_root(S, st, schema, spec)
    out = mem(S, st, K(b''))
    for s0, n in S.normal(S.call(st.clone(), XDOC, root, out, schema), BACK, XDOC):
        data = M.deref(s0, s0.get(out).data)
        for s1, ref in S.normal(S.method(s0, schema, 'load', mem(S, s0, data)), BACK, LOADXML):
            for sw, els, info in digests(S, s1, ref, LOADXML):
                s = sw.clone()
                src = xml_source(S, s, disk, root, how)
                args = {'memory': lambda: [K(':memory:')], 'temporary': lambda: [], 'name': lambda: [K('/out/y.ebml')],
                        'path': lambda: [path_of(S, s, '/out/y.ebml')], 'stream': lambda: [mem(S, s, K(b''))],
                        'stream with data': lambda: [mem(S, s, Bs([Seg('rd', K('before'), ZERO, K(8))]))]}[store]()
                if store == 'stream with data':
                    S.ip.mut(s, args[0]).info['pos'] = K(8)
                    els = shift(els, 8, s)
                S.ip.steps = 0
                for s2, doc in S.normal(S.call(s, LOADXML, src, schema, *args), BACK, LOADXML):
                    for s3, e2, i2 in digests(S, s2, doc, LOADXML):
                        agree(S, s3, els, e2, BACK, LOADXML, 'stored in %s' % store)
                        agree(S, s3, info, i2, BACK, LOADXML, 'stored in %s, information' % store)
