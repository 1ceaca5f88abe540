""" C37: the command-line tools do what the library does. """

import re

from .xmllib import *
from .oplib import digest, differ
from .c24 import Tree
from .c35 import Files, FNAME, XTREES
from .fslib import Disk, SMALL, set_paths
from .enclib import cat

RULE = ('Abstract interpretation of each tool\'s main(), with the interpreted definition of its command line, over abstract '
        'documents and XML trees with symbolic contents, for every combination of options, with an output file and without. '
        'What was written to the output, put together from every write on the path, must be what the library call gives for '
        'the same input and options: the XML tree that is serialised, the printed text, or the bytes. Nothing else may be '
        'written to it, nor to standard output when a file was named; text may only be written to text outputs, which must be '
        'UTF-8 for XML, and bytes only to binary ones.')
LEVEL = 'other'

SAME = 'a tool writes what the library gives for its input and options'
WHERE = 'output goes to the file named, else to standard output, and nowhere else'
KIND = 'text is written to text outputs and bytes to binary ones'
UTF8 = 'text files are written as UTF-8'
LINE = 'with --single, the contents of elements hold no line breaks'
ORDER = 'schemata in the paths given are listed before those in the search paths'
WORKS = 'a tool does not fail on valid input'

MAIN = 'ebmlite.tools.%s.main'
TREES = {
    'all types': [('EBML', ['EBMLVersion', ('DocType', b'abs')]), ('Seg', ['U', 'I', 'F', 'S', 'T', 'D', 'B', 'P', 'Void', '#9F', 'Crc'])],
    'nested': [('Seg', ['B', ('Sub', ['U', ('Deep', ['U', 'Lazy']), 'S']), ('Eager', ['U']), 'Void']), '#9F', ('Seg', [])],
    'large': [('Seg', [('B', 200), ('Sub', ['U', ('Deep', ['Lazy'])]), ('P', 100)])],
    'empty': [],
}
CODECS = {None: 'base64', 'base64': 'base64', 'hex': 'hex', 'ignore': 'ignore'}


def run(C):
    for t in TREES:
        for single in ((), ('-s',), ('--single',)):
            for mx in ((), ('-m',), ('--max',)):
                for enc in CODECS:
                    for out in (True, False):
                        if not C.thorough and (single == ('--single',)) != (mx == ('--max',)):
                            continue
                        C.scenario('ebml2xml %s %s %s %s, %s' % (t, single, mx, enc, 'file' if out else 'standard output'),
                                   to_xml, TREES[t], single, mx, enc, out, tools=True)
        for enc in (None, 'base64', 'hex', 'ignore'):
            for out in (True, False):
                C.scenario('view_ebml %s %s, %s' % (t, enc, 'file' if out else 'standard output'), view, TREES[t], enc, out, tools=True)
    for t in XTREES:
        for out in (True, False):
            C.scenario('xml2ebml %s, %s' % (t, 'file' if out else 'standard output'), to_ebml, XTREES[t], out, tools=True)
    for paths in ([], ['/more'], ['/more', '/q'], ['/none'], ['/p', '/more']):
        for rel in ((), ('-r',), ('--relative',)):
            for out in (True, False):
                C.scenario('list_schemata %s %s, %s' % (paths, rel, 'file' if out else 'standard output'), listing, paths, rel, out, tools=True)


# ------------------------------------------------------------------- output
def outputs(S, st, mark):
    """ [(kind, name, abstract contents, info)] of everything written. """
    out, std = [], {}
    for e in st.event_list(mark):
        if e[0] == 'open' and type(e[1]) is Ref and st.get(e[1]).info.get('role') == 'out':
            o = st.get(e[1])
            out.append(('file', o.info['name'], M.deref(st, o.data), o.info))
        elif e[0] == 'stdio' and e[2] == 'write':
            std.setdefault(e[1], []).append(M.deref(st, e[3][-1]))
        elif e[0] == 'print':
            f = e[2]
            n = 'stderr' if type(f) is Ext and f.name.endswith('stderr') else 'stdout'
            std.setdefault(n, []).append(None)
        elif e[0] == 'serialize' and len(e[2]) and type(e[2][0]) is Ext:
            std.setdefault('stdout', []).append(None)
    return out + [('std', n, join(st, v), {}) for n, v in std.items()]


def join(st, parts):
    if None in parts:
        return None
    if len(parts) == 1:
        return parts[0]
    parts = [p for p in parts if p not in (K(''), K(b''))]
    try:
        if all(type(p) is K and isinstance(p.v, bytes) for p in parts) or any(st.facts.typeof(p) == 'bytes' for p in parts):
            return cat(st, *parts)
        return mkbs([g for p in parts for g in segs_of(p, True)], True)
    except (AnalysisError, AttributeError, TypeError):
        return None


def written(S, st, mark, tool, to_file, binary):
    """ The abstract contents of the output, or None. """
    where = MAIN % tool
    outs = [o for o in outputs(S, st, mark) if o[:2] not in (('std', 'stderr'),)]
    wants = ('file', None) if to_file else ('std', 'stdout.buffer' if binary else 'stdout')
    ok = [o for o in outs if o[0] == wants[0] and (wants[1] is None or o[1] == wants[1])]
    rest = [o for o in outs if o not in ok]
    for o in rest:
        if o[0] == 'std' and o[1].split('.')[0] == 'stdout' and not to_file:
            S.violated(st, KIND, where, 'writes %s to sys.%s' % ('bytes' if binary else 'text', o[1]))
        else:
            S.violated(st, WHERE, where, 'writes to %s' % (o[1] if type(o[1]) is str else repr(o[1])))
    if rest:
        return None
    if not ok:
        return K(b'') if binary else K('')
    if len(ok) != 1:
        S.undecided(st, WHERE, where, '%d outputs' % len(ok))
        return None
    kind, name, data, info = ok[0]
    if to_file:
        S.true(st, name == K('/out/new'), WHERE, where, 'writes %r' % (name,))
        S.true(st, bool(info.get('text')) != binary, KIND, where, 'output opened in mode %r' % (info.get('mode'),))
        if not binary and tool != 'list_schemata':
            enc = info.get('encoding')
            if type(enc) is K:
                S.true(st, isinstance(enc.v, str) and enc.v.lower().replace('_', '-') in ('utf-8', 'utf8'), UTF8, where,
                       'opened with encoding %r' % (enc.v,))
            else:
                S.undecided(st, UTF8, where, 'encoding not determined')
    if data is None:
        S.undecided(st, SAME, where, 'what is written is not determined')
    return data


def start(S, argv, data=None, spec=None):
    st, schema = S.w.with_schema(peel=40)
    disk = Files(S, None)
    if data is not None:
        disk.data = M.deref(st, Encoder(S, st, textlen=7).tree(data))
    S.ip.cfg.update(disk.cfg())
    S.ip.cfg.update(env=lambda *a: None, argv=[K(a) for a in argv], home='/home/user')
    set_paths(S, st, ['/schemata'])
    if spec is not None:
        if isinstance(spec, list):
            # the tool loads the schema by itself: its document's name
            disk.root = new_xml(S.ip, st, 'AbsDocument', (), NONE, [Tree(S, st, None).make(x)[0] for x in spec])
        else:
            disk.root = Tree(S, st, None).make(spec)[0]
    return st, disk


def the_schema(S, st):
    return one(S.call(st, CORE + 'loadSchema', K('/schemata/abs.xml')), 'schema')


def compare_text(S, st, got, want, where, what):
    S.eq(st, got, want, SAME, where, what)


# -------------------------------------------------------------------- tools
def args_of(out, opts, inp):
    return list(opts) + (['-o', '/out/new'] if out else []) + [inp, '/schemata/abs.xml']


def codec_of(S, st, name, **kw):
    table = dict((k.v, v) for k, v in st.get(S.ip.resolve(st, 'ebmlite.xml_codecs.BINARY_CODECS')).data)
    return one(S.ip.call(st, M.deref(st, table[name]), Call([], kw)), 'codec')


def to_xml(S, tree, single, mx, enc, out):
    where = MAIN % 'ebml2xml'
    opts = list(single) + list(mx) + (['-e', enc] if enc else [])
    st, disk = start(S, args_of(out, opts, FNAME), tree)
    mark = st.events
    for s, v in S.normal(S.call(st, where), WORKS, where):
        got = written(S, s, mark, 'ebml2xml', out, bool(single))
        if got is None:
            continue
        x = source_of(got)
        if x is None:
            S.undecided(s, SAME, where, 'what is serialised is not determined: %s' % S.show(s, got))
            continue
        s, schema = the_schema(S, s)
        s, codec = codec_of(S, s, CODECS[enc], **({'cols': NONE} if single else {}))
        on = K(bool(mx))
        S.ip.steps = 0
        for s1, doc in S.normal(S.method(s, schema, 'load', K(FNAME), headers=TRUE), WORKS, where):
            for s2, y in S.normal(S.call(s1, TOXML, doc, offsets=on, sizes=on, types=on, ids=on, binary_codec=codec), WORKS, where):
                r = differ(s2.facts, digest(s2, y), digest(s2, x))
                if r is None:
                    S.holds(s2, SAME, where)
                elif r[1] == 'ne':
                    S.violated(s2, SAME, where, 'the XML differs at %s' % r[0])
                else:
                    S.undecided(s2, SAME, where, 'the XML at %s' % r[0])
        if single:
            S.true(s, not breaks(s, x), LINE, where, 'the contents of %s hold one' % breaks(s, x))


def source_of(t):
    """ The XML element that some text is the serialisation of. """
    while type(t) is Bs and len(t.segs) == 1:
        g = t.segs[0]
        if g.kind != 't':
            return None
        t = g.a[0]
    while type(t) is Op and t.op in ('domtext', 'encodestr', 'decodestr', 'tostring'):
        t = t.args[0]
    return t if type(t) is Ref else None


def breaks(st, x):
    t = st.get(x).attrs['text']
    if type(t) in (K, Bs) and any(g.kind == 'lit' and '\n' in str(g.a[0]) for g in segs_of(t, True)) if t != NONE else False:
        return st.get(x).attrs['tag']
    for y in xmlkids(st, x):
        r = breaks(st, y)
        if r:
            return r
    return None


def view(S, tree, enc, out):
    where = MAIN % 'view_ebml'
    st, disk = start(S, args_of(out, ['-e', enc] if enc else [], FNAME), tree)
    mark = st.events
    for s, v in S.normal(S.call(st, where), WORKS, where):
        got = written(S, s, mark, 'view_ebml', out, False)
        if got is None:
            continue
        s, schema = the_schema(S, s)
        s, codec = codec_of(S, s, enc or 'ignore')
        S.ip.steps = 0
        for s1, doc in S.normal(S.method(s, schema, 'load', K(FNAME), headers=TRUE), WORKS, where):
            to = new_stream(S.ip, s1, 'mem', 'io.StringIO', text=True, content=K(''))
            for s2, _ in S.normal(S.call(s1, PPRINT, doc, out=to, binary_codec=codec), WORKS, where):
                S.eq(s2, got, M.deref(s2, s2.get(to).data), SAME, where, 'text')


def to_ebml(S, spec, out):
    where = MAIN % 'xml2ebml'
    st, disk = start(S, args_of(out, [], '/data/in.xml'), None, spec)
    disk.files['/data/in.xml'] = ()
    mark = st.events
    for s, v in S.normal(S.call(st, where), WORKS, where):
        got = written(S, s, mark, 'xml2ebml', out, True)
        if got is None:
            continue
        s, schema = the_schema(S, s)
        S.ip.steps = 0
        to = new_stream(S.ip, s, 'mem', content=K(b''))
        for s1, _ in S.normal(S.call(s, XDOC, disk.root, to, schema), WORKS, where):
            S.eq(s1, got, M.deref(s1, s1.get(to).data), SAME, where, 'bytes')


def listing(S, paths, rel, out):
    where = MAIN % 'list_schemata'
    st, _ = start(S, list(rel) + (['-o', '/out/new'] if out else []) + paths)
    disk = Disk(['/p/a.xml', '/q/b.xml', '/more/a.xml', '/more/c.xml'], dirs=('/out',))
    S.ip.cfg.update(disk.cfg(), open_fails=lambda st, p, mode: None if 'w' in mode.v else disk.open_fails(st, p, mode))
    set_paths(S, st, ['', '/p'])
    mark = st.events
    for s, v in S.normal(S.call(st, where), WORKS, where):
        got = written(S, s, mark, 'list_schemata', out, False)
        if got is None:
            continue
        S.ip.steps = 0
        to = new_stream(S.ip, s, 'mem', 'io.StringIO', text=True, content=K(''))
        from .enclib import listref
        for s1, _ in S.normal(S.call(s, UTIL + 'printSchemata', listref(S, s, [K(p) for p in paths]), to, absolute=K(not rel)), WORKS, where):
            S.eq(s1, got, M.deref(s1, s1.get(to).data), SAME, where, 'text')
            for p in set(paths) & {'/more', '/q', '/p'}:
                t = got.v if type(got) is K else None
                name = {'/more': 'c.xml', '/q': 'b.xml', '/p': 'a.xml'}[p]
                S.true(s1, None if t is None else name in t, SAME, where, 'schemata in %s are not listed' % p)
            if type(got) is K:
                want = ['%s/a.xml' % p for p in paths + ['/p'] if p in ('/p', '/more')]
                found = [w for w in re.split(r'\s+', got.v) if w in want]
                S.true(s1, found == want, ORDER, where, 'files are listed as %r, but are searched in the order %r' % (found, want))
            else:
                S.undecided(s1, ORDER, where, 'the text is not known')
