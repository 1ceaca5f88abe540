""" C36: what is written about a document describes it. """

import re
from .xmllib import *
from .fslib import Disk
from .c23 import TREES as NESTED, isa, pprint_text

RULE = ('Abstract interpretation of toXml() and pprint() over abstract documents with symbolic contents. The XML must hold '
        'exactly one element for each element of the document, in order and nested like them, named and attributed with '
        'what the element itself reports (name, ID, offset, size, type, value); the text must have a line for each in '
        'document order, holding the element\'s offset, size, name, ID, type or number of children, and deeper for children '
        'than for their parent. The document itself: its class, source, schema, name and type.')
LEVEL = 'other'

TREE = 'the XML has one element for each element, in order, nested alike'
TAG = 'XML elements are named after their elements'
ATTRS = 'XML attributes are what the element reports'
VALUE = 'the value attribute is the value as text'
DOC = 'a document is described by its class, source and schema'
LINE = 'there is a line for each element, in document order'
FIELDS = 'a line holds the offset, size, name, ID and type of its element'
DEPTH = 'lines of children are indented more than their parent\'s'
COUNT = 'the line of a master tells how many children it has'
DONE = 'describing a document does not raise'

TREES = dict(NESTED, **{
    'empty': [],
    'empty masters': [('Seg', []), ('Seg', [('Sub', []), ('Sub', [('Deep', [])])]), ('EBML', [])],
    'unknown roots': ['#9F', '#4FFF', ('Seg', ['#A0', ('Sub', ['#9E'])]), 'Void'],
    'large': [('Seg', [('B', 200), ('Sub', ['U', ('Deep', ['Lazy'])]), ('P', 100)])],
    'header': [('EBML', ['EBMLVersion', ('DocType', b'abs'), 'Void']), ('Seg', ['B'])],
    'named header': [('EBML', [('DocType', b'other')]), ('Seg', ['U'])],
})
# the default document type is not the schema's name
DEFS = [edef('MasterElement', 0x1A45DFA3, 'EBML', [d if d[2] != 'DocType' else edef('StringElement', 0x4282, 'DocType', default='some type')
                                                   for d in HEADER[4]])] + ABS[1:]
SCHEMAFILE = '/schemata/the schema.xml'
LATER = 'not at the start'
OPTS = [{}, {'binary_codec': 'hex', 'void_codec': 'hex'}, {'binary_codec': 'ignore'}]


def run(C):
    for t in TREES:
        for name in (None, '/data/some.file.ebml', LATER):
            for where in ('whole', 'parent', 'element'):
                for o in OPTS if C.thorough or where == 'whole' else OPTS[:1]:
                    if name is None or where == 'whole':
                        C.scenario('XML of %s, %s, %s %r' % (t, name or 'memory', where, o), xml, TREES[t], name, where, o)
            if t != 'recursive' or not name:
                for values in (True, False):
                    C.scenario('print of %s, %s, %s' % (t, name or 'memory', values), printed, TREES[t], name, values)


def document(S, tree, name):
    later = name == LATER
    if name and not later:
        st = S.w.fresh(peel=40, recursion=16)
        S.ip.cfg.update(Disk({SCHEMAFILE: DEFS}).cfg(), peel=40, recursion=16)
        (st, schema), = S.normal(S.call(st, CORE + 'loadSchema', K(SCHEMAFILE)), DONE, CORE + 'loadSchema')
    else:
        st, schema = S.w.with_schema(DEFS, peel=40, recursion=16)
    data = M.deref(st, Encoder(S, st, textlen=7).tree(tree))
    if later:
        data = mkbs([Seg('rd', K('before'), ZERO, K(5))] + list(segs_of(data, False)))
    stream = new_stream(S.ip, st, 'mem', content=data, **({'name': K(name)} if name and not later else {}))
    if later:
        S.ip.mut(st, stream).info['pos'] = K(5)
    st, doc = S.pick(S.method(st, schema, 'load', stream, headers=TRUE), 'document')
    return st, schema, doc


def told(S, st, el, name, rule, where):
    return S.normal(S.get(st, el, name), rule, where)


# --------------------------------------------------------------------- XML
def xml(S, tree, name, how, opts):
    st, schema, doc = document(S, tree, name)
    kw = {k: K(v) for k, v in opts.items()}
    if how == 'whole':
        for s, x in S.normal(S.call(st, TOXML, doc, **kw), DONE, TOXML):
            described(S, s, doc, x, schema, SCHEMAFILE if name and name != LATER else '')
        return
    for s, kids in kids_of(S, st, doc, TOXML, TREE):
        for el in kids:
            s1 = s.clone()
            parent = new_xml(S.ip, s1, 'Parent', [('a', '1')], K('text'), [new_xml(S.ip, s1, 'Old', [], NONE, [])]) if how == 'parent' else None
            for s2, x in S.normal(S.call(s1, TOXML, el, *([parent] if parent else []), **kw), DONE, TOXML):
                if parent is not None:
                    xs = xmlkids(s2, parent)
                    S.true(s2, len(xs) == 2 and xs[1] == x, TREE, TOXML, 'the new element is not the last of the parent given')
                described(S, s2, el, x, schema)


def described(S, st, el, x, schema, fname=None):
    """ An XML element describes an element, and all below it. """
    S.ip.steps = 0
    a = xattrs(st, x)
    tag = st.get(x).attrs['tag']
    if a is None:
        return S.undecided(st, ATTRS, TOXML, 'attributes not determined')
    if isa(S, st, el, 'Document'):
        cls = S.ip.type_of(st, el)
        S.eq(st, tag, attr(S.ip, st, cls, '__name__'), DOC, TOXML, 'tag')
        for k, o, n in (('source', el, 'filename'), ('schemaName', schema, 'name'), ('schemaFile', schema, 'filename')):
            v = attr(S.ip, st.clone(), o, n)
            if k == 'schemaFile':
                v = K(fname)
            if k in a:
                S.eq(st, a[k], v, DOC, TOXML, k)
            else:
                S.violated(st, DOC, TOXML, 'no attribute %s' % k)
    else:
        S.eq(st, tag, attr(S.ip, st.clone(), el, 'name'), TAG, TOXML, 'tag')
        i = attr(S.ip, st.clone(), el, 'id')
        S.true(st, 'id' in a, ATTRS, TOXML, 'no id attribute')
        if type(i) is K and type(a.get('id')) is K:
            S.true(st, number(a['id'].v, 16) == i.v, ATTRS, TOXML, 'id is %s, not 0x%X' % (a['id'].v, i.v))
        (s, d), = told(S, st.clone(), el, 'dtype', ATTRS, TOXML)
        (s, d), = told(S, s, d, '__name__', ATTRS, TOXML)
        S.true(st, 'type' in a, ATTRS, TOXML, 'no type attribute')
        if 'type' in a:
            S.eq(s, a['type'], d, ATTRS, TOXML, 'type')
    for k in ('offset', 'size'):
        for s, v in told(S, st.clone(), el, k, ATTRS, TOXML):
            for s2, t in S.normal(S.call(s, Ext('builtins.str'), v), ATTRS, TOXML):
                if k in a:
                    S.eq(s2, a[k], t, ATTRS, TOXML, k)
                else:
                    S.violated(s2, ATTRS, TOXML, 'no %s attribute' % k)
    if isa(S, st, el, 'MasterElement'):
        for s, kids in kids_of(S, st, el, TOXML, TREE):
            xs = xmlkids(s, x)
            S.true(s, len(kids) == len(xs), TREE, TOXML, '%d XML elements for %d elements' % (len(xs), len(kids)))
            for k, y in zip(kids, xs):
                described(S, s.clone(), k, y, schema)
        return
    S.true(st, not xmlkids(st, x), TREE, TOXML, 'children of a leaf')
    if not isa(S, st, el, 'BinaryElement'):
        for s, v in told(S, st.clone(), el, 'value', VALUE, TOXML):
            for s2, t in S.normal(S.call(s, Ext('builtins.str'), v), VALUE, TOXML):
                if 'value' in a:
                    S.eq(s2, a['value'], t, VALUE, TOXML, 'value')
                else:
                    S.violated(s2, VALUE, TOXML, 'no value attribute')


def number(t, base):
    try:
        return int(t, base)
    except (ValueError, TypeError):
        return None


# -------------------------------------------------------------------- text
def printed(S, tree, name, values):
    st, schema, doc = document(S, tree, name)
    for s, lines in pprint_text(S, st, doc, {'values': K(values)}):
        for s2, rest in walk(S, s, doc, list(lines[2:]), -1):
            S.true(s2, not rest, LINE, PPRINT, '%d more lines than elements' % len(rest))


def walk(S, st, el, lines, above):
    """ The lines go on with el, indented more than its parent: outcomes (state, remaining lines). """
    S.ip.steps = 0
    if not lines:
        S.violated(st, LINE, PPRINT, 'no line for an element')
        return []
    g = segs_of(lines[0], True)
    head = g[0].a[0] if g and g[0].kind == 'lit' else ''
    m = re.match(r'\s*(\S+)\s+(\S+)(\s+)(\S+)(.*)', head, re.S)
    if not m:
        S.undecided(st, FIELDS, PPRINT, 'line %r' % (lines[0],))
        return []
    offset, size, space, ename, rest = m.groups()
    got = {'offset': offset, 'size': size, 'name': ename}
    for k in got:
        v = st.facts.simp(attr(S.ip, st.clone(), el, k))
        if type(v) is K:
            S.true(st, got[k] == str(v.v), FIELDS, PPRINT, 'the %s printed is %r, not %r' % (k, got[k], v.v))
        else:
            S.undecided(st, FIELDS, PPRINT, k)
    S.true(st, len(space) > above, DEPTH, PPRINT, '%d spaces before %s, %d before its parent' % (len(space), ename, above))
    master = isa(S, st, el, 'MasterElement')
    if isa(S, st, el, 'Document'):
        t = attr(S.ip, st.clone(), el, 'type')
        S.true(st, re.search(r'\b%s\b' % re.escape(str(t.v)), rest) is not None if type(t) is K else None, FIELDS, PPRINT, 'type of the document in %r' % rest)
    else:
        i = attr(S.ip, st.clone(), el, 'id')
        ids = [int(t, 16) for t in re.findall(r'0x([0-9A-Fa-f]+)', rest)]
        S.true(st, i.v in ids, FIELDS, PPRINT, 'ID 0x%X in %r' % (i.v, rest))
        if not master:
            (s, d), = told(S, st.clone(), el, 'dtype', FIELDS, PPRINT)
            (s, d), = told(S, s, d, '__name__', FIELDS, PPRINT)
            S.true(st, re.search(r'\b%s\b' % d.v, rest) is not None if type(d) is K else None, FIELDS, PPRINT, 'type %s in %r' % (d, rest))
    if not master:
        return [(st, lines[1:])]
    res = []
    for s, kids in kids_of(S, st, el, PPRINT, LINE):
        if not isa(S, st, el, 'Document'):
            S.true(s, str(len(kids)) in re.findall(r'\d+', rest.split(')', 1)[-1]), COUNT, PPRINT, '%d children, line %r' % (len(kids), rest))
        states = [(s, lines[1:])]
        for k in kids:
            states = [o for s2, r in states for o in walk(S, s2, k, r, len(space))]
        res.extend(states)
    return res
