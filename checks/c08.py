""" C08: each ID is dispatched to its schema class, otherwise to Unknown. """

from .doclib import *
from absint.interp import Obj

RULE = ('Abstract interpretation of parseElement for every ID of the schema and for IDs outside it (constant and '
        'symbolic), in every kind of container, with and without caching, at arbitrary positions: the class of the '
        'resulting abstract object must be the class the schema\'s registry holds for that ID, otherwise the result of '
        'the schema\'s unknown-element handler called with that ID and schema.')
LEVEL = 'other'
NAME = 'elements get the class registered for their ID'
UNK = 'other IDs get the schema\'s unknown-element handler'


def run(C):
    for n in ('document', 'master', 'other master'):
        C.scenario('schema IDs in a ' + n, known, n)
        C.scenario('unknown IDs in a ' + n, unknown, n)
    C.scenario('symbolic one-byte ID', symbolic, 1)
    C.scenario('symbolic two-byte ID', symbolic, 2)
    C.scenario('replaced handler', replaced)
    C.scenario('handler that fails', failing)
    C.scenario('sizes do not matter', sizes)


def containers(S, d, s, kind):
    if kind == 'document':
        return [(s, d.doc)]
    name = {'master': 0x81, 'other master': 0x8B}[kind]
    cls = d.class_of(s, name)
    r = d.fresh_stream(s, ZERO)
    return [(s2, el) for s2, el in S.normal(S.call(s, cls, r, ZERO, K(1000), ONE), 'container', CORE + 'MasterElement')]


def all_defs(defs):
    for t in defs:
        yield t
        yield from all_defs(t[4])


SIZES = {'UIntegerElement': 2, 'IntegerElement': 3, 'FloatElement': 8, 'DateElement': 8}


def parse(S, d, s, parent, e, nocache):
    w = CORE + 'MasterElement.parseElement'
    out = []
    r = d.fresh_stream(s, e['offset'])
    for s1, v in S.normal(S.method(s, parent, 'parseElement', r, nocache=K(nocache)), NAME, w):
        its = S.items(s1, v)
        if its:
            out.append((s1, its[0]))
        else:
            S.undecided(s1, NAME, w, repr(v))
    return out


def known(S, kind):
    w = CORE + 'MasterElement.parseElement'
    done = set()
    for tag, eid, name, a, kids in all_defs(ABS):
        if eid in done:
            continue
        done.add(eid)
        for nocache in (False, True):
            d = Doc(S, lambda f: (f.master(eid, lambda f: None) if kids else f.leaf(eid, 1, SIZES.get(tag))))
            for s, parent in containers(S, d, d.st.clone(), kind):
                for s1, el in parse(S, d, s, parent, d.elements[0], nocache):
                    check(S, d, s1, el, eid, w)


def check(S, d, s, el, eid, w):
    cls = d.class_of(s, eid)
    got = S.ip.type_of(s, el)
    if cls is None:
        unk(S, d, s, el, eid, w)
        return
    S.true(s, None if got is None else got == cls, NAME, w, 'ID 0x%X gives a %s, the schema registers %s' % (
        eid, S.ip.class_name(s, got), S.ip.class_name(s, cls)))


def unk(S, d, s, el, eid, w):
    got = S.ip.type_of(s, el)
    want = attr(S.ip, s.clone(), d.schema, 'UNKNOWN')
    S.true(s, None if got is None else got == want, UNK, w, 'ID 0x%X gives a %s' % (eid, S.ip.class_name(s, got)))
    S.eq(s, attr(S.ip, s.clone(), el, 'id'), K(eid), UNK, w, 'id')
    S.true(s, attr(S.ip, s.clone(), el, 'schema') == d.schema, UNK, w, 'the unknown element has another schema')


def unknown(S, kind):
    w = CORE + 'MasterElement.parseElement'
    for eid in (0x80, 0x9F, 0xFE, 0x4FFF, 0x4287 ^ 0x3000, 0x2F9F9F, 0x1F9F9F9F, 0x1A45DFA2):
        for nocache in (False, True):
            d = Doc(S, lambda f: f.leaf(eid, 2))
            for s, parent in containers(S, d, d.st.clone(), kind):
                for s1, el in parse(S, d, s, parent, d.elements[0], nocache):
                    unk(S, d, s1, el, eid, w)


def symbolic(S, n):
    """ Any ID: the class agrees with the ID on every path. """
    w = CORE + 'MasterElement.parseElement'
    d = Doc(S, lambda f: kid(f, 'Void'))
    st = d.st.clone()
    a, b = Sym('a', 'int'), Sym('b', 'int')
    st.facts.restrict(a, 128 if n == 1 else 64, 254 if n == 1 else 127)
    st.facts.restrict(b, 0, 255)
    eid = a if n == 1 else add(scale(a, 256), b)
    p = Sym('p', 'int')
    st.facts.restrict(p, 0)
    data = {p: a, add(p, ONE): b, add(p, K(n)): 0x82}
    stream = new_stream(S.ip, st, 'src', 'io.BufferedReader', src=K('g'), pos=p, bytes=data, name=K('f.ebml'))
    els = dict((k, v) for k, v in st.get(attr(S.ip, st, d.schema, 'elements')).data)
    for s, v in S.normal(S.method(st, d.doc, 'parseElement', stream, nocache=K(True)), NAME, w):
        el = S.items(s, v)[0]
        got = S.ip.type_of(s, el)
        reg = [k for k, c in els.items() if c == got]
        if reg:
            S.eq(s, eid, reg[0], NAME, w, 'ID of a %s' % S.ip.class_name(s, got))
        else:
            S.true(s, got == attr(S.ip, s.clone(), d.schema, 'UNKNOWN'), UNK, w, 'class %s' % S.ip.class_name(s, got))
            S.eq(s, attr(S.ip, s.clone(), el, 'id'), eid, UNK, w, 'id')
            for k in els:
                c = S.cond(s, Op('eq0', (sub(eid, k),), 'bool'))
                if c is True:
                    S.violated(s, NAME, w, 'ID %r gives an unknown element' % (k,))


def replaced(S):
    """ The handler is looked up in the schema, and gets the ID and schema. """
    w = CORE + 'MasterElement.parseElement'
    d = Doc(S, lambda f: f.leaf(0x9F, 2))
    st = d.st.clone()
    base = S.ip.resolve(st, CORE + 'UnknownElement')
    st, cls = one(S.call(st, Ext('builtins.type'), K('Handler'), Tup([base]), S.ip.alloc(st, Obj('dict', data=()))), 'class')
    S.ip.setattr_(st, d.schema, 'UNKNOWN', cls)
    for nocache in (False, True):
        for s1, el in parse(S, d, st.clone(), d.doc, d.elements[0], nocache):
            S.true(s1, S.ip.type_of(s1, el) == cls, UNK, w, 'the handler set on the schema is not used')
            S.eq(s1, attr(S.ip, s1.clone(), el, 'id'), K(0x9F), UNK, w, 'id')


def failing(S):
    """ An error while reading a registered element is not taken for a
        missing class. """
    w = CORE + 'MasterElement.parseElement'
    d = Doc(S, lambda f: kid(f, 'U'))
    S.ip.cfg['read_fails'] = lambda st, ref: ('KeyError', 'x')
    s = d.st.clone()
    r = d.fresh_stream(s, ZERO)
    for s1, sig, v in S.method(s, d.doc, 'parseElement', r):
        if sig == 'v':
            its = S.items(s1, v)
            if its:
                check(S, d, s1, its[0], 0x82, w)
        else:
            S.holds(s1, NAME, w)


def sizes(S):
    w = CORE + 'MasterElement.parseElement'
    for eid in (0x88, 0x85, 0xEC, 0x9F):
        for n in range(1, 9):
            d = Doc(S, lambda f: f.leaf(eid, n))
            for nocache in (False, True):
                for s1, el in parse(S, d, d.st.clone(), d.doc, d.elements[0], nocache):
                    check(S, d, s1, el, eid, w)
