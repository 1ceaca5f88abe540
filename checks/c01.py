""" C01: reads do not depend on where the shared stream was left. """

from .doclib import *

RULE = ('Abstract interpretation of every reading operation of a parsed document\'s elements (value, getRaw, '
        'getRawValue, iteration, len, indexing, size, dump) from a state in which the position of the stream shared '
        'by all elements is an unconstrained symbol: every result must be the contents of the element\'s own extent, '
        'as value-numbered terms over the file\'s bytes and positions. Iterations are interpreted with the position '
        'replaced by a fresh unconstrained symbol between every two steps.')
LEVEL = 'other'
NAME = 'read from an arbitrary stream position'


def run(C):
    for n, lay in LAYOUTS.items():
        C.scenario('leaves: ' + n, leaves, lay)
        C.scenario('iteration: ' + n, steps, lay)
        C.scenario('masters: ' + n, masters, lay)
    for n, lay in (('children', unknown_size), ('in a document', unknown_doc)):
        C.scenario('unknown size: ' + n, unknown, lay)
    C.scenario('stream not at its start', offset_doc)


def leaves(S, lay):
    d = Doc(S, lay)
    for s, els in d.tree():
        for el, e, par in els:
            raw(S, d, s, el, e)
            if is_master(e):
                continue
            for clear in (False, True):
                s1 = s.clone()
                if clear:
                    for s1, _ in S.normal(S.method(s1, el, 'gc'), 'gc', CORE + 'Element.gc'):
                        value(S, d, s1, el, e)
                else:
                    value(S, d, s1, el, e)


def raw(S, d, s, el, e):
    for meth, at, n in (('getRaw', e['offset'], sub(e['end'], e['offset'])),
                        ('getRawValue', e['payload'], sub(e['end'], e['payload']))):
        s1 = s.clone()
        d.disturb(s1)
        where = CORE + 'Element.' + meth
        for s2, v in S.normal(S.method(s1, el, meth), NAME, where):
            S.eq(s2, v, d.raw(s2, at, n), NAME, where, 'raw data of ID 0x%X' % e['id'])


def value(S, d, s, el, e):
    for what in ('value', 'dump'):
        s1 = s.clone()
        d.disturb(s1)
        where = CORE + ('Element.value' if what == 'value' else 'Element.dump')
        ok = [x for x in d.values(s1, e) if x[1] is not None]
        outs = S.get(s1, el, 'value') if what == 'value' else S.method(s1, el, 'dump')
        for s2, sig, v in outs:
            if sig == 'v':
                d.check_value(s2, el, e, v, where, NAME)
            elif ok:
                for s3, w in d.values(s2, e):
                    if w is not None:
                        S.violated(s3, NAME, where, 'raises %s, value is %s' % (S.exc_text(s3, v), S.show(s3, w)))


def disturbing(d):
    return lambda s, v: d.disturb(s)


def steps(S, lay):
    """ The stream is moved between steps of an iteration. """
    d = Doc(S, lay)
    st = d.st.clone()
    d.disturb(st)
    w = CORE + 'Document.__iter__'
    for s, its in S.normal(iterated(S, st, d.doc, disturbing(d)), NAME, w):
        els = d.children(s, Tup(its), d.elements, w, NAME)
        for el, e in els:
            if not is_master(e):
                continue
            w2 = CORE + 'MasterElement.__iter__'
            s1 = s.clone()
            d.disturb(s1)
            for s2, kids in S.normal(iterated(S, s1, el, disturbing(d)), NAME, w2):
                for c, ce in d.children(s2, Tup(kids), e['children'], w2, NAME):
                    if not is_master(ce):
                        value(S, d, s2, c, ce)


def masters(S, lay):
    d = Doc(S, lay)
    docops(S, d)
    for s, els in d.tree():
        for el, e, par in els:
            if is_master(e):
                master(S, d, s, el, e, len(e['children']))


def docops(S, d):
    n = len(d.elements)
    s = d.st.clone()
    d.disturb(s)
    w = CORE + 'Document.__len__'
    for s1, v in S.normal(S.call(s, Ext('builtins.len'), d.doc), NAME, w):
        S.eq(s1, v, K(n), NAME, w, 'number of root elements')
    w = CORE + 'Document.__getitem__'
    for i in range(n):
        s = d.st.clone()
        d.disturb(s)
        for s1, v in S.normal(S.method(s, d.doc, '__getitem__', K(i)), NAME, w):
            d.element(s1, v, d.elements[i], w, NAME)


def master(S, d, s, el, e, n):
    """ Operations of a master, in a state where nothing of it is cached. """
    w = CORE + 'MasterElement.'
    for s0, _ in S.normal(S.method(s.clone(), el, 'gc'), 'gc', w + 'gc'):
        def go(name, outs, ok):
            for s2, v in S.normal(outs, NAME, w + name):
                ok(s2, v, w + name)
        for op in ('size', 'len', 'value', 'list', 'getitem', 'dump'):
            s1 = s0.clone()
            d.disturb(s1)
            if op == 'size':
                go('size', S.get(s1, el, 'size'), lambda s2, v, x: S.eq(s2, v, sub(e['end'], e['payload']), NAME, x, 'size'))
            elif op == 'len':
                go('__len__', S.call(s1, Ext('builtins.len'), el), lambda s2, v, x: S.eq(s2, v, K(n), NAME, x, 'length'))
            elif op == 'value':
                go('value', S.get(s1, el, 'value'), lambda s2, v, x: d.children(s2, v, e['children'], x, NAME))
            elif op == 'list':
                go('__iter__', S.listof(s1, el), lambda s2, v, x: d.children(s2, v, e['children'], x, NAME))
            elif op == 'getitem' and n:
                go('__getitem__', S.method(s1, el, '__getitem__', K(n - 1)),
                   lambda s2, v, x: d.element(s2, v, e['children'][-1], x, NAME))


def unknown_size(f):
    """ A master of unknown size holding children, a global, and a sibling. """
    def body(f):
        kid(f, 'U')
        kid(f, 'Void')
        kid(f, 'B')
    f.open_master(0x81, body)
    f.master(0x81, lambda f: kid(f, 'U'))


def unknown_doc(f):
    header(f)
    f.open_master(0x81, lambda f: [kid(f, 'U'), kid(f, 'S')], 4)


def unknown(S, lay):
    d = Doc(S, lay)
    docops(S, d)
    for s, els in d.roots():
        for el, e in els:
            master(S, d, s, el, e, len(e['children']))


def offset_doc(S):
    d = Doc(S, flat, start=Sym('start', 'int'))
    docops(S, d)
    for s, els in d.tree():
        for el, e, par in els:
            raw(S, d, s, el, e)
