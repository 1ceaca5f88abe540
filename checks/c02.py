""" C02: eager, lazy and re-read values are the same. """

from .doclib import *

RULE = ('Abstract interpretation of reading each element of the abstract documents four ways - parsed with caching, '
        'parsed without caching and read on access, read again, and read after its cache was cleared - comparing the '
        'four value terms with what the class\'s parser makes of the element\'s payload; and of gc() on every element '
        'in states where the number of cached values is known (nothing, itself only, everything below), comparing its '
        'result with that number and re-reading afterwards.')
LEVEL = 'other'
SAME = 'eager, lazy, repeated and re-read values agree'
COUNT = 'gc returns the number of cached values dropped'


def run(C):
    for n, lay in LAYOUTS.items():
        C.scenario('values: ' + n, values, lay)
        C.scenario('cache clearing: ' + n, clearing, lay)
    C.scenario('lists of values: unknown size', clearing, unknown_size)


def unknown_size(f):
    f.open_master(0x81, lambda f: [kid(f, 'U'), kid(f, 'B')])
    f.leaf(0x9F)


def reads(S, d, s, el, e, where):
    """ Two reads, clearing in between: the value each time. """
    for s1, sig, v in S.get(s, el, 'value'):
        if sig != 'v':
            # only what the class's parser refuses
            for s2, w in [(s1, ())] if is_master(e) else d.values(s1, e):
                if w is not None:
                    S.violated(s2, SAME + ': does not raise', where, 'raises %s' % S.exc_text(s1, v))
            continue
        same(S, d, s1, el, e, v, where)
        for s2, v2 in S.normal(S.get(s1.clone(), el, 'value'), SAME, where):
            same(S, d, s2, el, e, v2, where)
        s3 = s1.clone()
        for s4, n in S.normal(S.method(s3, el, 'gc'), COUNT, CORE + 'Element.gc'):
            S.eq(s4, n, ONE, COUNT, CORE + 'Element.gc')
            for s5, n2 in S.normal(S.method(s4.clone(), el, 'gc'), COUNT, CORE + 'Element.gc'):
                S.eq(s5, n2, ZERO, COUNT, CORE + 'Element.gc')
            for s6, v6 in S.normal(S.get(s4, el, 'value'), SAME, where):
                same(S, d, s6, el, e, v6, where)


def same(S, d, s, el, e, v, where):
    if is_master(e):
        d.children(s, v, e['children'], where, SAME)
    else:
        for s1, w in d.values(s, e):
            if w is not None:
                S.eq(s1, v, w, SAME, where, 'value of ID 0x%X' % e['id'])


def values(S, lay):
    d = Doc(S, lay)
    for nocache in (False, True):
        st = d.st.clone()
        outs = S.method(st, d.doc, '__iter__', nocache=K(nocache))
        for s, it in S.normal(outs, SAME, CORE + 'Document.__iter__'):
            for s1, lst in S.normal(S.listof(s, it), SAME, CORE + 'Document.__iter__'):
                below(S, d, s1, d.children(s1, lst, d.elements, CORE + 'Document.__iter__', SAME), nocache)


def below(S, d, s, els, nocache):
    for el, e in els:
        cls = 'MasterElement' if is_master(e) else 'Element'
        reads(S, d, s.clone(), el, e, CORE + cls + '.value')
        if is_master(e):
            outs = S.method(s.clone(), el, '__iter__', nocache=K(nocache))
            for s1, it in S.normal(outs, SAME, CORE + 'MasterElement.__iter__'):
                for s2, lst in S.normal(S.listof(s1, it), SAME, CORE + 'MasterElement.__iter__'):
                    below(S, d, s2, d.children(s2, lst, e['children'], CORE + 'MasterElement.__iter__', SAME), nocache)


def read_all(S, s, els):
    """ Read the value of every element: [(state, ok)]. """
    outs = [s]
    for el, e, par in els:
        nxt = []
        for s1 in outs:
            for s2, sig, v in S.get(s1, el, 'value'):
                if sig == 'v':
                    nxt.append(s2)
        outs = nxt
    return outs


def clearing(S, lay):
    d = Doc(S, lay)
    for s, els in d.tree():
        for s1 in read_all(S, s, els):
            for el, e, par in els:
                n = 1 + sum(1 for _ in d.file.all(e['children']))
                w = CORE + ('MasterElement.gc' if is_master(e) else 'Element.gc')
                for arg in (None, False, True):
                    kw = {} if arg is None else {'recurse': K(arg)}
                    for s2, v in S.normal(S.method(s1.clone(), el, 'gc', **kw), COUNT, w):
                        S.eq(s2, v, K(n if arg else 1), COUNT, w, 'gc(recurse=%s)' % bool(arg))
                        for s3, v3 in S.normal(S.method(s2.clone(), el, 'gc', **kw), COUNT, w):
                            S.eq(s3, v3, ZERO, COUNT, w, 'second gc')
                        for s4, v4 in S.normal(S.get(s2, el, 'value'), SAME, w):
                            same(S, d, s4, el, e, v4, w)
                        if arg:
                            dropped(S, d, s2, el, e, els, w)


def dropped(S, d, s, el, e, els, w):
    """ After a recursive clearing every element below has nothing cached. """
    inside = {id(x) for x in d.file.all(e['children'])}
    for c, ce, _ in els:
        if id(ce) in inside:
            for s1, v in S.normal(S.method(s.clone(), c, 'gc'), COUNT, w):
                S.eq(s1, v, ZERO, COUNT, w, 'child cleared by a recursive gc')
