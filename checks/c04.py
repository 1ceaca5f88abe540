""" C04: iterating a master yields its children in order, inside its extent. """

from .doclib import *

RULE = ('Abstract interpretation of iterating, measuring, indexing and reading the value of master elements of known '
        'size over files with symbolic element sizes - exact ones, ones whose last child overruns the payload, empty '
        'ones, nested ones followed by siblings - in every order of operations: the children must be exactly the '
        'elements the layout has between the payload\'s start and its end, in order, and the four views must agree.')
LEVEL = 'other'
NAME = 'exactly the children inside the extent, in order'


def run(C):
    for n, lay in LAYOUTS.items():
        C.scenario('masters: ' + n, all_masters, lay)
    for n in (0, 1, 2, 3, 5):
        for width in (1, 2, 8):
            C.scenario('%d children, size in %d bytes' % (n, width), counted, n, width)
    C.scenario('last child overruns', overrun)
    C.scenario('only child overruns', overrun, 0)
    C.scenario('nested', all_masters, nested)
    C.scenario('element beyond the end of the file', cut)


def nested(f):
    def sub_(f):
        kid(f, 'U')
        f.master(0x8B, lambda f: [kid(f, 'U'), kid(f, 'Lazy', 1, 1)])
        f.master(0x8B, lambda f: None)
        kid(f, 'S')
    f.master(0x81, lambda f: [f.master(0x89, sub_), f.master(0x89, lambda f: kid(f, 'U')), kid(f, 'B')])
    f.master(0x81, lambda f: kid(f, 'B'))


def views(S, d, s, el, want, first=None):
    """ Every order of operations, from a state where nothing is cached. """
    w = CORE + 'MasterElement.'
    n = len(want)
    ops = {
        'len': lambda s: S.normal(S.call(s, Ext('builtins.len'), el), NAME, w + '__len__'),
        'value': lambda s: S.normal(S.get(s, el, 'value'), NAME, w + 'value'),
        'iter': lambda s: S.normal(S.listof(s, el), NAME, w + '__iter__'),
    }

    def ck(op, s, v):
        if op == 'len':
            S.eq(s, v, K(n), NAME, w + '__len__', 'length')
        elif op == 'value':
            d.children(s, v, want, w + 'value', NAME)
        else:
            d.children(s, v, want, w + '__iter__', NAME)
    orders = [(a, b) for a in ops for b in ops] + [('len', 'value', 'len'), ('iter', 'iter', 'value', 'len')]
    for order in orders:
        states = [s.clone()]
        for op in order:
            nxt = []
            for s1 in states:
                for s2, v in ops[op](s1):
                    ck(op, s2, v)
                    nxt.append(s2)
            states = nxt
    for i in list(range(n)) + list(range(-n, 0)):
        x = w + '__getitem__'
        for s1, v in S.normal(S.method(s.clone(), el, '__getitem__', K(i)), NAME, x):
            d.element(s1, v, want[i], x, NAME)
    for i in (n, -n - 1):
        S.raises(S.method(s.clone(), el, '__getitem__', K(i)), 'IndexError', 'an index outside the children is refused', w + '__getitem__')
    # nothing at or beyond the payload's end
    for s1, v in S.normal(S.listof(s.clone(), el), NAME, w + '__iter__'):
        for c in S.items(s1, v) or ():
            off = attr(S.ip, s1.clone(), c, 'offset')
            end = add(attr(S.ip, s1.clone(), el, 'payloadOffset'), attr(S.ip, s1.clone(), el, 'size'))
            lo, hi = s1.facts.interval(sub(off, end))
            S.true(s1, True if hi < 0 else False if lo >= 0 else None, 'no element starts at or beyond the payload\'s end',
                   w + '__iter__', 'child at %r, payload ends at %r' % (off, end))


def all_masters(S, lay):
    d = Doc(S, lay)

    def go(s, els):
        for el, e in els:
            if is_master(e):
                views(S, d, s, el, e['children'])
                for s1, v in S.normal(S.listof(s.clone(), el), NAME, CORE + 'MasterElement.__iter__'):
                    go(s1, d.children(s1, v, e['children'], CORE + 'MasterElement.__iter__', NAME))
    for s, els in d.roots():
        go(s, els)


def counted(S, n, width):
    def lay(f):
        f.master(0x81, lambda f: [kid(f, 'B' if i % 2 else 'U', 1 if i < 3 else 2) for i in range(n)], sizelen=width)
        kid(f, 'B')
    all_masters(S, lay)


def overrun(S, before=2):
    """ The last child's declared size exceeds what is left of its parent. """
    def lay(f):
        off, sz, pay = f.header(0x81, 1, None)
        kids = []
        mine = f.elements
        f.elements = kids
        for _ in range(before):
            kid(f, 'B')
        last = kid(f, 'B')
        f.elements = mine
        lo = sub(last['payload'], pay)
        if f.concrete:
            raise Stop()
        f.st.facts.restrict(sub(sz, lo), lo=0)
        f.st.facts.restrict(sub(sub(last['end'], pay), sz), lo=1)
        f.elements.append({'id': 0x81, 'offset': off, 'size': sz, 'payload': pay, 'end': add(pay, sz), 'children': kids})
        f.end_extra = last['end']

    def prep(st, f):
        f.end = f.end_extra
    d = Doc(S, lay, end=False, prep=prep)
    w = CORE + 'MasterElement.'
    s = d.st.clone()
    for s1, v in S.normal(S.method(s, d.doc, 'parseElement', d.fresh_stream(s, ZERO)), NAME, w + 'parseElement'):
        views(S, d, s1, S.items(s1, v)[0], d.elements[0]['children'])


def cut(S):
    """ The file ends between two children: those that exist are yielded. """
    def lay(f):
        off, sz, pay = f.header(0x81, 1, 100)
        mine = f.elements
        f.elements = kids = []
        kid(f, 'U')
        kid(f, 'B', 1, 7)
        f.elements = mine
        f.elements.append({'id': 0x81, 'offset': off, 'size': sz, 'payload': pay, 'end': add(pay, sz), 'children': kids})
        f.end_extra = f.pos

    def prep(st, f):
        f.end = f.end_extra
    d = Doc(S, lay, end=False, prep=prep)
    w = CORE + 'MasterElement.'
    s = d.st.clone()
    for s1, v in S.normal(S.method(s, d.doc, 'parseElement', d.fresh_stream(s, ZERO)), NAME, w + 'parseElement'):
        views(S, d, s1, S.items(s1, v)[0], d.elements[0]['children'])
