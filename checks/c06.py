""" C06: unknown-size masters. """

from .doclib import *

RULE = ('Abstract interpretation of reading masters of unknown size (size descriptors of every length) whose contents '
        'end at an element of the schema that is not a child, at an unknown element, at a second master, or at the end '
        'of the file, with schema globals among the children and nesting: size, children, length, and the next '
        'sibling must reflect exactly the consecutive children and globals, as linear forms over their sizes.')
LEVEL = 'other'
NAME = 'extends over consecutive children and globals only'


def run(C):
    for n in range(1, 9):
        C.scenario('size descriptor of %d bytes' % n, case, lambda f: ends(f, lambda f: f.leaf(0x4282, 1, 3), n))
    for n, tail in TAILS.items():
        C.scenario('ended by ' + n, case, lambda f, t=tail: ends(f, t))
        C.scenario('empty, ended by ' + n, case, lambda f, t=tail: empty(f, t))
        C.scenario('nested, ended by ' + n, case, lambda f, t=tail: nested(f, t))
    C.scenario('globals', case, globals_)
    C.scenario('global first', case, lambda f: f.open_master(0x81, lambda f: [kid(f, 'Void'), kid(f, 'U')]))
    C.scenario('only globals', case, lambda f: f.open_master(0x81, lambda f: [kid(f, 'Void'), f.leaf(0xBF)]))
    C.scenario('inside a known size', case, inside)
    C.scenario('two levels', case, two)
    for n, tail in TAILS.items():
        C.scenario('recursive, ended by ' + n, case, lambda f, t=tail: recursive(f, t), RECURSIVE)
        C.scenario('without children in the schema, ended by ' + n, case, lambda f, t=tail: childless(f, t), RECURSIVE)
    for n, tail in PLACED_TAILS.items():
        C.scenario('without globals, ended by ' + n, case, lambda f, t=tail: ends(f, t), PLACED)
        C.scenario('without globals, nested, ended by ' + n, case, lambda f, t=tail: placed(f, t), PLACED)


# no globals at all: a Void is like any other element, a child only where it is defined
PLACED = [HEADER, edef('MasterElement', 0x81, 'Seg', [
    edef('UIntegerElement', 0x82, 'U', multiple='1'),
    edef('IntegerElement', 0x83, 'I', multiple='1'),
    edef('BinaryElement', 0x88, 'B', multiple='1'),
    edef('MasterElement', 0x89, 'Sub', [
        edef('UIntegerElement', 0x82, 'U', multiple='1'),
        edef('BinaryElement', 0xEC, 'Void', multiple='1'),
        edef('StringElement', 0x85, 'S', multiple='1')], multiple='1'),
], multiple='1'), edef('BinaryElement', 0xEC, 'Void', multiple='1'), edef('BinaryElement', 0xBF, 'Crc', multiple='1')]


def placed(f, tail):
    f.open_master(0x81, lambda f: [kid(f, 'U'), f.open_master(0x89, lambda f: [kid(f, 'U'), kid(f, 'Void'), kid(f, 'S')]), kid(f, 'B')])
    tail(f)


PLACED_TAILS = dict(void=lambda f: kid(f, 'Void'), crc=lambda f: f.leaf(0xBF),
                    voids=lambda f: [kid(f, 'Void'), kid(f, 'Void'), f.open_master(0x81, lambda f: kid(f, 'U')), kid(f, 'Void')],
                    unknown=lambda f: f.leaf(0x9F))


def ends(f, tail, n=1):
    f.open_master(0x81, lambda f: [kid(f, 'U'), kid(f, 'B'), kid(f, 'I')], n)
    tail(f)


def empty(f, tail):
    f.open_master(0x81, lambda f: None)
    tail(f)


def nested(f, tail):
    f.open_master(0x81, lambda f: [kid(f, 'U'), f.open_master(0x89, lambda f: [kid(f, 'U'), kid(f, 'S')]), kid(f, 'B')])
    tail(f)


def globals_(f):
    f.open_master(0x81, lambda f: [kid(f, 'U'), kid(f, 'Void'), f.leaf(0xBF), kid(f, 'B')])
    f.leaf(0x9F)
    kid(f, 'Void')


def inside(f):
    f.master(0x81, lambda f: [f.open_master(0x89, lambda f: [kid(f, 'U'), kid(f, 'Void')]), kid(f, 'B')])


def two(f):
    f.open_master(0x81, lambda f: [kid(f, 'B'), f.open_master(0x89, lambda f: f.open_master(
        0x8B, lambda f: [kid(f, 'U'), kid(f, 'Lazy', 1, 2), kid(f, 'Void')]), 2)], 3)
    f.open_master(0x81, lambda f: kid(f, 'B'))


TAILS = {'the end of the file': lambda f: None,
         'an unknown element': lambda f: f.leaf(0x9F),
         'a wide unknown element': lambda f: f.leaf(0x2F9F9F, 2),
         'the same master': lambda f: f.master(0x81, lambda f: kid(f, 'U')),
         'the same master, unknown size': lambda f: f.open_master(0x81, lambda f: kid(f, 'B')),
         'an element that is a child elsewhere': lambda f: f.leaf(0x8D, 1, 2),
         'a header': header}


# masters that may contain themselves, directly and at one remove, and one that only globals may be in
RECURSIVE = [HEADER] + GLOBALS + [edef('MasterElement', 0x81, 'Seg', [
    edef('UIntegerElement', 0x82, 'U', multiple='1'),
    edef('BinaryElement', 0x88, 'B', multiple='1'),
    edef('MasterElement', 0x89, 'Sub', [
        edef('UIntegerElement', 0x82, 'U', multiple='1'),
        edef('MasterElement', 0x89, 'Sub', multiple='1'),
        edef('MasterElement', 0x8B, 'Deep', [edef('MasterElement', 0x89, 'Sub', multiple='1')]),
        edef('MasterElement', 0x8C, 'Bare'),
    ], multiple='1'),
], multiple='1')]


def recursive(f, tail):
    def deep(f):
        f.open_master(0x89, lambda f: [kid(f, 'U'), f.master(0x89, lambda f: kid(f, 'U')), kid(f, 'U')])
    f.open_master(0x81, lambda f: [f.open_master(0x89, lambda f: [
        kid(f, 'U'), f.master(0x89, lambda f: [f.master(0x89, lambda f: None), kid(f, 'U')]), kid(f, 'Void'),
        f.master(0x8B, lambda f: f.master(0x89, lambda f: kid(f, 'U'))), f.open_master(0x8B, deep)]), kid(f, 'B')])
    tail(f)


def childless(f, tail):
    f.open_master(0x81, lambda f: [f.open_master(0x89, lambda f: f.open_master(0x8C, lambda f: [kid(f, 'Void'), f.leaf(0xBF)])),
                                   kid(f, 'B')])
    tail(f)


def case(S, lay, defs=ABS):
    d = Doc(S, lay, defs=defs)

    def go(s, els):
        for el, e in els:
            if not is_master(e):
                continue
            w = CORE + 'MasterElement.'
            want = e['children']
            for order in (('size', 'len', 'list'), ('len', 'size'), ('list', 'len'), ('value', 'size', 'len')):
                states = [s.clone()]
                for op in order:
                    nxt = []
                    for s1 in states:
                        if op == 'size':
                            for s2, v in S.normal(S.get(s1, el, 'size'), NAME, w + 'size'):
                                S.eq(s2, v, e['size'], NAME, w + 'size', 'size')
                                nxt.append(s2)
                        elif op == 'len':
                            for s2, v in S.normal(S.call(s1, Ext('builtins.len'), el), NAME, w + '__len__'):
                                S.eq(s2, v, K(len(want)), NAME, w + '__len__', 'length')
                                nxt.append(s2)
                        else:
                            outs = S.listof(s1, el) if op == 'list' else S.get(s1, el, 'value')
                            for s2, v in S.normal(outs, NAME, w + '__iter__'):
                                d.children(s2, v, want, w + '__iter__', NAME)
                                nxt.append(s2)
                    states = nxt
            for s1, v in S.normal(S.listof(s.clone(), el), NAME, w + '__iter__'):
                go(s1, d.children(s1, v, want, w + '__iter__', NAME))
    for s, els in d.roots():
        go(s, els)
    # the document's own view, without caching
    s = d.st.clone()
    for s1, v in S.normal(S.call(s, Ext('builtins.len'), d.doc), NAME, CORE + 'Document.__len__'):
        S.eq(s1, v, K(len(d.elements)), NAME, CORE + 'Document.__len__', 'number of root elements')
