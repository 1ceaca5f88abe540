""" C03: element geometry. """

from .doclib import *

RULE = ('Abstract interpretation of parsing documents whose elements have IDs of 1 to 4 bytes, size descriptors of 1 '
        'to 8 bytes and unconstrained sizes: offset, payload offset, size, the next element\'s offset and the raw '
        'extents of every element must equal the layout\'s, as linear forms over the symbolic sizes.')
LEVEL = 'other'
NAME = 'offset, payload offset and size are exact'
RAW = 'raw extents are exact'
LEN = 'the length of a text or binary element'


def run(C):
    for n, lay in LAYOUTS.items():
        C.scenario('tree: ' + n, tree, lay)
    for idlen in range(1, 5):
        for sizelen in range(1, 9):
            C.scenario('ID of %d, size of %d bytes' % (idlen, sizelen), single, idlen, sizelen)
    C.scenario('start offset', tree, flat, Sym('start', 'int'))
    C.scenario('unknown size', tree, unknown_size)
    C.scenario('truncated payload', truncated)
    for lay in (texts, unknown_size):
        C.scenario('lengths', lengths, lay)


def unknown_size(f):
    kid(f, 'Void')
    f.open_master(0x81, lambda f: [kid(f, 'U'), f.open_master(0x89, lambda f: kid(f, 'U'), 2), kid(f, 'B')], 3)
    f.leaf(0x9F)


def texts(f):
    header(f)
    f.master(0x81, lambda f: [kid(f, n) for n in ('S', 'T', 'B', 'Void', 'T')])
    for n in ('T', 'B', 'S', 'Void'):
        kid(f, n)


def extents(S, d, s, el, e):
    for meth, at, n in (('getRaw', e['offset'], sub(e['end'], e['offset'])),
                        ('getRawValue', e['payload'], sub(e['end'], e['payload']))):
        where = CORE + 'Element.' + meth
        for s2, v in S.normal(S.method(s.clone(), el, meth), RAW, where):
            S.eq(s2, v, d.raw(s2, at, n), RAW, where, 'raw data of ID 0x%X' % e['id'])


def tree(S, lay, start=ZERO):
    d = Doc(S, lay, start=start)
    for s, els in d.tree():
        for el, e, par in els:
            extents(S, d, s, el, e)


IDS = {1: 0x9E, 2: 0x4F9E, 3: 0x2F9E9E, 4: 0x1F9E9E9E}


def single(S, idlen, sizelen):
    """ parseElement itself, at a symbolic position, cached and not. """
    for eid in (IDS[idlen], {1: 0x88, 2: 0x4286}.get(idlen)):
        if eid is None:
            continue
        f = lambda f: f.leaf(eid, sizelen, None if eid != 0x4286 else 1)
        d = Doc(S, f, start=Sym('start', 'int'))
        e = d.elements[0]
        w = CORE + 'MasterElement.parseElement'
        for nocache in (False, True):
            s = d.st.clone()
            r = d.fresh_stream(s, e['offset'])
            for s1, v in S.normal(S.method(s, d.doc, 'parseElement', r, nocache=K(nocache)), NAME, w):
                its = S.items(s1, v)
                if its is None or len(its) != 2:
                    S.undecided(s1, NAME, w, repr(v))
                    continue
                el, nxt = its
                for a, want in (('offset', e['offset']), ('payloadOffset', e['payload']), ('size', e['size'])):
                    x = attr(S.ip, s1.clone(), el, a)
                    S.eq(s1, x, want, NAME, w, a)
                S.eq(s1, nxt, e['end'], 'the next element starts where this one ends', w, 'next offset')


def truncated(S):
    """ A payload cut short by the end of the file keeps its geometry. """
    end = Sym('eof', 'int')

    def prep(st, f):
        st.facts.restrict(sub(end, f.elements[0]['payload']), lo=0)
        st.facts.restrict(sub(f.elements[0]['end'], end), lo=1)
        f.end = end
    d = Doc(S, lambda f: f.leaf(0x88, 2), end=False, prep=prep)
    s = d.st.clone()
    e = d.elements[0]
    w = CORE + 'MasterElement.parseElement'
    for s1, v in S.normal(S.method(s, d.doc, 'parseElement', d.fresh_stream(s, ZERO)), NAME, w):
        its = S.items(s1, v)
        if its:
            for a, want in (('offset', e['offset']), ('payloadOffset', e['payload']), ('size', e['size'])):
                S.eq(s1, attr(S.ip, s1.clone(), its[0], a), want, NAME, w, a)


def lengths(S, lay):
    """ len() of an ASCII or binary element is its size in bytes, and takes no reading; of a UTF-8 element, the number of
        characters of its value. """
    d = Doc(S, lay)
    for s, els in d.tree():
        for el, e, par in els:
            kind = {KINDS['S']: 'StringElement', KINDS['T']: 'UnicodeElement', KINDS['B']: 'BinaryElement',
                    KINDS['Void']: 'BinaryElement'}.get(e['id'])
            if not kind:
                continue
            where = CORE + kind + '.__len__'
            size = sub(e['end'], e['payload'])
            for first in (False, True):
                s0 = s.clone()
                if first:
                    s0 = S.pick(S.get(s0, el, 'value'), LEN)[0]
                outs = S.call(s0, Ext('builtins.len'), el)
                if kind != 'UnicodeElement':
                    for s1, v in S.normal(outs, LEN, where):
                        S.eq(s1, v, size, LEN, where, 'length of 0x%X' % e['id'])
                    continue
                for s1, sig, v in outs:
                    if sig == 'v':      # it raises for a text that is not UTF-8
                        for s2, x in S.normal(S.get(s1, el, 'value'), LEN, where):
                            for s3, n in S.normal(S.call(s2, Ext('builtins.len'), x), LEN, where):
                                S.eq(s3, v, n, LEN, where, 'length of 0x%X' % e['id'])
