""" C05: only running out of data ends iteration quietly. """

from .doclib import *

RULE = ('Abstract interpretation with fault injection: every read of the source stream forks a path on which it raises '
        '(OSError, TypeError, ValueError, KeyError, RuntimeError), during iteration, length, size and value of documents '
        'and masters of known and unknown size. A path on which the fault happened must end in that exception. The same '
        'operations over files holding an invalid element ID or an undecodable pre-cached payload must raise on every '
        'path; files ending where a header would start must not raise and must yield every element before it. Creating '
        'a document over each of these contents must end normally on every path.')
LEVEL = 'other'
NAME = 'failures other than the end of the data reach the caller'
QUIET = 'the end of the data ends iteration without an error'
CREATE = 'creating a document does not raise because of the contents'

FAULTS = (('OSError', 'read error'), ('TypeError', 'cannot do that'), ('ValueError', 'read of closed file'),
          ('KeyError', 'missing'), ('RuntimeError', 'bad'), ('IndexError', 'no'))


def run(C):
    for exc in FAULTS:
        for n, lay in (('elements', some), ('unknown size', unknown), ('precached', precached)):
            C.scenario('%s while reading: %s' % (exc[0], n), faults, lay, exc)
    for b in (0, 1, 3, 8, 15):
        for n, lay in INVALID.items():
            C.scenario('invalid ID byte 0x%02X %s' % (b, n), invalid, lay, b)
    for n in BAD:
        for where, lay in PLACES.items():
            C.scenario('undecodable %s %s' % (n, where), undecodable, lay, n)
    C.scenario('payload cut by the end of the file', short)
    for k in range(0, 4):
        C.scenario('file of %d elements' % k, quiet, k)
    for n, lay in list(CONTENTS.items()):
        C.scenario('creation: ' + n, creation, lay)
    C.scenario('creation: unreadable', creation_fault)
    C.scenario('creation: arbitrary first byte', arbitrary)


def some(f):
    kid(f, 'Void')
    f.master(0x81, lambda f: [kid(f, 'U'), f.master(0x89, lambda f: kid(f, 'U')), kid(f, 'B')])


def unknown(f):
    f.open_master(0x81, lambda f: [kid(f, 'U'), f.open_master(0x89, lambda f: kid(f, 'U')), kid(f, 'B')])
    f.leaf(0x9F)


def operations(S, d):
    """ (name, function running it on a state) for the document and the
        masters in it. """
    w = CORE
    ops = [('Document.__iter__', d.st, lambda s: S.listof(s, d.doc)),
           ('Document.__len__', d.st, lambda s: S.call(s, Ext('builtins.len'), d.doc)),
           ('Document.__getitem__', d.st, lambda s: S.method(s, d.doc, '__getitem__', K(len(d.elements) - 1)))]
    return [(w + n, s, f) for n, s, f in ops]


def master_ops(S, d, s, el):
    w = CORE + 'MasterElement.'
    return [(w + '__iter__', s, lambda s: S.listof(s, el)),
            (w + '__len__', s, lambda s: S.call(s, Ext('builtins.len'), el)),
            (w + 'value', s, lambda s: S.get(s, el, 'value')),
            (w + 'size', s, lambda s: S.get(s, el, 'size')),
            (w + 'dump', s, lambda s: S.method(s, el, 'dump')),
            (w + '__getitem__', s, lambda s: S.method(s, el, '__getitem__', ZERO))]


def every_op(S, d):
    ops = operations(S, d)
    for s, els in d.roots():
        for el, e in els:
            if is_master(e):
                ops += master_ops(S, d, s, el)
                for s1, v in S.normal(S.listof(s.clone(), el), 'children', CORE + 'MasterElement.__iter__'):
                    for c in S.items(s1, v) or ():
                        if attr(S.ip, s1.clone(), c, 'dtype') == Ext('builtins.list'):
                            ops += master_ops(S, d, s1, c)
            else:
                ops.append((CORE + 'Element.value', s, lambda s, el=el: [
                    o for s2, sig, v in S.method(s, el, 'gc') for o in S.get(s2, el, 'value')]))
    return ops


def faults(S, lay, exc):
    d = Doc(S, lay)
    ops = every_op(S, d)
    S.ip.cfg['read_fails'] = lambda st, ref: exc
    for where, s, f in ops:
        s = s.clone()
        mark = s.events
        for s1, sig, v in f(s):
            hit = [e for e in s1.event_list(mark) if e[0] == 'fault']
            if not hit:
                if sig == 'raise':
                    S.violated(s1, 'reading does not fail without a fault', where, 'raises %s' % S.exc_text(s1, v))
                else:
                    S.holds(s1, 'reading does not fail without a fault', where)
            elif sig != 'raise':
                S.violated(s1, NAME, where, '%s raised by the stream is lost: result is %s' % (exc[0], S.show(s1, v)))
            else:
                S.true(s1, S.is_exc(s1, v, exc[0]), NAME, where, '%s turned into %s' % (exc[0], S.exc_text(s1, v)))


def bad(f, b):
    f.put(b)
    f.pos = add(f.pos, K(20))


INVALID = {
    'first in a document': lambda f, b: bad(f, b),
    'after an element': lambda f, b: [kid(f, 'Void'), bad(f, b)],
    'in a master': lambda f, b: f.master(0x81, lambda f: [kid(f, 'U'), bad(f, b)]),
    'in an unknown-size master': lambda f, b: f.open_master(0x81, lambda f: [kid(f, 'U'), bad(f, b)]),
    'after an unknown-size master': lambda f, b: [f.master(0x81, lambda f: [
        f.open_master(0x89, lambda f: kid(f, 'U')), bad(f, b)])],
}


def expect_raise(S, outs, where):
    for s, sig, v in outs:
        if sig == 'raise':
            S.holds(s, NAME, where)
        elif sig == 'v':
            S.violated(s, NAME, where, 'ends quietly with %s' % S.show(s, v))
        else:
            S.undecided(s, NAME, where, sig)


def invalid(S, lay, b):
    d = Doc(S, lambda f: lay(f, b))
    walk_until(S, d, d.st, d.doc, d.elements, True)


def broken(e, d):
    """ Whether an element of the layout holds the defect directly below it. """
    return is_master(e)


def walk_until(S, d, s, obj, elements, doc):
    """ Reading the innermost container that holds the defect raises. """
    w = CORE + ('Document.' if doc else 'MasterElement.')
    inner = elements[-1] if elements and is_master(elements[-1]) else None
    if inner is None or inner.get('open'):
        expect_raise(S, S.listof(s.clone(), obj), w + '__iter__')
        expect_raise(S, S.call(s.clone(), Ext('builtins.len'), obj), w + '__len__')
        if not doc:
            expect_raise(S, S.get(s.clone(), obj, 'value'), w + 'value')
            expect_raise(S, S.method(s.clone(), obj, '__getitem__', ZERO), w + '__getitem__')
            expect_raise(S, S.method(s.clone(), obj, 'dump'), w + 'dump')
        return
    # the container itself is sound: look into its last element
    got = last_item(S, s, obj, len(elements), w)
    for s1, el in got:
        walk_until(S, d, s1, el, inner['children'], False)


def last_item(S, s, obj, n, w):
    out = []
    for s1, v in S.normal(S.listof(s.clone(), obj), 'sound elements are yielded', w + '__iter__'):
        its = S.items(s1, v)
        if its is None:
            S.undecided(s1, NAME, w, 'elements')
        elif len(its) != n:
            S.violated(s1, 'sound elements are yielded', w + '__iter__', '%d elements, the file has %d' % (len(its), n))
        else:
            out.append((s1, its[-1]))
    return out


BAD = {'integer of 9 bytes': (0x83, 9), 'unsigned integer of 12 bytes': (0x82, 12), 'float of 3 bytes': (0x84, 3),
       'float of 9 bytes': (0x84, 9), 'date of 5 bytes': (0x87, 5), 'date of 0 bytes': (0x87, 0),
       'integer of unknown size': (0x82, None)}
PLACES = {
    'in a document': lambda f, leaf: [kid(f, 'Void'), leaf(f)],
    'first in a document': lambda f, leaf: leaf(f),
    'in a master': lambda f, leaf: f.master(0x81, lambda f: [kid(f, 'B'), leaf(f), kid(f, 'B')]),
}


def bad_leaf(what):
    eid, n = BAD[what]

    def leaf(f):
        if n is None:
            f.header(eid, 1, unknown=True)
            f.pos = add(f.pos, K(30))
        else:
            f.leaf(eid, 1, n)
    return leaf


def undecodable(S, lay, what):
    d = Doc(S, lambda f: lay(f, bad_leaf(what)))
    els = d.elements
    if els and is_master(els[0]):
        for s, el in last_item(S, d.st, d.doc, 1, CORE + 'Document.'):
            w = CORE + 'MasterElement.'
            expect_raise(S, S.listof(s.clone(), el), w + '__iter__')
            expect_raise(S, S.get(s.clone(), el, 'value'), w + 'value')
            expect_raise(S, S.method(s.clone(), el, 'dump'), w + 'dump')
    else:
        expect_raise(S, S.listof(d.st.clone(), d.doc), CORE + 'Document.__iter__')


def short(S):
    """ A pre-cached payload cut short: an error or a value, never a quiet end. """
    for eid, n in ((0x84, 8), (0x84, 4), (0x87, 8), (0x83, 4), (0x82, 4)):
        for have in range(0, n):
            def prep(st, f):
                f.end = add(f.elements[-1]['payload'], K(have))
            d = Doc(S, lambda f: [kid(f, 'Void', 1, 2), f.leaf(eid, 1, n)], end=False, prep=prep)
            w = CORE + 'Document.__iter__'
            for s, sig, v in S.listof(d.st.clone(), d.doc):
                if sig == 'raise':
                    S.holds(s, NAME, w)
                    continue
                its = S.items(s, v)
                if its is None:
                    S.undecided(s, NAME, w, 'elements')
                else:
                    S.true(s, len(its) == 2, NAME, w, 'iteration ends quietly at a payload cut short (ID 0x%X)' % eid)


def quiet(S, k):
    for lay in (lambda f: [kid(f, 'B') for _ in range(k)],
                lambda f: f.open_master(0x81, lambda f: [kid(f, 'B') for _ in range(k)])):
        d = Doc(S, lay)
        for s, els in d.roots(name=QUIET):
            for el, e in els:
                if not is_master(e):
                    continue
                w = CORE + 'MasterElement.__iter__'
                for s1, v in S.normal(S.listof(s.clone(), el), QUIET, w):
                    d.children(s1, v, e['children'], w, QUIET)
        for s1, v in S.normal(S.call(d.st.clone(), Ext('builtins.len'), d.doc), QUIET, CORE + 'Document.__len__'):
            S.eq(s1, v, K(len(d.elements)), QUIET, CORE + 'Document.__len__', 'length')


CONTENTS = {
    'empty': lambda f: None,
    'invalid ID': lambda f: bad(f, 0),
    'invalid ID in the header': lambda f: f.master(0x1A45DFA3, lambda f: bad(f, 5)),
    'undecodable header child': lambda f: f.master(0x1A45DFA3, lambda f: f.leaf(0x4286, 1, 9)),
    'undecodable first element': lambda f: f.leaf(0x84, 1, 3),
    'unknown-size first leaf': lambda f: bad_leaf('integer of unknown size')(f),
    'unknown element first': lambda f: f.leaf(0x9F),
    'header of unknown size': lambda f: [f.open_master(0x1A45DFA3, lambda f: f.leaf(0x4286, 1, 1)), bad(f, 0)],
    'text that cannot be decoded in the header': lambda f: f.master(0x1A45DFA3, lambda f: f.data(0x4282, b'\xff\xfe\xff')),
}


def creation(S, lay):
    for headers in (True, False):
        d = Doc(S, lay, headers=headers, load=False)
        for where, outs in ((CORE + 'Schema.load', S.method(d.st.clone(), d.schema, 'load', d.stream, headers=K(headers))),
                            (CORE + 'Schema.__call__', S.call(d.st.clone(), d.schema, d.stream))):
            S.normal_all(outs, CREATE, where)


def creation_fault(S):
    """ The contents cannot be read at all. """
    d = Doc(S, flat, load=False)
    S.ip.cfg['read_fails'] = lambda st, ref: ('OSError', 'read error')
    S.normal_all(S.method(d.st.clone(), d.schema, 'load', d.stream), CREATE, CORE + 'Schema.load')


def arbitrary(S):
    for lo, hi in ((0, 15), (32, 63)):
        st = S.fresh(pathq=lambda st, op, p: False)
        st, schema = make_schema(S.w, st)
        b = Sym('b', 'int')
        st.facts.restrict(b, lo, hi)
        stream = new_stream(S.ip, st, 'src', 'io.BufferedReader', src=K('f'), pos=ZERO, eof='any', bytes={ZERO: b}, name=K('f.ebml'))
        S.normal_all(S.method(st, schema, 'load', stream), CREATE, CORE + 'Schema.load')
