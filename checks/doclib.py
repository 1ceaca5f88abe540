""" Abstract documents: layouts, opening, and comparison of parsed elements
    with the layout they were parsed from. """

from absint.scen import *
from absint.report import Stop
from absint import models as M

CORE = 'ebmlite.core.'
FIXED = {'U': 2, 'I': 1, 'F': 4, 'D': 8}


def kid(f, name, sizelen=1, size=None):
    """ A leaf of the abstract schema by name; numbers get a fixed size. """
    ids = {'Lazy': 0x8D}
    return f.leaf(KINDS.get(name, ids.get(name)), sizelen, FIXED.get(name) if size is None else size)


# --------------------------------------------------------------- layouts
def header(f):
    def body(f):
        f.leaf(0x4286, 1, 1)
        f.data(0x4282, b'abs')
        f.leaf(0x4287, 1, 1)
    f.master(0x1A45DFA3, body)


def flat(f):
    """ A header and a master holding one child of every type. """
    header(f)

    def body(f):
        for n in ('U', 'I', 'F', 'D', 'B', 'S'):
            kid(f, n)
    f.master(0x81, body)


def text(f):
    def body(f):
        kid(f, 'T')
        kid(f, 'U')
        kid(f, 'B')
    f.master(0x81, body)


def precached(f):
    """ Pre-cached binary and master, lazily read integer. """
    def body(f):
        kid(f, 'P')

        def eager(f):
            kid(f, 'U')
            kid(f, 'U', 1, 1)
        f.master(0x8C, eager)

        def sub_(f):
            def deep(f):
                kid(f, 'U')
                kid(f, 'Lazy', 1, 3)
            f.master(0x8B, deep)
        f.master(0x89, sub_)
        kid(f, 'U')
    f.master(0x81, body)


def unknowns(f):
    """ Elements outside the schema, void elements, several masters. """
    def body(f):
        kid(f, 'U')
        f.leaf(0x4FFF, 1)
        kid(f, 'Void')
        kid(f, 'B', 2)
    f.leaf(0x9F, 1)
    f.master(0x81, body)
    f.leaf(0x1F43B6FF, 3)
    f.master(0x81, lambda f: None)
    f.master(0x81, lambda f: kid(f, 'U', 8, 8), sizelen=2)


def sizes(f):
    """ Size descriptors of every length. """
    def body(f):
        for n in range(1, 9):
            kid(f, 'B', n)
    f.master(0x81, body, sizelen=8)


def wide(f):
    def body(f):
        for n in range(6):
            kid(f, 'B')
    f.master(0x81, body)
    kid(f, 'Void')


def empties(f):
    """ Empty masters, followed by elements they could hold themselves. """
    def body(f):
        f.master(0x89, lambda f: None)
        kid(f, 'U')

        def sub_(f):
            f.master(0x8B, lambda f: None, sizelen=2)
            kid(f, 'U')
        f.master(0x89, sub_)
        f.master(0x8C, lambda f: None)
        kid(f, 'U')
        f.master(0x89, lambda f: None, sizelen=8)
    f.master(0x81, body)
    f.master(0x81, lambda f: None)
    kid(f, 'Void')


LAYOUTS = {'empty masters': empties, 'flat': flat, 'text': text, 'precached': precached, 'unknown elements': unknowns, 'size lengths': sizes,
           'wide': wide}


class Doc:
    """ An abstract document opened by the analysed code. """

    def __init__(self, S, layout, headers=True, end=True, start=ZERO, defs=ABS, cls='io.BufferedReader', prep=None, load=True, **cfg):
        self.S, self.ip = S, S.ip
        S.refinable = True
        cfg.setdefault('peel', 12)
        cfg.setdefault('pathq', lambda st, op, p: False)
        st, self.schema = S.w.with_schema(defs, **cfg)
        if start is not ZERO:
            st.facts.restrict(start, 0)
        if S.concrete and start is not ZERO:
            start = K(7)
        self.file = f = File(S.w, st, start=start, concrete=S.concrete)
        layout(f)
        self.infos = {}
        if end:
            f.end_here()
        if prep is not None:
            prep(st, f)
        self.stream = f.stream(st, cls=cls, name=K('f.ebml'))
        self.n, self.st = 0, st
        if not load:
            return
        kw = {} if headers is None else {'headers': K(headers)}
        self.st, self.doc = S.pick(S.method(st, self.schema, 'load', self.stream, **kw), 'document')
        self.n = 0

    @property
    def elements(self):
        return self.file.elements

    def disturb(self, st):
        """ Leave the shared stream at an arbitrary position. """
        self.n += 1
        if self.S.concrete and self.file.end is not None:
            p = K((self.n * 7919 + self.S.c.seed) % (self.file.end.v + 1))
        else:
            p = Sym('elsewhere%d' % self.n, 'int')
            st.facts.restrict(p, 0)
        self.ip.mut(st, self.stream).info['pos'] = p

    def fresh_stream(self, st, pos):
        r = self.file.stream(st, name=K('f.ebml'))
        st.get(r).info['pos'] = pos
        return r

    def raw(self, st, pos, n):
        """ The file's contents: n bytes at pos. """
        return self._read(st, pos, n)[1]

    def _read(self, st, pos, n):
        s = st.clone()
        outs = self.S.method(s, self.fresh_stream(s, pos), 'read', n)
        return one(outs, 'contents')

    def class_of(self, st, eid):
        """ The class the schema registered for an ID, or None. """
        s = st.clone()
        els = attr(self.ip, s, self.schema, 'elements')
        for k, v in s.get(els).data:
            if k == K(eid):
                return v
        return None

    def values(self, st, e):
        """ What a leaf's class makes of its payload: [(state, value)], or
            None where it raises or nothing is prescribed. """
        cls = self.class_of(st, e['id'])
        s = st.clone()
        if cls is None:
            cls = self.ip.resolve(s, CORE + 'BinaryElement')
        stream = self.fresh_stream(s, e['payload'])
        out = []
        for s1, sig, el in self.S.call(s, cls, stream, e['offset'], e['size'], e['payload']):
            if sig != 'v':
                out.append((s1, None))
                continue
            for s2, sig2, v in self.S.method(s1, el, 'parse', stream, e['size']):
                out.append((s2, v if sig2 == 'v' else None))
        return out

    # ---------------------------------------------------------- comparisons
    def element(self, st, el, e, where, name=None):
        """ Does a parsed element have the geometry of a laid-out one? """
        S = self.S
        what = name or 'elements lie where the file has them'
        for a, want in (('offset', e['offset']), ('payloadOffset', e['payload'])):
            v = attr(self.ip, st.clone(), el, a)
            if v is None:
                S.undecided(st, what, where, a)
            else:
                S.eq(st, v, want, what, where, a)
        v = attr(self.ip, st.clone(), el, 'id')
        S.eq(st, v, K(e['id']), what, where, 'id')
        self.size(st, el, e, where, what)

    def size(self, st, el, e, where, what):
        if e['size'] is None:
            return
        for s, sig, v in self.ip.getattr_(st.clone(), el, 'size'):
            if sig == 'v':
                self.S.eq(s, v, e['size'], what, where, 'size')
            else:
                self.S.violated(s, what, where, 'size raises %s' % self.S.exc_text(s, v))

    def children(self, st, lst, expected, where, name):
        """ A list of parsed elements against the layout; returns them. """
        its = self.S.items(st, lst)
        if its is None:
            self.S.undecided(st, name, where, 'elements not determined: %s' % self.S.show(st, lst))
            return []
        if len(its) != len(expected):
            offs = [attr(self.ip, st.clone(), x, 'offset') for x in its]
            self.S.violated(st, name + ': every element once', where, '%d elements at %r, the file has %d at %r' % (
                len(its), offs, len(expected), [e['offset'] for e in expected]))
            return []
        for el, e in zip(its, expected):
            self.element(st, el, e, where, name)
        return list(zip(its, expected))

    def roots(self, st=None, name='iteration yields the root elements in order'):
        """ list(document): [(state, [(element, layout)])]. """
        where = CORE + 'Document.__iter__'
        out = []
        st = self.st if st is None else st
        for s, v in self.S.normal(self.S.listof(st.clone(), self.doc), name, where):
            out.append((s, self.children(s, v, self.elements, where, name)))
        return out

    def tree(self, st=None):
        """ Parse everything: [(state, [(element, layout, parent layout)])], depth first. """
        out = []
        for s, els in self.roots(st):
            todo = [(s, [], [(el, e, None) for el, e in els])]
            while todo:
                s, done, queue = todo.pop()
                if not queue:
                    out.append((s, done))
                    continue
                (el, e, par), rest = queue[0], queue[1:]
                if not is_master(e):
                    todo.append((s, done + [(el, e, par)], rest))
                    continue
                for s2, v in self.S.normal(self.S.get(s, el, 'value'), 'children can be read', CORE + 'MasterElement.value'):
                    kids = self.children(s2, v, e['children'], CORE + 'MasterElement.__iter__',
                                         'iteration yields the children in order')
                    todo.append((s2, done + [(el, e, par)], [(c, ce, e) for c, ce in kids] + rest))
        return out

    def check_value(self, st, el, e, got, where, name):
        """ A leaf's value is what its class's parser makes of its payload. """
        for s, want in self.values(st, e):
            if want is None:
                self.S.violated(s, name, where, 'a value (%s) where the payload cannot be decoded' % self.S.show(s, got))
            else:
                self.S.eq(s, got, want, name, where, 'value of ID 0x%X' % e['id'])


MASTERS = (0x1A45DFA3, 0x81, 0x89, 0x8B, 0x8C)


def is_master(e):
    return e['id'] in MASTERS


def iterated(S, st, it, between):
    """ Items of an iterable, with something done between steps:
        outcomes whose value is the Python list of items. """
    ip = S.ip
    acc = ip.alloc(st, Obj('list', data=()), 'items')

    def handler(s, v):
        ip.mut(s, acc).data += (v,)
        r = between(s, v)
        return [(s, 'v', NONE)] if r is None else r
    outs = ip.bind(S.call(st, Ext('builtins.iter'), it), lambda s, i: ip.iterate(s, i, handler))
    S.c.paths += len(outs)
    return [(s, sig, list(s.get(acc).data) if sig == 'v' else v) for s, sig, v in outs]
