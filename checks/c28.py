""" C28: crawling visits every element once, in document order. """

from .doclib import *
from .schemalib import dict_items
from .enclib import cat

RULE = ('Abstract interpretation of flatiter over parsed abstract documents (sizes symbolic, shared stream left at an '
        'arbitrary position between steps) for every kind of depth, over the document and over every element: the '
        'offsets yielded must be the layout\'s preorder down to that depth; of Schema.verify over abstract encoded '
        'documents, valid ones and ones with an undecodable leaf or an unknown element at every position; and of dump, '
        'compared with the layout\'s nested names and the values of each leaf\'s own parser.')
LEVEL = 'other'

FLAT, VERIFY, DUMP = 'ebmlite.util.flatiter', CORE + 'Schema.verify', CORE + 'MasterElement.dump'
PRE = 'flat iteration visits every element once, parents first, in file order'
VER = 'verification accepts a valid document'
BAD = 'verification fails on an undecodable value'
UNK = 'verification fails on an unknown element'
DMP = 'dumping includes every child, repeatable ones as ordered lists'


# --------------------------------------------------------------- layouts
def deep(f):
    header(f)

    def body(f):
        kid(f, 'U')

        def sub_(f):
            kid(f, 'U')
            f.master(0x8B, lambda f: [kid(f, 'U'), kid(f, 'U', 2, 1), kid(f, 'Lazy', 1, 2)])
            kid(f, 'S')
        f.master(0x89, sub_)
        kid(f, 'B')
        f.master(0x89, lambda f: None)
        f.master(0x8C, lambda f: [kid(f, 'U')])
        kid(f, 'Void')
    f.master(0x81, body)
    kid(f, 'Void')
    f.master(0x81, lambda f: [kid(f, 'B'), f.master(0x89, lambda f: [kid(f, 'U')])])


def open_(f):
    f.open_master(0x81, lambda f: [kid(f, 'U'), f.open_master(0x89, lambda f: [kid(f, 'U'), kid(f, 'S')]), kid(f, 'B')])
    f.master(0x81, lambda f: [kid(f, 'I')])


def repeats(f):
    """ Repeatable elements in between others, at several depths. """
    header(f)

    def body(f):
        kid(f, 'U')
        kid(f, 'B')
        f.master(0x89, lambda f: [kid(f, 'U'), f.master(0x8B, lambda f: [kid(f, 'U'), kid(f, 'U'), kid(f, 'Lazy', 1, 2)])])
        kid(f, 'U')
        kid(f, 'F')
        kid(f, 'I')
        kid(f, 'D')
        f.master(0x89, lambda f: [kid(f, 'U'), kid(f, 'U')])
        kid(f, 'U')
        f.master(0x8C, lambda f: [kid(f, 'U')])
        kid(f, 'I')
        f.master(0x89, lambda f: None)
        kid(f, 'Void')
    f.master(0x81, body)
    f.master(0x81, lambda f: [kid(f, 'U')])
    f.master(0x81, lambda f: None)


FLATS = {'deep': deep, 'unknown sizes': open_, 'unknown elements': unknowns, 'pre-cached': precached, 'types': flat}
DEPTHS = [None, -1, -2, -7, 0, 1, 2, 3, 4, 9]


def run(C):
    for n, lay in FLATS.items():
        for d in DEPTHS:
            C.scenario('flat iteration, %s, depth %s' % (n, d), crawl, lay, d)
        C.scenario('flat iteration, %s, default depth' % n, crawl, lay, 'default')
        C.scenario('flat iteration, %s, any negative depth' % n, crawl, lay, 'neg')
        C.scenario('flat iteration, %s, any large depth' % n, crawl, lay, 'pos')
        C.scenario('flat iteration, %s, elements' % n, elements, lay)
    for n, lay in (('repeats', repeats), ('deep', deep), ('types', flat), ('pre-cached', precached), ('empty', lambda f: None)):
        C.scenario('dump, %s' % n, dumping, lay)
    for n in VALID:
        C.scenario('verify, %s' % n, valid, VALID[n])
        C.scenario('verify, %s, nothing pre-cached' % n, valid, VALID[n], LAZY)
    for n in ('full', 'header', 'no header', 'nested'):
        for i in range(count(VALID[n])):
            for bad in BADS:
                C.scenario('verify, %s, %s at position %d' % (n, bad, i), invalid, VALID[n], i, bad)
                C.scenario('verify, %s, %s at position %d, nothing pre-cached' % (n, bad, i), invalid, VALID[n], i, bad, LAZY)
        for i in range(count(VALID[n], True)):
            C.scenario('verify, %s, unknown element in place %d' % (n, i), invalid, VALID[n], i, 'unknown')


# --------------------------------------------------------- flat iteration
def preorder(els, depth):
    """ Layout elements below a node, down to a depth. """
    if depth == 0:
        return []
    out = []
    for e in els:
        out.append(e)
        out.extend(preorder(e['children'], depth - 1))
    return out


def crawl(S, lay, depth):
    d = Doc(S, lay)
    arg, n = depth, -1 if depth in (None, 'default', 'neg', 'pos') else depth
    if depth in ('neg', 'pos'):
        arg = Sym('depth', 'int')
        d.st.facts.restrict(arg, *((-INF, -1) if depth == 'neg' else (12, INF)))
    check(S, d, d.st, d.doc, d.elements, arg, n, 'document')


def check(S, d, st, node, els, arg, n, what):
    args = () if arg == 'default' else (arg if not isinstance(arg, (int, type(None))) else K(arg),)
    want = preorder(els, n)
    for how in ('call', 'keyword'):
        s0 = st.clone()
        if how == 'keyword' and args:
            outs = S.call(s0, FLAT, node, depth=args[0])
        elif how == 'call':
            outs = S.call(s0, FLAT, node, *args)
        else:
            continue
        for s, it in S.normal(outs, PRE, FLAT):
            for s2, sig, items in iterated(S, s, it, lambda s, v: d.disturb(s)):
                if sig != 'v':
                    S.violated(s2, PRE, FLAT, '%s, depth %r: raises %s' % (what, arg, S.exc_text(s2, items)))
                    continue
                offs = [attr(S.ip, s2.clone(), x, 'offset') for x in items]
                if len(items) != len(want):
                    S.violated(s2, PRE, FLAT, '%s, depth %r: %d elements at %r instead of %d at %r' % (
                        what, arg, len(items), offs, len(want), [e['offset'] for e in want]))
                    continue
                for el, e in zip(items, want):
                    d.element(s2, el, e, FLAT, PRE)
                if how == 'keyword':
                    return


def elements(S, lay):
    d = Doc(S, lay)
    for s, tree in d.tree():
        for el, e, par in tree:
            for arg in (None, 0, 1, 2):
                S.ip.steps = 0
                check(S, d, s, el, e['children'], arg, -1 if arg is None else arg, 'ID 0x%X' % e['id'])


# ----------------------------------------------------------------- dumping
MULTI = {'U', 'I', 'B', 'Sub', 'Seg', 'Void'}
NAMES = {0x1A45DFA3: 'EBML', 0x4286: 'EBMLVersion', 0x4282: 'DocType', 0x4287: 'DocTypeVersion', 0x81: 'Seg', 0x89: 'Sub',
         0x8B: 'Deep', 0x8C: 'Eager', 0x8D: 'Lazy', 0xBF: 'Crc'}
NAMES.update({v: k for k, v in KINDS.items()})


def dumping(S, lay):
    d = Doc(S, lay)
    for s, v in S.normal(S.method(d.st.clone(), d.doc, 'dump'), DMP, DUMP):
        same_dump(S, d, s, v, d.elements, 'document')
    for s, tree in d.tree():
        for el, e, par in tree:
            S.ip.steps = 0
            for s2, v in S.normal(S.method(s.clone(), el, 'dump'), DMP, DUMP):
                if is_master(e):
                    same_dump(S, d, s2, v, e['children'], NAMES[e['id']])
                else:
                    d.check_value(s2, el, e, v, CORE + 'Element.dump', DMP)


def same_dump(S, d, st, v, els, path):
    its = dict_items(st, v)
    if its is None:
        v = M.deref(st, v)
        if type(v) is K or type(v) is Tup or type(v) is Ref and st.get(v).kind != 'dict':
            S.violated(st, DMP, DUMP, '%s is not a dictionary: %s' % (path, S.show(st, v)))
        else:
            S.undecided(st, DMP, DUMP, '%s is not a determined dictionary' % path)
        return
    want = {}
    for e in els:
        want.setdefault(NAMES[e['id']], []).append(e)
    keys = [k.v if type(k) is K else k for k, _ in its]
    if set(keys) != set(want):
        S.violated(st, DMP, DUMP, '%s has keys %r instead of %r' % (path, sorted(map(str, keys)), sorted(want)))
        return
    for k, got in its:
        name = k.v
        if name in MULTI:
            items = S.items(st, got)
            if items is None:
                if type(got) is Ref and st.get(got).kind != 'list' or type(got) is not Ref:
                    S.violated(st, DMP, DUMP, '%s.%s is not a list: %s' % (path, name, S.show(st, got)))
                else:
                    S.undecided(st, DMP, DUMP, '%s.%s' % (path, name))
                continue
            if len(items) != len(want[name]):
                S.violated(st, DMP, DUMP, '%s.%s has %d values, the file %d' % (path, name, len(items), len(want[name])))
                continue
        else:
            items = [got]
        for x, e in zip(items, want[name]):
            if is_master(e):
                same_dump(S, d, st, x, e['children'], path + '.' + name)
            else:
                d.check_value(st, None, e, x, DUMP, DMP)


# ------------------------------------------------------------ verification
# trees of names; a leaf is a name, a master a pair
VALID = {
    'full': [('EBML', ['EBMLVersion', 'DocType', 'Void']), ('Seg', ['U', 'I', 'F', 'S', 'T', 'D', 'B', 'P', 'Void']), 'Void'],
    'header': [('EBML', ['EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion'])],
    'nested': [('EBML', ['DocType']), ('Seg', ['U', ('Sub', ['U', ('Deep', ['U', 'Lazy', 'U']), 'S']), ('Eager', ['U', 'U']), 'B']),
               ('Seg', [('Sub', [('Deep', ['Lazy'])])])],
    'no header': [('Seg', ['U', 'F', ('Sub', [('Deep', ['U'])])])],
    'empty masters': [('EBML', []), ('Seg', [('Sub', [('Deep', [])]), ('Eager', [])])],
    'empty': [],
}
IDS = {v: k for k, v in NAMES.items()}
IDS.update({'EBMLReadVersion': 0x42F7, 'DocTypeReadVersion': 0x4285})
PAY = {'U': 2, 'I': 1, 'F': 4, 'D': 8, 'B': 5, 'P': 6, 'Void': 3, 'S': b'abc', 'T': 'h\xe9'.encode(), 'Lazy': 3, 'EBMLVersion': b'\x01',
       'EBMLReadVersion': b'\x01', 'DocType': b'abs', 'DocTypeVersion': b'\x01', 'DocTypeReadVersion': b'\x01'}
BADS = {'undecodable float': ('F', 3), 'undecodable date': ('D', 5), 'undecodable integer': ('U', 9),
        'undecodable integer read late': ('Lazy', 9), 'undecodable text': ('T', b'ab\xff\xfe'),
        'empty date': ('D', 0)}


def lazily(defs):
    """ The same definitions, nothing pre-cached. """
    return [(t, eid, name, dict(attrs, precache='0'), lazily(kids)) for t, eid, name, attrs, kids in defs]


LAZY = lazily(ABS)


def count(tree, masters=False):
    return sum(1 + count(x[1], masters) if isinstance(x, tuple) else 1 for x in tree)


class Encoder:
    def __init__(self, S, st, at=None, bad=None):
        self.S, self.st, self.at, self.bad, self.n, self.i = S, st, at, bad, 0, -1
        self.used = None

    def frame(self, eid, payload):
        return cat(self.st, K(eid.to_bytes((eid.bit_length() + 7) // 8, 'big')), K((bytes_len(payload).v | 0x4000).to_bytes(2, 'big')), payload)

    def some(self, n):
        """ n arbitrary bytes. """
        if isinstance(n, bytes):
            return K(n)
        if self.S.concrete:
            self.n += 1
            return K(bytes(17 + (self.n * 31 + i * 13) % 100 for i in range(n)))
        self.n += 1
        b = Sym('payload%d' % self.n, 'bytes')
        self.st.facts.restrict(mklen(b), n, n)
        return Bs([Seg('t', b, K(n))])

    def tree(self, tree):
        out = K(b'')
        for x in tree:
            self.i += 1
            if isinstance(x, tuple):
                i = self.i
                body = self.tree(x[1])
                eid = IDS[x[0]]
                if i == self.at:
                    if self.bad == 'unknown':
                        self.used, eid = x[0], 0x9F
                    else:
                        # one more child, undecodable, at the end
                        self.used = x[0]
                        body = cat(self.st, body, self.frame(IDS[BADS[self.bad][0]], self.some(BADS[self.bad][1])))
            elif self.i == self.at:
                self.used = x
                if self.bad == 'unknown':
                    eid, body = 0x9F, self.some(4)
                else:
                    eid, body = IDS[BADS[self.bad][0]], self.some(BADS[self.bad][1])
            else:
                eid, body = IDS[x], self.some(PAY[x])
            out = cat(self.st, out, self.frame(eid, body))
        return out


def setup(S, tree, at=None, bad=None, defs=ABS):
    st, schema = S.w.with_schema(defs, peel=12)
    e = Encoder(S, st, at, bad)
    return st, schema, e.tree(tree), e


def valid(S, tree, defs=ABS):
    st, schema, data, _ = setup(S, tree, defs=defs)
    for s, v in S.normal(S.method(st, schema, 'verify', data), VER, VERIFY):
        S.true(s, v == TRUE if type(v) is K else None, VER, VERIFY, 'returns %s' % S.show(s, v))


def invalid(S, tree, at, bad, defs=ABS):
    st, schema, data, e = setup(S, tree, at, bad, defs)
    S.raises(S.method(st, schema, 'verify', data), 'Exception', UNK if bad == 'unknown' else BAD, VERIFY)
