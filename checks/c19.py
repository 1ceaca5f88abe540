""" C19: a thread-aware file gives every thread its own stream. """

from .threadlib import *
from absint.terms import Term

RULE = ('Abstract interpretation of the thread-aware file run as particular abstract threads (same name, distinct or '
        'recycled identifiers) over streams whose operations stay uninterpreted terms: on every path, each file operation '
        'must be the same operation with the same arguments on the calling thread\'s own stream and return its result or '
        'exception; streams are opened once per thread, with the original arguments; streams of other threads are never '
        'operated on.')
LEVEL = 'other'

OWN = 'operations never touch another thread\'s stream'
SAME = 'an operation returns what the thread\'s own stream returns'
ONCE = 'a thread\'s stream is opened on its first use and reused'
ARGS = 'streams are opened with the original arguments'
ATTR = 'attributes are those of the thread\'s own stream'
RAISE = 'exceptions of the stream are passed on'

N, P, W, B = Sym('n', 'int'), Sym('p', 'int'), Sym('whence', 'int'), Sym('buffer')
OPS = [('fileno', ()), ('flush', ()), ('isatty', ()), ('read', ()), ('read', (N,)), ('readable', ()), ('readall', ()),
       ('readinto', (B,)), ('readline', ()), ('readline', (N,)), ('readlines', ()), ('readlines', (N,)), ('seek', (P,)),
       ('seek', (P, W)), ('seek', (P, K(2))), ('seek', (K(-4), K(1))), ('seekable', ()), ('tell', ()), ('writable', ()), ('read', (K(0),)),
       ('__enter__', ()), ('__iter__', ()), ('__exit__', (NONE, NONE, NONE))]
# operations that only one stream operation can answer
PLAIN = ('fileno', 'isatty', 'readable', 'seekable', 'writable', 'tell', 'seek', 'readinto')
VARIANTS = [((PATH,), {}), ((PATH, K('r')), {}), ((PATH, K('rb')), {}), ((PATH,), {'mode': K('rb')}), ((PATH, K('rb'), TRUE), {}),
            ((PATH,), {'closefd': TRUE}), ((PATH, K('rb')), {'opener': Sym('opener')}), ((PATH, K('rb'), TRUE, Sym('opener')), {}),
            ((), {'file': PATH, 'mode': K('r')}), ((Sym('name', 'str'), K('rb')), {'timeout': K(5.0)}),
            ((PATH,), {'timeout': NONE}), ((K(7), K('rb')), {'closefd': FALSE})]


def run(C):
    for i, (a, k) in enumerate(VARIANTS):
        C.scenario('opening, arguments %d' % i, opening, a, k)
    for name, args in OPS:
        for who in (0, 1, 2):
            C.scenario('%s%r by thread %d' % (name, args, who), operation, name, args, who, (0, 1, 2))
        C.scenario('%s%r as first use' % (name, args), operation, name, args, 1, (0,))
        C.scenario('%s%r failing' % (name, args), failing, name, args)
        C.scenario('%s%r by a new thread with a recycled identifier' % (name, args), recycled, name, args)
    for who in (0, 1, 2):
        C.scenario('attributes, thread %d' % who, attributes, who)
        C.scenario('representation, thread %d' % who, representation, who)
        for i, (a, k) in enumerate(VARIANTS):
            C.scenario('attributes, thread %d, arguments %d' % (who, i), attributes, who, a, k)
            C.scenario('representation, thread %d, arguments %d' % (who, i), representation, who, a, k)
    C.scenario('closed', closed)
    C.scenario('two files', two_files)
    C.scenario('use after others closed', others_closed)
    C.scenario('made from an open file', made)
    C.scenario('made from a thread-aware file', verbatim)


def argtext(a, k):
    return '%r %r' % (a, k)


def opening(S, args, kw):
    T = Threads(S)
    want = (args, tuple(sorted((k, v) for k, v in kw.items() if k != 'timeout')))
    for s, f in S.normal(T.create(T.act(T.st, 0), *args, **kw), ONCE, TAF + '.__init__'):
        for order in ((0, 1, 2), (2, 0, 1), (1, 1, 0)):
            states = [s.clone()]
            for i in order:
                nxt = []
                for s1 in states:
                    for s2, v in S.normal(S.method(T.act(s1, i), f, 'tell'), ONCE, OPEN):
                        nxt.append(s2)
                states = nxt
            for s1 in states:
                mine = T.streams(s1)
                for i in set(order):
                    S.true(s1, len(mine.get(i, ())) == 1, ONCE, OPEN, 'thread %d opened %d streams' % (i, len(mine.get(i, ()))))
                for e in s1.event_list():
                    if e[0] == 'fopen':
                        compare_args(S, s1, e, want)


def compare_args(S, st, e, want):
    if e[4]:
        S.undecided(st, ARGS, OPEN, 'arguments not determined')
        return
    # by position or by name is the same
    names = ('file', 'mode', 'closefd', 'opener')
    got, exp = dict(zip(names, e[2])), dict(zip(names, want[0]))
    got.update(dict(e[3]))
    exp.update(dict(want[1]))
    for d in (got, exp):
        d.setdefault('mode', K('r'))
        d.setdefault('closefd', TRUE)
        d.setdefault('opener', NONE)
    for k in sorted(set(got) | set(exp)):
        if k not in got or k not in exp:
            S.violated(st, ARGS, OPEN, 'opened with %r instead of %r' % (got, exp))
        else:
            S.eq(st, got[k], exp[k], ARGS, OPEN, 'argument %s' % k)


def used(S, T, who, args=(), kw={}):
    st, f = T.file(T.act(T.st, 0), *args, **kw)
    return T.used(st, f, who), f


def own(T, st, i):
    r = T.streams(st).get(i, ())
    return r[0] if r else None


def others_untouched(S, T, st, mark, i, mine, where):
    bad = [e for e in T.calls(st, mark) if e[1] != mine]
    S.true(st, not bad, OWN, where, 'thread %d: %s() on another stream at %s' % (i, bad[0][2], bad[0][4]) if bad else '')


def operation(S, name, args, who, users, T=None):
    T = T or Threads(S)
    st, f = used(S, T, users)
    T.act(st, who)
    mark = st.events
    where = TAF + '.' + name
    first = who not in users
    ignored, n_all = [], 0
    for s, v in S.normal(S.method(st, f, name, *args), SAME, where):
        mine = own(T, s, who)
        if mine is None:
            S.violated(s, SAME, where, 'thread %d never opened a stream' % who)
            continue
        others_untouched(S, T, s, mark, who, mine, where)
        n = len(T.opens(s, mark))
        S.true(s, n == (1 if first else 0), ONCE, where, 'thread %d opened %d streams' % (who, n))
        n_all += 1
        result(S, T, s, mark, v, name, args, mine, f, where, ignored)
    if ignored and len(ignored) == n_all:
        S.violated(ignored[-1][0], SAME, where, 'returns %s, whatever the arguments' % S.show(*ignored[-1]))


def result(S, T, s, mark, v, name, args, mine, f, where, ignored=None):
    calls = [e for e in T.calls(s, mark) if e[1] == mine]
    if name in ('__enter__', '__iter__'):
        if v in (mine, f):
            S.holds(s, SAME, where)
        elif type(v) is Ref and s.get(v).kind == 'stream' or v == NONE:
            S.violated(s, SAME, where, 'returns %s' % S.show(s, v))
        else:
            S.undecided(s, SAME, where, 'returns %s' % S.show(s, v))
        return
    if name == '__exit__':
        S.true(s, any(e[2] in ('close', '__exit__') for e in calls) or None, SAME, where, 'the stream is not closed')
        return
    if type(v) is Op and v.op == 'oracle' and v.args[1] == mine:
        if v.args[0].v == name:
            S.eq(s, v.args[2], Tup(list(args)), SAME, where, 'arguments of %s()' % name)
        elif v.args[0].v in PLAIN or name in PLAIN:
            S.violated(s, SAME, where, 'returns the result of %s()' % v.args[0].v)
        else:
            S.undecided(s, SAME, where, 'returns the result of %s()' % v.args[0].v)
        return
    if type(v) is Op and v.op == 'oracle':
        S.violated(s, OWN, where, 'returns the result of %s() on another stream' % v.args[0].v)
        return
    if v == NONE and name != 'flush' and len(calls) == 1 and calls[0][2] == name:
        S.violated(s, SAME, where, 'the result is dropped')
        return
    if not calls and name in PLAIN[4:]:
        S.violated(s, SAME, where, 'the stream\'s %s() is not called' % name)
        return
    if name == 'flush' and v == NONE:
        S.holds(s, SAME, where)
        return
    if ignored is not None and any(type(a) is Sym and not touched(s, a, v) for a in args):
        ignored.append((s, v))
    S.undecided(s, SAME, where, 'returns %s' % S.show(s, v))


def touched(st, sym, v):
    """ Whether an argument occurs in a result, or in anything done or decided on the way to it. """
    f, seen = st.facts, set()
    todo = [v, [e for e in st.event_list() if e[0] != 'call'], st.path_list(), f.iv, f.tr, f.ty]
    while todo:
        x = todo.pop()
        if x is sym or x == sym and type(x) is Sym:
            return True
        if isinstance(x, (list, tuple)):
            todo.extend(x)
        elif isinstance(x, dict):
            todo.extend(x.items())
        elif type(x) is Ref:
            if x.oid not in seen:
                seen.add(x.oid)
                o = st.get(x)
                todo.extend((o.data, list(o.attrs.items()) if hasattr(o, 'attrs') else ()))
        elif isinstance(x, Term):
            k = x.key()
            todo.append(k if isinstance(k, (list, tuple, dict, Term)) else ())
        elif not isinstance(x, (str, bytes, int, float, bool, type(None))):
            todo.extend(getattr(x, n, ()) for n in getattr(x, '__slots__', ()))
    return False


def failing(S, name, args):
    """ Every failure of the stream's operation reaches the caller. """
    T = Threads(S, fails=lambda st, ref, op: op == name)
    st, f = used(S, T, (0,) if name == 'tell' else (0, 1))
    if name == 'tell':
        return
    T.act(st, 1)
    mark = st.events
    where = TAF + '.' + name
    outs = S.method(st, f, name, *args)
    if name in ('__enter__', '__iter__'):
        return
    bad = [(s, v) for s, sig, v in outs if sig == 'raise']
    called = [(s, v) for s, sig, v in outs if sig == 'v' and any(e[2] == name for e in T.calls(s, mark))]
    if called and not bad:
        S.violated(called[0][0], RAISE, where, '%s() fails, but returns %s' % (name, S.show(called[0][0], called[0][1])))
    for s, v in bad:
        S.holds(s, RAISE, where)


def recycled(S, name, args):
    operation(S, name, args, 2, (0, 1), Threads(S, recycled=True))
    T = Threads(S, recycled=True)
    st, f = used(S, T, (0, 1))
    mine = T.streams(st)
    S.true(st, len(mine.get(0, ())) == 1 and len(mine.get(1, ())) == 1, ONCE, OPEN,
           'a new thread with a recycled identifier is given a finished thread\'s stream')


def attributes(S, who, args=(), kw={}):
    for users in ((0, 1, 2), (0,)):
        T = Threads(S)
        st0, f = used(S, T, users, args, kw)
        for a in ('name', 'mode', 'encoding', 'errors', 'newlines'):
            st = T.act(st0.clone(), who)
            mark = st.events
            where = TAF + '.' + a
            for s, v in S.normal(S.get(st, f, a), ATTR, where):
                mine = own(T, s, who)
                if mine is None:
                    continue
                S.eq(s, v, s.get(mine).info[a], ATTR, where, a)
                others_untouched(S, T, s, mark, who, mine, where)


def representation(S, who, args=(), kw={}):
    T = Threads(S)
    st0, f = used(S, T, (0, 1), args, kw)
    for fn in ('builtins.repr', 'builtins.str', 'builtins.hash', 'builtins.format'):
        st = T.act(st0.clone(), who)
        mark = st.events
        for s, v in S.normal(S.call(st, Ext(fn), f), OWN, TAF):
            others_untouched(S, T, s, mark, who, own(T, s, who), TAF)
    for a, xs in (('__sizeof__', ()), ('__reduce__', ()), ('__str__', ()), ('__hash__', ()), ('__format__', (K('>9'),)),
                  ('__reduce_ex__', (K(4),)), ('__reduce_ex__', (K(2),))):
        st = T.act(st0.clone(), who)
        mark = st.events
        for s, v in S.normal(S.method(st, f, a, *xs), OWN, TAF):
            others_untouched(S, T, s, mark, who, own(T, s, who), TAF)
            result(S, T, s, mark, v, a, xs, own(T, s, who), f, TAF + '.' + a)


def closed(S):
    where = TAF + '.closed'
    T = Threads(S)
    st0, f = used(S, T, (0, 1))
    S.ip.mut(st0, own(T, st0, 1)).info['closed'] = TRUE
    for i, want in ((0, FALSE), (1, TRUE), (2, TRUE)):
        st = T.act(st0.clone(), i)
        mark = st.events
        for s, v in S.normal(S.get(st, f, 'closed'), ATTR, where):
            S.eq(s, v, want, ATTR, where, 'closed')
            S.true(s, not T.opens(s, mark), ONCE, where, 'a stream is opened')


def two_files(S):
    T = Threads(S)
    st, f = T.file(T.act(T.st, 0), K('a'), K('rb'))
    st, g = T.file(st, K('b'), K('rb'))
    for who in (0, 1):
        for x, y in ((f, g), (g, f)):
            s0 = T.act(st.clone(), who)
            m0 = s0.events
            for s1, v in S.normal(S.method(s0, x, 'tell'), OWN, TAF):
                mine, m1 = [e[1] for e in T.calls(s1, m0)], s1.events
                for s2, v2 in S.normal(S.method(s1, y, 'tell'), OWN, TAF):
                    theirs = [e[1] for e in T.calls(s2, m1)]
                    S.true(s2, not set(mine) & set(theirs), OWN, OPEN, 'two files share a stream')
                    for e in s2.event_list(m0):
                        if e[0] == 'fopen':
                            S.true(s2, e[2][:1] in ((K('a'),), (K('b'),)) or None, ARGS, OPEN, 'opened with %r' % (e[2],))


def others_closed(S):
    """ Closing by other threads leaves a thread's stream alone. """
    T = Threads(S)
    st, f = used(S, T, (0, 1, 2))
    mine = own(T, st, 1)
    for who in ((0,), (2,), (0, 2), (2, 0)):
        states = [st.clone()]
        for i in who:
            states = [s2 for s in states for s2, v in S.normal(S.method(T.act(s, i), f, 'close'), ONCE, TAF + '.close')]
        for s in states:
            S.true(s, not T.closed(s, mine), OWN, TAF + '.close', 'another thread\'s stream is closed')
            mark = s.events
            for s2, v in S.normal(S.method(T.act(s, 1), f, 'read', N), SAME, TAF + '.read'):
                S.true(s2, not T.opens(s2, mark), ONCE, OPEN, 'opened again')
                result(S, T, s2, mark, v, 'read', (N,), mine, f, TAF + '.read')


def made(S):
    where = TAF + '.makeThreadAware'
    T = Threads(S)
    src = T.stream(T.st, mode=K('rb'), name=K('g.ebml'))
    cls = S.ip.resolve(T.st, TAF)
    for s, v in S.normal(S.method(T.act(T.st, 0), cls, 'makeThreadAware', src), SAME, where):
        S.true(s, not T.opens(s), ONCE, where, 'a stream is opened')
        mark = s.events
        for s2, x in S.normal(S.method(s, v, 'read', N), SAME, where):
            S.true(s2, not T.opens(s2, mark), ONCE, where, 'a stream is opened')
            others_untouched(S, T, s2, mark, 0, src, where)
            result(S, T, s2, mark, x, 'read', (N,), src, v, where)
            mark2 = s2.events
            for s3, y in S.normal(S.method(T.act(s2, 1), v, 'read', N), SAME, where):
                o = own(T, s3, 1)
                S.true(s3, o is not None and len(T.opens(s3, mark2)) == 1, ONCE, where, 'the other thread opened no stream')
                others_untouched(S, T, s3, mark2, 1, o, where)
                for e in s3.event_list():
                    if e[0] == 'fopen':
                        compare_args(S, s3, e, ((K('g.ebml'), K('rb')), ()))
    for x in (K('g.ebml'), NONE, K(3)):
        st = T.act(T.st.clone(), 0)
        S.raises(S.method(st, cls, 'makeThreadAware', x), 'TypeError', 'only files can be made thread-aware', where)


def verbatim(S):
    where = TAF + '.makeThreadAware'
    T = Threads(S)
    st, f = T.file(T.act(T.st, 0))
    cls = S.ip.resolve(st, TAF)
    for i in (0, 1):
        s0 = T.act(st.clone(), i)
        for s, v in S.normal(S.method(s0, cls, 'makeThreadAware', f), SAME, where):
            S.eq(s, v, f, 'a thread-aware file is returned as it is', where, 'result')
