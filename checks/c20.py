""" C20: a thread-aware file is read-only. """

from .threadlib import *
from itertools import combinations, permutations

RULE = ('Abstract interpretation of the thread-aware file\'s construction with every writing mode, '
        'by position, by keyword, and from an open stream: every path '
        'must raise and none may open anything; write, writelines and truncate must raise on every path, for every kind of '
        'argument, thread and stream state, without an operation on any stream.')
LEVEL = 'other'

REF = 'writing modes are refused'
NOTHING = 'nothing is opened with a writing mode'
OK = 'reading modes are accepted'
RO = 'write, writelines and truncate always raise'
TOUCH = 'write, writelines and truncate touch no stream'

# every mode there is: one of r, w, a, x, with or without + and b, in any order
WRITING = sorted({''.join(p) for c in 'rwax' for n in range(3) for rest in combinations('+b', n) for p in permutations(c + ''.join(rest))
                  if c != 'r' or '+' in rest} | {'rt+', 'wt', 'at', 'xt', 'rw', 'ra', 'rx', 'tw', 'r+bb', 'wbb'})
READING = ['r', 'rb', 'br']


def run(C):
    for m in WRITING:
        C.scenario('mode %s' % m, refused, K(m))
    for m in READING:
        C.scenario('mode %s' % m, accepted, K(m))
    C.scenario('default mode', accepted, None)
    for i, (name, args) in enumerate(CALLS):
        for who in (0, 1, 2):
            C.scenario('%s%r by thread %d' % (name, args, who), readonly, name, args, who)


def ways(mode):
    yield (PATH, mode), {}
    yield (PATH,), {'mode': mode}
    yield (PATH, mode), {'timeout': K(1.0)}
    yield (PATH,), {'timeout': K(1.0), 'mode': mode}
    yield (PATH, mode, TRUE), {}
    yield (PATH, mode), {'closefd': TRUE}
    yield (PATH,), {'closefd': TRUE, 'mode': mode, 'opener': Sym('opener')}
    yield (), {'file': PATH, 'mode': mode}
    yield (Sym('name', 'str'), mode), {}
    yield (K(5), mode), {}


def refused(S, mode):
    for args, kw in ways(mode):
        T = Threads(S)
        check(S, T, T.create(T.act(T.st, 0), *args, **kw), mode, TAF + '.__init__', 'Exception')
    where = TAF + '.makeThreadAware'
    T = Threads(S)
    src = T.stream(T.st, mode=mode, name=K('g.ebml'), cls='io.BufferedWriter')
    cls = S.ip.resolve(T.st, TAF)
    check(S, T, S.method(T.act(T.st, 0), cls, 'makeThreadAware', src), mode, where, 'Exception')


def check(S, T, outs, mode, where, exc):
    S.raises(outs, exc, REF, where)
    for s, sig, v in outs:
        bad = T.opens(s)
        S.true(s, not bad, NOTHING, where, 'with mode %r, a file is opened at %s' % (mode, bad[0][-1]) if bad else '')


def accepted(S, mode):
    for args, kw in (ways(mode) if mode is not None else [((PATH,), {}), ((PATH,), {'timeout': K(1.0)})]):
        T = Threads(S)
        for s, f in S.normal(T.create(T.act(T.st, 0), *args, **kw), OK, TAF + '.__init__'):
            for s2, v in S.normal(S.method(s, f, 'read'), OK, TAF + '.read'):
                S.true(s2, len(T.opens(s2)) == 1, OK, TAF, '%d files are opened' % len(T.opens(s2)))


CALLS = [('write', (K(b'abc'),)), ('write', (K(b''),)), ('write', (Sym('data', 'bytes'),)), ('write', ()), ('write', (NONE,)),
         ('write', (K('text'),)), ('writelines', ('list',)), ('writelines', ('empty',)), ('writelines', (Tup([]),)), ('writelines', ()),
         ('writelines', (Sym('lines'),)), ('truncate', ()), ('truncate', (ZERO,)), ('truncate', (NONE,)), ('truncate', (Sym('size', 'int'),))]


def readonly(S, name, args, who):
    where = TAF + '.' + name
    for users in ((0,), (0, 1)):
        for shut in (False, True):
            T = Threads(S)
            st, f = T.file(T.act(T.st, 0))
            st = T.used(st, f, users)
            if shut:
                for refs in T.streams(st).values():
                    for r in refs:
                        S.ip.mut(st, r).info['closed'] = TRUE
            T.act(st, who)
            a = [S.ip.alloc(st, Obj('list', data=(K(b'ab'), K(b'c')) if x == 'list' else ())) if isinstance(x, str) else x for x in args]
            mark = st.events
            outs = S.method(st, f, name, *a)
            S.raises(outs, 'Exception', RO, where)
            for s, sig, v in outs:
                bad = T.calls(s, mark)
                S.true(s, not bad, TOUCH, where, '%s() on a stream' % bad[0][2] if bad else '')
                S.true(s, len(T.opens(s, mark)) == 0, TOUCH, where, 'a stream is opened')
