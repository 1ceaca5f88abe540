""" C21: thread-aware housekeeping always releases the gate. """

from .threadlib import *
from itertools import product

RULE = ('Typestate analysis over abstract paths of the thread-aware file: at every normal and exceptional exit of every '
        'operation, for every set of streams closed before and every stream failing to close or open, each event other '
        'threads wait on must be set and each lock free; which streams are closed and which are remembered is compared '
        'with what closing, closing all and cleaning up should leave.')
LEVEL = 'other'

GATE = 'the gate is set when the operation ends'
OWN = 'closing affects only the calling thread\'s stream'
ALL = 'closing all closes every stream'
FORGET = 'cleanup forgets exactly the closed streams'
FAIL = 'housekeeping does not fail of itself'
AFTER = 'the file stays usable by other threads'


def run(C):
    for op in ('close', 'closeAll', 'cleanup', '__exit__', 'read', 'seek', 'tell', '__enter__', 'getThreadStream', 'flush'):
        C.scenario('gate after %s' % op, gate, op, False)
        C.scenario('gate after failing %s' % op, gate, op, True)
        C.scenario('gate after %s, opening fails' % op, gate, op, 'open')
    for n in (1, 2, 3, 4):
        for shut in product((False, True), repeat=n):
            C.scenario('cleanup, closed %r' % (shut,), cleanup, shut)
            C.scenario('closeAll, closed %r' % (shut,), close_all, shut)
            for who in range(n):
                C.scenario('close by thread %d, closed %r' % (who, shut), close, who, shut)
    for op in ('close', 'closeAll', 'cleanup'):
        C.scenario('use after %s' % op, after, op)
        C.scenario('use after failing %s' % op, after, op, True)
    C.scenario('cleanup of no streams', cleanup, ())
    C.scenario('close by a thread without a stream', close_unused)


def setup(S, shut, fails=None, openfails=None):
    T = Threads(S, n=max(3, len(shut) + 1), fails=fails)
    st, f = T.file(T.act(T.st, 0))
    st = T.used(st, f, range(len(shut))) if shut else st
    refs = T.streams(st)
    for i, x in enumerate(shut):
        if x:
            S.ip.mut(st, refs[i][0]).info['closed'] = TRUE
    T.openfails = openfails
    return T, st, f, {i: refs[i][0] for i in range(len(shut)) if refs.get(i)}


def arguments(op):
    return {'__exit__': (NONE, NONE, NONE), 'seek': (Sym('p', 'int'),), 'read': (Sym('n', 'int'),)}.get(op, ())


def gate(S, op, bad):
    where = TAF + '.' + op
    for shut in ((False,), (False, False, False), (False, True, False)):
        for who in range(len(shut) + 1):
            refs = {}
            fails = (lambda st, ref, o: o in (op, 'close', '__exit__') and KINDS_OF_FAILURE) if bad is True else None
            T, st, f, refs = setup(S, shut, fails, (lambda st: True) if bad == 'open' else None)
            events = T.waited(st, f)
            if T.gate(st, events) is False:
                S.violated(st, GATE, TAF + '.__init__', 'it is closed to begin with')
            T.act(st, who)
            outs = S.method(st, f, op, *arguments(op))
            S.c.paths += len(outs)
            for s, sig, v in outs:
                g = T.gate(s, events)
                S.true(s, g, GATE, where, '%s leaves it closed' % (('raising %s' % S.exc_text(s, v)) if sig != 'v' else 'returning'))
                if sig != 'v' and not bad:
                    S.violated(s, FAIL, where, 'raises %s' % S.exc_text(s, v))


def after(S, op, bad=False):
    """ Other threads go on reading, and new threads start. """
    where = TAF + '.' + op
    T, st, f, refs = setup(S, (False, False), (lambda st, ref, o: o in ('close', '__exit__') and KINDS_OF_FAILURE) if bad else None)
    events = T.waited(st, f)
    outs = S.method(T.act(st, 0), f, op)
    for s, sig, v in outs:
        if sig != 'v' and not bad:
            S.violated(s, FAIL, where, 'raises %s' % S.exc_text(s, v))
        for who in (1, 2, 0):
            for s2, v2 in S.normal(S.method(T.act(s.clone(), who), f, 'tell'), AFTER, TAF + '.tell'):
                S.true(s2, T.gate(s2, events), GATE, TAF + '.tell', 'it is closed after a read')


def remembered(S, T, st, f, refs):
    """ Which of the streams can be reached from the file's own state. """
    seen, todo = set(), [f]
    while todo:
        x = todo.pop()
        if isinstance(x, Ref):
            if x in seen:
                continue
            seen.add(x)
            o = st.get(x)
            if o.kind in ('stream', 'class', 'module'):
                continue
            todo.extend(o.attrs.values())
            d = o.data
            if isinstance(d, tuple):
                for y in d:
                    todo.extend(y if isinstance(y, tuple) else [y])
        elif isinstance(x, Tup):
            todo.extend(x.items)
    return {i for i, r in refs.items() if r in seen}


def cleanup(S, shut):
    where = TAF + '.cleanup'
    for who in range(len(shut) + 1):
        T, st, f, refs = setup(S, shut)
        for s, v in S.normal(S.method(T.act(st, who), f, 'cleanup'), FAIL, where):
            left = remembered(S, T, s, f, refs)
            want = {i for i in refs if not shut[i]}
            S.true(s, left == want, FORGET, where, 'streams of threads %s are left, of %s open' % (sorted(left), sorted(want)))
            for i, r in refs.items():
                S.true(s, T.closed(s, r) == shut[i], FORGET, where, 'the stream of thread %d is closed' % i)


def close_all(S, shut):
    where = TAF + '.closeAll'
    for who in range(len(shut) + 1):
        T, st, f, refs = setup(S, shut)
        for s, v in S.normal(S.method(T.act(st, who), f, 'closeAll'), FAIL, where):
            for i, r in refs.items():
                S.true(s, T.closed(s, r), ALL, where, 'the stream of thread %d is still open' % i)


def close(S, who, shut):
    where = TAF + '.close'
    for op in ('close', '__exit__'):
        T, st, f, refs = setup(S, shut)
        for s, v in S.normal(S.method(T.act(st, who), f, op, *arguments(op)), FAIL, where):
            for i, r in refs.items():
                want = i == who or shut[i]
                S.true(s, T.closed(s, r) == want, OWN, where, 'the stream of thread %d is %s' % (i, 'open' if want else 'closed'))
            if op == 'close':
                left = remembered(S, T, s, f, refs)
                want = {i for i in refs if not shut[i] and i != who}
                # forgetting the closed ones is for cleanup; open ones are kept
                S.true(s, want <= left, OWN, where, 'open streams of threads %s are forgotten' % sorted(want - left))


def close_unused(S):
    T, st, f, refs = setup(S, (False, False))
    for s, v in S.normal(S.method(T.act(st, 2), f, 'close'), FAIL, TAF + '.close'):
        for i, r in refs.items():
            S.true(s, not T.closed(s, r), OWN, TAF + '.close', 'the stream of thread %d is closed' % i)
        for rs in T.streams(s).values():
            for r in rs:
                S.true(s, r in refs.values() or T.closed(s, r), OWN, TAF + '.close', 'a stream opened for closing stays open')
