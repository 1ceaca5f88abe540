""" C27: generated IDs are valid, unused and within the requested range. """

from checks.schemalib import *

RULE = ('Abstract interpretation of validateID over a partition of all integers at the boundaries of the documented '
        'ranges (each part as one symbolic ID, cut at byte lengths), and of createID for every ID class with symbolic '
        'and constant bounds, excluded IDs, schema IDs and counts: on each path every abstract result must lie in the '
        'class, between the bounds, differ from every excluded and schema ID, be accepted by validateID, and every '
        'lower allowed ID must be in the result too.')
LEVEL = 'other'

CREATE, VALID = 'ebmlite.util.createID', 'ebmlite.util.validateID'
ACC = 'validateID accepts exactly the documented ranges'
LOW = 'createID returns the lowest allowed IDs'
IN = 'a generated ID is within the class and the bounds'
FREE_ = 'a generated ID is unused'
OKAY = 'a generated ID is valid'
MANY = 'createID returns no more IDs than requested'
BADC = 'unknown ID classes are refused'
RANGES = {'A': (0x81, 0xFE), 'B': (0x407F, 0x7FFE), 'C': (0x203FFF, 0x3FFFFE), 'D': (0x101FFFFF, 0x1FFFFFFE)}


def parts():
    """ Consecutive intervals of the integers, and whether they are valid. """
    cuts = sorted({x for lo, hi in RANGES.values() for x in (lo, hi + 1)} | {1 << 8, 1 << 16, 1 << 24, 1 << 32, 0, 1, 0x100000000 * 256,
                  0x80, 0x4000, 0x8000, 0x200000, 0x400000, 0x10000000, 0x20000000})
    out = [(None, cuts[0] - 1)]
    for a, b in zip(cuts, cuts[1:]):
        out.append((a, b - 1))
    out.append((cuts[-1], None))
    return [(a, b, any(lo <= (a if a is not None else -1) <= hi for lo, hi in RANGES.values())) for a, b in out]


def run(C):
    for lo, hi, good in parts():
        C.scenario('validateID of %s..%s' % (lo, hi), valid, lo, hi, good)
    for c in 'ABCDabcd':
        for n in (1, 2, 3, 0):
            C.scenario('class %s, count %d' % (c, n), default, c, n)
    for c in 'ABCD':
        for n in (1, 2, 3):
            C.scenario('class %s, symbolic minimum, count %d' % (c, n), symbolic, c, n, True, False)
            C.scenario('class %s, symbolic maximum, count %d' % (c, n), symbolic, c, n, False, True)
            C.scenario('class %s, symbolic bounds, count %d' % (c, n), symbolic, c, n, True, True)
        C.scenario('class %s, constant bounds' % c, constants, c)
    C.scenario('all of class A', everything)
    C.scenario('excluded IDs of every kind', excluded)
    C.scenario('unknown classes', badclass)


def valid(S, lo, hi, good):
    st = S.fresh()
    e = Sym('id', 'int')
    st.facts.restrict(e, *(x if x is not None else d for x, d in ((lo, -INF), (hi, INF))))
    outs = S.call(st, VALID, e)
    if good:
        for s, v in S.normal(outs, ACC, VALID):
            S.true(s, v == TRUE if type(v) is K else None, ACC, VALID, 'returns %r' % (v,))
    else:
        S.raises(outs, 'ValueError', ACC, VALID)
    for x in {lo, hi} - {None}:
        st = S.fresh()
        outs = S.call(st, VALID, K(x))
        if good:
            S.normal(outs, ACC, VALID)
        else:
            S.raises(outs, 'ValueError', ACC, VALID)


def small_schema(S, ids):
    defs = [edef('BinaryElement', i, 'E%X' % i) for i in ids]
    st = S.fresh(recursion=16, peel=140)
    return one(build(S, st, schema_xml(S.ip, st, defs)), 'schema')


def within(f, t, lo, hi):
    a, b = f.interval(t)
    return a >= lo and b <= hi


def judge(S, s, v, idc, lo, hi, used, count, what):
    """ Is this abstract result what createID promises? lo, hi: terms. """
    its = S.items(s, v)
    if its is None:
        S.undecided(s, LOW, CREATE, what + ': %r' % (v,))
        return
    f = s.facts
    cl, ch = RANGES[idc.upper()]
    S.true(s, len(its) <= count, MANY, CREATE, '%s: %d results' % (what, len(its)))
    for x in its:
        if not within(f, x, cl, ch):
            S.true(s, bound(S, s, x, cl, ch), IN, CREATE, '%s: %r is not of class %s' % (what, x, idc))
        for d, n in ((sub(x, lo), 'minimum'), (sub(hi, x), 'maximum')):
            a, b = f.interval(d)
            S.true(s, True if a >= 0 else False if b < 0 or reachable(S, s, d) else None, IN, CREATE, '%s: %r is beyond the %s' % (what, x, n))
        for u in used:
            a, b = f.interval(sub(x, u if not isinstance(u, int) else K(u)))
            r = compare(f, x, K(u) if isinstance(u, int) else u)
            S.true(s, False if r == 'eq' else True, FREE_, CREATE, '%s: %r is in use' % (what, x))
        for s2, sig, r in S.call(s.clone(), VALID, x):
            S.true(s2, True if sig == 'v' else None if s2.unsure else False, OKAY, CREATE, '%s: %r is refused by validateID' % (what, x))
    for x, y in zip(its, its[1:]):
        a, b = f.interval(sub(y, x))
        S.true(s, True if a > 0 else False if b <= 0 else None, LOW, CREATE, '%s: %r follows %r' % (what, y, x))
    # everything below the last result, or up to the maximum if there are
    # fewer than requested, is in the result or in use
    clo = f.interval(sub(lo, K(cl)))
    first = lo if clo[0] >= 0 else K(cl) if clo[1] <= 0 else None
    chi = f.interval(sub(hi, K(ch)))
    end = hi if chi[1] <= 0 else K(ch) if chi[0] >= 0 else None
    if first is None or end is None:
        S.undecided(s, LOW, CREATE, what + ': bounds are not ordered')
        return
    full = len(its) >= count
    x = first
    for _ in range(400):
        last = its[-1] if full and its else end
        if full and not its:
            break
        a, b = f.interval(sub(x, last))
        if a > 0:
            break
        if any(f.interval(sub(x, y)) == (0, 0) for y in its) or any(same(f, x, u) for u in used):
            x = add(x, ONE)
            continue
        S.true(s, False if b <= 0 and not any(maybe(f, x, u) for u in used) else None, LOW, CREATE,
               '%s: %r is missing from %r' % (what, x, its))
        return
    S.holds(s, LOW, CREATE)


def same(f, x, u):
    return f.interval(sub(x, K(u) if isinstance(u, int) else u)) == (0, 0)


def maybe(f, x, u):
    a, b = f.interval(sub(x, K(u) if isinstance(u, int) else u))
    return a <= 0 <= b


def bound(S, s, x, lo, hi):
    a, b = s.facts.interval(x)
    return False if b < lo or a > hi else True if a >= lo and b <= hi else None


def reachable(S, s, d):
    """ Can this difference be negative on this path? """
    s2 = s.clone()
    return s2.facts.restrict(d, hi=-1) and not s.unsure


def order(S, st, t, pivots):
    """ States in which a term is on one side of each pivot. """
    sts = [st]
    for p in pivots:
        nxt = []
        for s in sts:
            a, b = s.facts.interval(sub(t, p if not isinstance(p, int) else K(p)))
            if a >= 0 or b < 0:
                nxt.append(s)
                continue
            d = sub(t, K(p) if isinstance(p, int) else p)
            s1, s2 = s.clone(), s.clone()
            if s1.facts.restrict(d, lo=0):
                nxt.append(s1)
            if s2.facts.restrict(d, hi=-1):
                nxt.append(s2)
        sts = nxt
    return sts


def default(S, c, n):
    lo, hi = RANGES[c.upper()]
    used = [lo, lo + 1, lo + 3] if n != 2 else [lo + 1]
    st, schema = small_schema(S, used)
    for s, v in S.normal(S.call(st, CREATE, schema, K(c), count=K(n)), LOW, CREATE):
        judge(S, s, v, c, K(0x81), K(0x1FFFFFFE), used, n, 'class %s, count %d' % (c, n))
    if n == 1:
        st, schema = small_schema(S, used)
        for s, v in S.normal(S.call(st, CREATE, schema, K(c)), LOW, CREATE):
            judge(S, s, v, c, K(0x81), K(0x1FFFFFFE), used, 1, 'class %s, default count' % c)


def symbolic(S, c, n, mins, maxs):
    lo, hi = RANGES[c]
    used = [lo + 2, hi - 1]
    st, schema = small_schema(S, used)
    a = K(0x81) if not mins else Sym('minId', 'int')
    b = K(0x1FFFFFFE) if not maxs else Sym('maxId', 'int')
    regions = [(lo, lo), (lo + 1, lo + 4), (lo + 5, hi - 12), (hi - 11, hi), (hi + 1, hi + 50)]
    mr = regions + [(0, lo - 1)] if mins else [None]
    xr = [(lo - 20, lo - 1), (lo, lo + 4), (lo + 5, hi - 12), (hi - 11, hi), (hi + 1, 1 << 40)] if maxs else [None]
    for m in mr:
        for x in xr:
            s0 = st.clone()
            if m is not None:
                s0.facts.restrict(a, *m)
            if x is not None and not s0.facts.restrict(b, *x):
                continue
            sts = [s0]
            if mins and maxs:
                # a few distances between the bounds, then any
                sts = []
                for d in ((-INF, -1), (0, 0), (1, 1), (2, 2), (3, INF)):
                    s1 = s0.clone()
                    if s1.facts.restrict(sub(b, a), *d):
                        sts.append(s1)
            for s1 in sts:
                S.ip.steps = 0
                kw = {}
                if mins:
                    kw['minId'] = a
                if maxs:
                    kw['maxId'] = b
                for s, v in S.normal(S.call(s1.clone(), CREATE, schema, K(c), count=K(n), **kw), LOW, CREATE):
                    judge(S, s, v, c, a, b, used, n, 'class %s, minId in %s, maxId in %s' % (c, m, x))


def constants(S, c):
    lo, hi = RANGES[c]
    used = [lo, lo + 2, lo + 3]
    st, schema = small_schema(S, used)
    for a in (0, lo - 1, lo, lo + 1, lo + 2, lo + 4, hi - 1, hi, hi + 1):
        for b in (lo - 1, lo, lo + 1, lo + 5, hi - 1, hi, hi + 1):
            for n in (1, 4):
                S.ip.steps = 0
                for s, v in S.normal(S.call(st.clone(), CREATE, schema, K(c), minId=K(a), maxId=K(b), count=K(n)), LOW, CREATE):
                    judge(S, s, v, c, K(a), K(b), used, n, 'class %s from 0x%X to 0x%X, count %d' % (c, a, b, n))


def everything(S):
    used = [0x81, 0x90, 0xFE]
    for n in (122, 123, 124, 500):
        st, schema = small_schema(S, used)
        for s, v in S.normal(S.call(st, CREATE, schema, K('A'), count=K(n)), LOW, CREATE):
            judge(S, s, v, 'A', K(0x81), K(0x1FFFFFFE), used, n, 'class A, count %d' % n)


def excluded(S):
    used = [0x82, 0x85]
    ex = (0x81, 0x83, 0x407F)
    for kind in ('tuple', 'list', 'set', 'empty', 'symbolic'):
        for c in 'AB':
            st, schema = small_schema(S, used)
            items = [K(x) for x in ex]
            u = used + list(ex)
            if kind == 'tuple':
                e = Tup(items)
            elif kind == 'empty':
                e, u = Tup([]), used
            elif kind == 'symbolic':
                x = Sym('excluded', 'int')
                st.facts.restrict(x, 0x7F, 0x90) if c == 'A' else st.facts.restrict(x, 0x4070, 0x4085)
                e, u = Tup([x]), used + [x]
            else:
                e = S.ip.alloc(st, Obj('list', data=tuple(items)))
                if kind == 'set':
                    e = one(S.call(st, Ext('builtins.set'), e), 'set')[1]
            for s, v in S.normal(S.call(st, CREATE, schema, K(c), exclude=e, count=K(3)), LOW, CREATE):
                judge(S, s, v, c, K(0x81), K(0x1FFFFFFE), u, 3, 'class %s excluding %s' % (c, kind))


def badclass(S):
    for c in ('E', '', 'AB', '1'):
        st, schema = small_schema(S, [0x81])
        S.raises(S.call(st, CREATE, schema, K(c)), 'Exception', BADC, CREATE)
