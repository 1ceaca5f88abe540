""" C29: schema listing and loading search the same places in the same order. """

import itertools

from .fslib import *

RULE = ('Abstract interpretation of loadSchema and listSchemata over abstract disks: every placement of a schema file '
        'in the current directory, two directories, a module and a subdirectory of a module, for lists of search paths '
        'in every order (directories, modules by name and as objects, subdirectories of modules, missing directories '
        'and missing modules), as the default list and as the one given. The file behind the returned abstract schema '
        'is compared with the first place in order that has it, and the abstract listing with the files there are.')
LEVEL = 'other'

LOAD, LIST = CORE + 'loadSchema', CORE + 'listSchemata'
FIRST = 'the first match in the search paths is loaded'
SKIP = 'paths naming missing modules are skipped'
NONE_ = 'a name found nowhere raises IOError'
LISTED = 'every schema file is listed, in the order of the paths'
AGREE = 'the first file listed is the one loaded by its base name'

PLACES = {'': '/cwd', '/p': '/p', '/q': '/q', '{mod}': '/m', '{mod}/sub': '/m/sub', '{missing}': None, '/nowhere': '/nowhere',
          '{missing}/sub': None, 'rel': '/cwd/rel', '{missing.part}': None, '{ebmlite.schemata}': '/builtin'}
MODULES_ = {'mod': '/m', 'ebmlite.schemata': '/builtin'}
LISTS = [('/p',), ('/q', '/p'), ('/p', '/q'), ('{mod}', '/p'), ('/p', '{mod}'), ('{missing}', '/p'), ('/p', '{missing}', '/q'),
         ('{mod}/sub', '{mod}'), ('{mod}', '{mod}/sub'), ('/nowhere', '/q'), ('{missing}', '{mod}/sub', '/nowhere', '/p'),
         ('{missing}/sub', '/q', '/p'), ('rel', '/p'), ('/p', 'rel'), ('{missing.part}', '{ebmlite.schemata}', '/p')]
MODLISTS = [('MODULE',), ('MODULE', '/p'), ('/p', 'MODULE'), ('{missing}', 'MODULE')]


def run(C):
    lists = LISTS + MODLISTS
    if C.thorough:
        lists = list(itertools.permutations(('', '/p', '/q', '{mod}', '{missing}'), 3)) + \
            list(itertools.permutations(('/p', '{mod}/sub', '{mod}', '{missing}/sub', '/nowhere', 'rel'), 3)) + MODLISTS
    for paths in lists:
        C.scenario('default %r' % (paths,), default, paths)
        C.scenario('given %r' % (paths,), given, paths)
        C.scenario('folders %r' % (paths,), folders, paths)
        C.scenario('listing %r' % (paths,), listing, paths)
    C.scenario('explicit names', explicit)


def place(p):
    return '/builtin' if p == 'MODULE' else PLACES[p]


def subsets(paths):
    ds = []
    for p in paths:
        d = place(p)
        if d and d != '/nowhere' and d not in ds and d != '/cwd':
            ds.append(d)
    for extra in ('/other',):
        ds.append(extra)
    for n in range(len(ds) + 1):
        yield from itertools.combinations(ds, n)


def value(S, st, p):
    if p == 'MODULE':
        return S.ip.resolve(st, 'ebmlite.schemata')
    return K(p)


def world(S, files, paths, default, dirs=()):
    d = Disk(files, dirs=['/p', '/q', '/m', '/m/sub', '/cwd/rel', '/builtin', '/other', *dirs], modules=MODULES_)
    st = S.fresh(**d.cfg())
    S.ip.mut(st, S.ip.resolve(st, CORE + 'SCHEMATA')).data = ()
    set_paths(S, st, [value(S, st, p) for p in (paths if default else ('/other',))])
    return d, st


def found(dirs, paths, cwd=False):
    for p in (('',) if cwd else ()) + tuple(paths):
        d = place(p)
        if d is not None and d in dirs:
            return d
    return None


def filename(S, st, schema):
    f = attr(S.ip, st, schema, 'filename')
    return f.v if type(f) is K else None


def loaded(S, outs, want, what, paths):
    rule = FIRST if not any('missing' in p for p in paths) else SKIP
    for s, sig, v in outs:
        if want is None:
            if sig == 'raise':
                S.true(s, S.is_exc(s, v, 'OSError') or S.is_exc(s, v, 'ModuleNotFoundError') and '{missing' in what, NONE_, LOAD, what)
            else:
                S.violated(s, NONE_, LOAD, what + ': loads %r' % filename(S, s, v))
            continue
        if sig == 'raise':
            S.violated(s, rule, LOAD, what + ': raises %s, expected %s' % (S.exc_name(s, v), want))
            continue
        f = filename(S, s, v)
        if f is None:
            S.undecided(s, rule, LOAD, what + ': file not determined')
        else:
            S.true(s, f == want, rule, LOAD, '%s: loads %s, expected %s' % (what, f, want))


def default(S, paths):
    for dirs in subsets(paths):
        for cwd in (False, True) if '' in paths else (False,):
            fs = [d + '/a.xml' for d in dirs] + (['/cwd/a.xml'] if cwd else [])
            d, st = world(S, fs, paths, True)
            w = found(dirs, paths) if not cwd else '/cwd'
            outs = S.call(st, LOAD, K('a.xml'))
            loaded(S, outs, w and w + '/a.xml', 'SCHEMA_PATH=%r, a.xml in %r' % (paths, dirs), paths)


def folders(S, paths):
    """ A directory of the schema's name is not the schema. """
    ds = [d for d in dict.fromkeys(place(p) for p in paths) if d and d not in ('/nowhere', '/cwd')]
    for m in range(1, len(ds) + 1):
        dirs = ds[m:m + 1]
        for way in (True, False):
            d, st = world(S, [x + '/a.xml' for x in dirs], paths, way, [x + '/a.xml' for x in ds[:m]])
            kw = {} if way else dict(paths=Tup([value(S, st, p) for p in paths]))
            loaded(S, S.call(st, LOAD, K('a.xml'), **kw), dirs[0] + '/a.xml' if dirs else None,
                   '%s=%r, directories called a.xml in %r, a.xml in %r' % ('SCHEMA_PATH' if way else 'paths', paths, ds[:m], dirs), paths)


def given(S, paths):
    for dirs in subsets(paths):
        fs = [d + '/a.xml' for d in dirs]
        w = found(dirs, paths)
        for arg in ('list', 'tuple', 'Path'):
            d, st = world(S, fs, paths, False)
            vs = [value(S, st, p) for p in paths]
            ps = Tup(vs) if arg != 'list' else S.ip.alloc(st, Obj('list', data=tuple(vs)))
            name = path_of(S, st, 'a.xml') if arg == 'Path' else K('a.xml')
            outs = S.call(st, LOAD, name, paths=ps)
            loaded(S, outs, w and w + '/a.xml', 'paths=%r, a.xml in %r' % (paths, dirs), paths)


def explicit(S):
    """ Absolute names, and names with a directory, are not searched for. """
    for name, files, want in (
            ('/p/a.xml', ['/p/a.xml', '/q/a.xml'], '/p/a.xml'), ('/p/a.xml', ['/q/a.xml'], None),
            ('{mod}/a.xml', ['/m/a.xml', '/p/a.xml'], '/m/a.xml'), ('{mod}/sub/a.xml', ['/m/sub/a.xml', '/m/a.xml'], '/m/sub/a.xml'),
            ('{mod}/a.xml', ['/p/a.xml'], None), ('{missing}/a.xml', ['/p/a.xml'], None), ('rel/a.xml', ['/cwd/rel/a.xml'], '/cwd/rel/a.xml'),
            ('b.xml', ['/p/a.xml'], None)):
        d, st = world(S, files, ('/p', '/q'), True)
        loaded(S, S.call(st, LOAD, K(name)), want, '%s with %r' % (name, files), ())


# listing

CONTENT = {'a.xml': SMALL, 'B.XML': SMALL, 'bad.xml': 'malformed', 'html.xml': ('html',), 'note.txt': SMALL}


def listing(S, paths):
    for dirs in subsets(paths):
        if S.thorough or len(dirs) < 4:
            one_listing(S, paths, dirs)


def one_listing(S, paths, dirs):
    fs = {}
    for i, d in enumerate(dirs):
        for n, c in CONTENT.items():
            if n != 'B.XML' or i % 2 == 0:
                fs[d + '/' + n] = c
    want = {}
    for p in paths:
        d = place(p)
        for n in ('a.xml', 'B.XML'):
            if d is not None and d + '/' + n in fs:
                want.setdefault(n, []).append((p, d + '/' + n))
    for how in ('given', 'default', 'relative'):
        if how == 'relative' and 'MODULE' in paths:
            continue
        d, st = world(S, fs, paths, how == 'default')
        args = [] if how == 'default' else [value(S, st, p) for p in paths]
        outs = S.call(st, LIST, *args, **({'absolute': FALSE} if how == 'relative' else {}))
        what = 'listSchemata%r with schemata in %r' % (paths, dirs)
        for s, v in S.normal(outs, SKIP if any('missing' in p for p in paths) else LISTED, LIST):
            its = dict_items(s, v)
            if its is None:
                S.undecided(s, LISTED, LIST, what + ': %r' % (v,))
                continue
            S.true(s, {k for k, _ in its} == {K(n) for n in want}, LISTED, LIST, '%s: names %r' % (what, [k for k, _ in its]))
            for k, x in its:
                got = S.items(s, x)
                if got is None or type(k) is not K:
                    S.undecided(s, LISTED, LIST, what)
                    continue
                texts = [d.path(g.parts[0] if type(g) is Desc and g.kind == 'path' else g) for g in got]
                if how == 'relative':
                    exp = [posixpath.normpath(posixpath.join('/cwd', p, k.v)) for p, f in want.get(k.v, [])]
                else:
                    exp = [f for p, f in want.get(k.v, [])]
                S.true(s, None if None in texts else texts == exp, LISTED, LIST, '%s: %s is %r, expected %r' % (what, k.v, texts, exp))
