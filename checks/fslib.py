""" Shared parts of the checks of schema loading: an abstract disk. """

import posixpath

from .schemalib import *

SMALL = [edef('MasterElement', 0x1A45DFA3, 'EBML', [edef('StringElement', 0x4282, 'DocType', default='small')]),
         edef('UIntegerElement', 0x81, 'U')]
CONFLICTING = SMALL + [edef('StringElement', 0x81, 'U')]


class Disk:
    """ Directories and schema files with constant names. """

    def __init__(self, files=(), dirs=(), modules=(), cwd='/cwd'):
        self.files = {f: SMALL for f in files} if not isinstance(files, dict) else dict(files)
        self.dirs = set(dirs) | {cwd, '/'}
        for f in self.files:
            d = posixpath.dirname(f)
            while d not in self.dirs:
                self.dirs.add(d)
                d = posixpath.dirname(d)
        self.modules = dict(modules)
        self.cwd = cwd
        self.texts = {}
        self.special = set()    # names that are there, but neither regular files nor directories

    def path(self, p):
        if type(p) is K and isinstance(p.v, str):
            return posixpath.normpath(posixpath.join(self.cwd, p.v))
        return None

    def pathq(self, st, op, p):
        p = self.path(p)
        if p is None:
            return None
        return {'exists': p in self.files or p in self.dirs, 'isfile': p in self.files and p not in self.special, 'isdir': p in self.dirs}.get(op)

    def iterdir(self, st, p):
        p = self.path(p)
        if p is None:
            return None
        return [posixpath.basename(f) for f in sorted(set(self.files) | self.dirs - {'/'}, reverse=True)
                if posixpath.dirname(f) == p]

    def resources(self, st, a):
        return self.modules.get(a.v, False) if type(a) is K else None

    def key(self, ip, st, src):
        """ The contents behind what is parsed as XML. """
        if type(src) is Desc and src.kind == 'path':
            src = src.parts[0]
        if type(src) is K:
            return self.files.get(self.path(src)) or self.texts.get(src.v)
        if type(src) is Ref and st.get(src).kind == 'stream':
            f = st.get(src).info.get('src')
            if type(f) is Op and f.op == 'file':
                return self.files.get(self.path(f.args[0]))
            d = st.get(src).data
            if type(d) is Bs:
                return self.texts.get(''.join(s.a[0] if isinstance(s.a[0], str) else s.a[0].decode('latin') for s in d.segs
                                              if s.kind == 'lit'))
            if type(d) is K:
                return self.texts.get(d.v if isinstance(d.v, str) else d.v.decode('latin'))
        return None

    def xmlparse(self, ip, st, src):
        k = self.key(ip, st, src)
        if k is None:
            raise AnalysisError('parsed XML has no known source: %r %r' % (src, st.get(src) if type(src) is Ref else ''))
        if isinstance(k, tuple):
            return new_xml(ip, st, K(k[0]), (), NONE, ())
        return schema_xml(ip, st, k)

    def xmlfails(self, st, src):
        return 'only' if self.key(None, st, src) == 'malformed' else None

    def open_fails(self, st, path, mode):
        return 'only' if self.path(path) not in self.files else None

    def cfg(self):
        return dict(pathq=self.pathq, iterdir=self.iterdir, resources=self.resources, xmlparse=self.xmlparse,
                    xmlfails=self.xmlfails, open_fails=self.open_fails, plainfs=True, cwd=self.cwd, recursion=16)


def set_paths(S, st, paths):
    """ Assign ebmlite.SCHEMA_PATH in place, as a user would. """
    ref = S.ip.resolve(st, CORE + 'SCHEMA_PATH')
    S.ip.mut(st, ref).data = tuple(K(p) if isinstance(p, str) else p for p in paths)


def path_of(S, st, p):
    """ A pathlib.Path argument. """
    return one(S.ip.call(st, Ext('pathlib.Path'), Call([K(p)])), 'Path')[1]
