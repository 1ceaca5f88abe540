""" C26: command-line tools never overwrite without permission. """

from itertools import product

from .fslib import *
from .xmllib import IDS

RULE = ('Abstract interpretation of each tool\'s main(), with the interpreted definition of its command line, over abstract '
        'disks on which the input, the schema and the output each exist or not, for every combination of output (none, '
        'existing, new, relative, in the home directory, in a missing directory), overwriting, and the other options. On '
        'every path on which the input or the schema is missing or unusable, or the output exists and overwriting was not '
        'requested, the tool must end by a nonzero exit or an exception without one event that opens a file for writing or '
        'changes the file system. Otherwise exactly the output is opened for writing, after input and schema were found, '
        'in the mode its contents need, and without an output file nothing is.')
LEVEL = 'other'

REFUSE = 'without input, schema or permission the tool exits with an error'
NOTHING = 'without input, schema or permission nothing is created or overwritten'
ONLY = 'exactly the output file is opened for writing'
MODE = 'output is opened in the mode its contents need'
ALLOWED = 'with input, schema and permission the tool does its work'
NONE_OUT = 'without an output file nothing is opened for writing'

TOOLS_ = {'ebml2xml': 'ebmlite.tools.ebml2xml.main', 'xml2ebml': 'ebmlite.tools.xml2ebml.main', 'view_ebml': 'ebmlite.tools.view_ebml.main'}
OPTIONS = {
    'ebml2xml': [[], ['--single'], ['-m'], ['-s', '-e', 'hex'], ['--max', '--encoding', 'ignore']],
    'xml2ebml': [[]],
    'view_ebml': [[], ['-e', 'hex'], ['--encoding', 'ignore']],
}
BINARY = {'ebml2xml': lambda o: '-s' in o or '--single' in o, 'xml2ebml': lambda o: True, 'view_ebml': lambda o: False}
IN, SCHEMA = {'ebml2xml': '/data/in.ebml', 'xml2ebml': '/data/in.xml', 'view_ebml': '/data/in.ebml'}, '/schemata/abs.xml'
# output argument: (argument, file it stands for)
OUTPUTS = {'new': ('/out/new', '/out/new'), 'existing': ('/out/old', '/out/old'), 'relative new': ('new', '/cwd/new'),
           'relative existing': ('old', '/cwd/old'), 'home new': ('~/new', '/home/user/new'), 'home existing': ('~/old', '/home/user/old'),
           'indirect existing': ('/out/../out/./old', '/out/old'), 'directory missing': ('/nowhere/new', '/nowhere/new'),
           'empty existing': ('/out/empty', '/out/empty'), 'directory': ('/out', '/out'),
           'special file': ('/out/special', '/out/special'), 'none': (None, None),
           'input': ('IN', 'IN'), 'schema': (SCHEMA, SCHEMA)}
FLAGS = {False: [[]], True: [['-c'], ['--clobber']]}
INPUTS = ('ok', 'missing')
SCHEMATA = {'ok': (SCHEMA, 0), 'without extension': ('/schemata/abs', 0), 'missing': ('/schemata/none.xml', 1),
            'missing name': ('nothing', 1), 'malformed': ('/schemata/malformed.xml', 1), 'not a schema': ('/schemata/other.xml', 1),
            'conflicting': ('/schemata/conflict.xml', 1), 'by name': ('abs.xml', 0), 'by name without extension': ('abs', 0)}

ABS_DOC = bytes([0x1A, 0x45, 0xDF, 0xA3, 0x87, 0x42, 0x86, 0x81, 1, 0x42, 0x82, 0x80]) + \
    bytes([0x81, 0x89, 0x82, 0x81, 7, 0x88, 0x84, 1, 2, 3, 4])


class CliDisk(Disk):
    def __init__(self, inp, tool):
        super().__init__({SCHEMA: ABS, '/schemata/malformed.xml': 'malformed', '/schemata/other.xml': ('other',),
                          '/schemata/conflict.xml': CONFLICTING, '/out/old': (), '/cwd/old': (), '/home/user/old': (),
                          '/out/empty': ()}, dirs=('/data', '/home/user', '/home'))
        self.tool = tool
        self.files['/out/special'] = ()
        self.special.add('/out/special')
        self.outs = set()
        if inp == 'ok':
            self.files[IN[tool]] = 'input'

    def path(self, p):
        if type(p) is K and isinstance(p.v, str) and (p.v == '~' or p.v.startswith('~/')):
            return None
        return super().path(p)

    def open_fails(self, st, path, mode):
        p = self.path(path)
        m = mode.v if type(mode) is K and isinstance(mode.v, str) else '?'
        if p is None:
            return None
        if p in self.dirs:
            return 'only', 'IsADirectoryError'
        if 'x' in m and p in self.files:
            return 'only', 'FileExistsError'
        if any(c in m for c in 'wax'):
            return None if posixpath.dirname(p) in self.dirs else 'only'
        return None if p in self.files else 'only'

    def xmlparse(self, ip, st, src):
        if self.key(ip, st, src) == 'input':
            leafs = [new_xml(ip, st, 'U', [('value', '7')]), new_xml(ip, st, 'B', [], K('aGVsbG8='))]
            root = new_xml(ip, st, 'Seg', [], NONE, leafs)
            return new_xml(ip, st, 'AbsDocument', [], NONE, [root])
        return super().xmlparse(ip, st, src)

    def filebytes(self, st, src, pos):
        if type(pos) is K and type(src) is Op and src.op == 'file' and self.path(src.args[0]) == IN[self.tool] and \
                pos.v < len(ABS_DOC):
            return ABS_DOC[pos.v]
        return None

    def fileend(self, st, path):
        return K(len(ABS_DOC)) if self.path(path) == IN[self.tool] else None

    def cfg(self):
        return dict(super().cfg(), filebytes=self.filebytes, fileend=self.fileend, home='/home/user', peel=16,
                    env=lambda *a: None)


def run(C):
    for tool in TOOLS_:
        n = 0
        for o in OUTPUTS:
            for clobber in (False, True):
                for inp in INPUTS:
                    for sch in SCHEMATA:
                        for i, opts in enumerate(OPTIONS[tool]):
                            n += 1
                            usual = inp == 'ok' and sch == 'ok'
                            if C.thorough or usual and (i == 0 or o in ('new', 'existing', 'none')) or (i == n // 7 % len(OPTIONS[tool]) and (
                                    inp == 'ok' or sch in ('ok', 'missing'))):
                                flags = FLAGS[clobber] if C.thorough or usual else FLAGS[clobber][n % len(FLAGS[clobber]):][:1]
                                for f in flags:
                                    C.scenario('%s, output %s, %s, input %s, schema %s, %s' % (
                                        tool, o, f, inp, sch, opts), tool_run, tool, o, f, inp, sch, opts, tools=True)
        C.scenario('%s usage' % tool, usage, tool, tools=True)


def argvs(S, tool, out, flags, schema, opts):
    """ The same command line, ordered differently. """
    o = [] if out is None else ['-o', out]
    yield o + flags + opts + [IN[tool], schema]
    if S.thorough:
        o = [] if out is None else ['--output', out]
        yield [IN[tool]] + opts + [schema] + flags + o


def tool_run(S, tool, out, flags, inp, sch, opts):
    arg, target = OUTPUTS[out]
    if arg == 'IN':
        arg = target = IN[tool]
    schema, bad = SCHEMATA[sch]
    for argv in argvs(S, tool, arg, flags, schema, opts):
        disk = CliDisk(inp, tool)
        st = S.fresh(**disk.cfg())
        S.ip.cfg['argv'] = [K(a) for a in argv]
        set_paths(S, st, ['/schemata'])
        mark = st.events
        where = TOOLS_[tool]
        outs = S.call(st, where)
        exists = target is not None and (target in disk.files or target in disk.dirs)
        if target == '/out' and flags:
            # a directory cannot be overwritten
            refused(S, outs, mark, where, NOTHING)
        elif bad or inp == 'missing' or exists and not flags:
            refused(S, outs, mark, where, NOTHING)
        elif target is not None and posixpath.dirname(target) not in disk.dirs:
            refused(S, outs, mark, where, NOTHING)
        else:
            written(S, outs, mark, where, target, BINARY[tool](opts), disk)


def changes(S, s, mark):
    """ Events that create or change files: [(what, path, mode)]. """
    out = []
    for e in s.event_list(mark):
        if e[0] == 'open':
            m = e[3].v if type(e[3]) is K and isinstance(e[3].v, str) else '?'
            if any(c in m for c in 'wax+?'):
                out.append(('opens', e[2], m))
        elif e[0] == 'fs':
            out.append((e[1], e[2], ''))
    return out


def refused(S, outs, mark, where, name):
    for s, sig, v in outs:
        ch = changes(S, s, mark)
        S.true(s, not ch, NOTHING, where, '; '.join('%s %r %s' % c for c in ch))
        if sig == 'v':
            S.violated(s, REFUSE, where, 'returns normally')
        elif sig != 'raise':
            S.undecided(s, REFUSE, where, 'outcome %s' % sig)
        elif S.is_exc(s, v, 'SystemExit'):
            code = exit_code(S, s, v)
            if code is None:
                S.undecided(s, REFUSE, where, 'exit status not determined')
            else:
                S.true(s, code not in (K(0), NONE, FALSE), REFUSE, where, 'exit status %r' % (code,))
        else:
            S.holds(s, REFUSE, where)
    if not outs:
        S.undecided(None, REFUSE, where, 'no outcome')


def exit_code(S, s, v):
    a = attr(S.ip, s.clone(), v, 'args')
    if type(a) is not Tup:
        return None
    return a.items[0] if a.items else NONE


def written(S, outs, mark, where, target, binary, disk):
    for s, sig, v in outs:
        ch = changes(S, s, mark)
        if sig == 'raise' and S.is_exc(s, v, 'SystemExit') and exit_code(S, s, v) not in (K(0), NONE):
            S.violated(s, ALLOWED, where, 'exits with %r' % (exit_code(S, s, v),))
            continue
        if sig == 'raise' and not S.is_exc(s, v, 'SystemExit') and not ch:
            S.undecided(s, ALLOWED, where, 'raises %s' % S.exc_text(s, v))
            continue
        if sig == 'v':
            S.holds(s, ALLOWED, where)
        if target is None:
            S.true(s, not ch, NONE_OUT, where, '; '.join('%s %r %s' % c for c in ch))
            continue
        S.true(s, len(ch) == 1 and ch[0][0] == 'opens', ONLY, where, '; '.join('%s %r %s' % c for c in ch) or 'nothing opened')
        for what, p, m in ch:
            if what == 'opens':
                q = disk.path(p)
                if q is None:
                    S.undecided(s, ONLY, where, 'opens %r' % (p,))
                else:
                    S.true(s, q == target, ONLY, where, 'opens %s instead of %s' % (q, target))
                S.true(s, ('b' in m) == binary, MODE, where, 'mode %s' % m)


def usage(S, tool):
    """ Unusable command lines. """
    for argv in ([], [IN[tool]], ['-o', '/out/old', '-c'], [IN[tool], SCHEMA, 'extra', '-c', '-o', '/out/old'],
                 [IN[tool], SCHEMA, '-c', '-o'], [IN[tool], SCHEMA, '--nonsense', '-o', '/out/new']):
        disk = CliDisk('ok', tool)
        st = S.fresh(**disk.cfg())
        S.ip.cfg['argv'] = [K(a) for a in argv]
        mark = st.events
        refused(S, S.call(st, TOOLS_[tool]), mark, TOOLS_[tool], NOTHING)
