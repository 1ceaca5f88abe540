""" Abstract threads using a thread-aware file: particular threads, streams
    whose operations stay uninterpreted, and records of who did what. """

from absint.scen import *
from absint import models as M, lib_models as L

TAF = 'ebmlite.threaded_file.ThreadAwareFile'
OPEN = TAF + '.getThreadStream'
# how an operation of a stream may fail
KINDS_OF_FAILURE = ('OSError', 'ValueError', 'RuntimeError', 'KeyboardInterrupt')
PATH = K('dir/f.ebml')


def valid(mode):
    """ Does FileIO accept the mode? """
    return isinstance(mode, str) and set(mode) <= set('rwaxb+') and sum(mode.count(x) for x in 'rwax') == 1 and mode.count('+') <= 1


class Threads:
    """ n threads. Names are all the same; identifiers differ unless recycled. """

    def __init__(self, S, n=3, fails=None, recycled=False, openfails=None, **cfg):
        self.S, self.ip = S, S.ip
        self.fails, self.openfails = fails, openfails
        cfg.setdefault('fileio', self.fileio)
        cfg.setdefault('pathq', lambda st, op, p: True)
        self.st = S.fresh(**cfg)
        self.idents = [K(140001) if recycled else K(140001 + 16 * i) for i in range(n)]
        self.threads = [L.new_thread(self.ip, self.st, x, K('worker')) for x in self.idents]
        self.n = 0

    def act(self, st, i):
        """ Thread i runs from now on. """
        L.run_as(st, self.threads[i], self.idents[i])
        return st

    def stream(self, st, args=(), kw=(), cls='io.FileIO', **info):
        self.n += 1
        d = dict(src=K('s%d' % self.n), tag='file', oracle=self.fails)
        for a in ('name', 'mode', 'encoding', 'errors', 'newlines'):
            d[a] = Sym('%s of stream %d' % (a, self.n), 'str')
        d.update(info)
        return new_stream(self.ip, st, 'src', cls, **d)

    def fileio(self, ip, st, c):
        if self.openfails is not None:
            r = self.openfails(st)
            if r:
                st.ev('openfail', NONE, NONE, ip.where())
                return ip.raise_(st, 'FileNotFoundError', 'No such file')
        mode = c.kw.get('mode', c.args[1] if len(c.args) > 1 else K('r'))
        if isinstance(mode, K) and not valid(mode.v):
            return ip.raise_(st, 'ValueError', 'invalid mode')
        ref = self.stream(st)
        st.ev('fopen', ref, tuple(c.args), tuple(sorted(c.kw.items())), c.star is not None or c.dstar is not None,
              st.ctx.get('threadref'), ip.where())
        st.ev('open', ref, c.args[0] if c.args else NONE, NONE, 'io.FileIO', ip.where())
        return [(st, 'v', ref)]

    def create(self, st, *args, **kw):
        """ Outcomes of ThreadAwareFile(...). """
        return self.S.call(st, TAF, *args, **kw)

    def file(self, st, *args, **kw):
        return self.S.pick(self.create(st, *(args or (() if kw else (PATH, K('rb')))), **kw), 'thread-aware file')

    def used(self, st, f, who):
        """ The state after each of these threads used the file once. """
        for i in who:
            st, _ = self.S.pick(self.S.method(self.act(st, i), f, 'tell'), 'first use')
        return st

    def streams(self, st):
        """ {thread: [streams it opened]}. """
        out = {}
        for e in st.event_list():
            if e[0] == 'fopen':
                out.setdefault(self.threads.index(e[5]) if e[5] in self.threads else None, []).append(e[1])
        return out

    def opens(self, st, mark=None):
        return [e for e in (st.event_list(mark) if mark is not None else st.event_list()) if e[0] in ('open', 'openfail')]

    def calls(self, st, mark=None):
        return [e for e in (st.event_list(mark) if mark is not None else st.event_list()) if e[0] == 'scall']

    def closed(self, st, ref):
        return st.get(ref).info.get('closed', FALSE) == TRUE

    def waited(self, st, f):
        """ The events that operations of some thread wait on. """
        out = set()
        for op in ('tell', 'close', 'closeAll', 'cleanup'):
            for i in (0, len(self.threads) - 1):
                s0 = self.act(st.clone(), i)
                mark = s0.events
                for s, sig, v in self.S.method(s0, f, op):
                    out |= {e[2] for e in s.event_list(mark) if e[0] == 'sync' and e[1] == 'wait'}
        return out

    def gate(self, st, events):
        """ Are these events set, and all locks free? None when unknown. """
        for r in events:
            flag = st.get(r).info.get('flag', TRUE)
            if flag != TRUE:
                return False if flag == FALSE else None
        for o in st.heap.values():
            if o.info.get('type') == 'tlock' and o.info['held'] != ZERO:
                return False if type(o.info['held']) is K else None
        return True
