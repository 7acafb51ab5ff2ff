"""The simulated world around the real stream2py code: scripted sources, clients that
execute operation lists, and the recorded history."""
import sys
import functools

from dst import sim as S
from dst.sim import Violation, HarnessError, SimAbort


class InjectedError(Exception):
    """Raised by scripted sources and keys."""


class InjectedBase(BaseException):
    """A non-Exception injected fault."""


class FalsyError(Exception):
    """An exception that is falsy, as an empty container of errors is."""

    def __len__(self):
        return 0


class ClientCrash(Exception):
    pass


EXC = {
    'InjectedError': InjectedError,
    'FalsyError': FalsyError,
    'ValueError': ValueError,
    'TypeError': TypeError,
    'IndexError': IndexError,
    'OSError': OSError,
    'ConnectionResetError': ConnectionResetError,
    'StopIteration': StopIteration,
    'KeyError': KeyError,
    'RuntimeError': RuntimeError,
    'MemoryError': MemoryError,
    'EOFError': EOFError,
    'InjectedBase': InjectedBase,
    'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': SystemExit,
    'GeneratorExit': GeneratorExit,
    'TimeoutError': TimeoutError,
}


# --------------------------------------------------------------------------- keys
@functools.total_ordering
class SimKey:
    """A key whose comparisons are scheduling points and may fail."""

    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def _pt(self, other):
        sim = S.SIM
        if sim is not None and not sim.aborting:
            w = WORLD
            if w is not None:
                w.on_compare()
            sim.point('cmp')

    def __lt__(self, other):
        if not isinstance(other, SimKey):
            return NotImplemented
        self._pt(other)
        return self.k < other.k

    def __gt__(self, other):
        if not isinstance(other, SimKey):
            return NotImplemented
        self._pt(other)
        return self.k > other.k

    def __eq__(self, other):
        if not isinstance(other, SimKey):
            return NotImplemented
        return self.k == other.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return f'K{self.k}'


class IntLike(int):
    """An int subclass, as numpy scalars or enum keys are."""


def wrap_key(style, k):
    if k is None:
        return None
    if style == 'int':
        return k
    if style == 'float':
        return k / 4.0
    if style == 'tuple':
        return ('a', k // 3, k)
    if style == 'sim':
        return SimKey(k)
    if style == 'str':
        return f'{k + 1000:06d}'
    if style == 'neg':
        return k - 7
    if style == 'intlike':
        return IntLike(k)
    raise HarnessError(style)


def unwrap_key(style, v):
    if v is None:
        return None
    try:
        if style in ('int', 'intlike'):
            return int(v)
        if style == 'float':
            return int(v * 4)
        if style == 'tuple':
            return v[2]
        if style == 'sim':
            return v.k
        if style == 'str':
            return int(v) - 1000
        if style == 'neg':
            return v + 7
    except Exception:
        return f'?{v!r}'
    raise HarnessError(style)


KEY_STYLES = ('int', 'float', 'tuple', 'sim', 'str', 'neg', 'intlike')


# -------------------------------------------------------------------------- items
class Item:
    __slots__ = ('key', 'uid')

    def __init__(self, key, uid):
        self.key = key
        self.uid = uid

    def __repr__(self):
        return f'{type(self).__name__}({self.uid})'


class FalsyItem(Item):
    __slots__ = ()

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class ArrayLikeItem(Item):
    """Like a numpy array: == gives something whose truth value is an error."""

    __slots__ = ()
    __hash__ = None

    class _Amb:
        def __bool__(self):
            raise ValueError('The truth value of an array is ambiguous')

    def __eq__(self, other):
        return self._Amb()

    def __ne__(self, other):
        return self._Amb()

    def __bool__(self):
        raise ValueError('The truth value of an array is ambiguous')


class OpaqueItem(ArrayLikeItem):
    """Like a handle: can be passed on, and nothing else."""

    __slots__ = ()

    def _no(self, *a):
        raise TypeError('not possible with a handle')

    __copy__ = __deepcopy__ = __reduce__ = __reduce_ex__ = __len__ = __iter__ = __getitem__ = _no
    __contains__ = __lt__ = __le__ = __gt__ = __ge__ = __add__ = _no


HANDLE = OpaqueItem(0, 'handle')
ITEM_SHAPES = ('tuple', 'obj', 'falsy', 'array', 'list', 'dict', 'opaque')


def mk_item(shape, key, uid):
    if shape == 'tuple':
        return (key, uid)
    if shape == 'list':
        return [key, uid]
    if shape == 'dict':
        return {'k': key, 'uid': uid}
    if shape == 'obj':
        return Item(key, uid)
    if shape == 'falsy':
        return FalsyItem(key, uid)
    if shape == 'array':
        return ArrayLikeItem(key, uid)
    if shape == 'opaque':
        return OpaqueItem(key, uid)
    raise HarnessError(shape)


def item_key(x):
    if isinstance(x, (tuple, list)):
        return x[0]
    if isinstance(x, dict):
        return x['k']
    return x.key


def item_uid(x):
    """uid of a delivered item, or a descriptive string for anything else."""
    try:
        if isinstance(x, (tuple, list)) and len(x) == 2:
            return x[1]
        if isinstance(x, dict):
            return x['uid']
        if isinstance(x, Item):
            return x.uid
    except Exception:
        pass
    return f'?{type(x).__name__}'


# ------------------------------------------------------------------------ history
class Ev:
    """A source event."""

    __slots__ = ('seq', 't', 'task', 'kind', 'sess', 'data')

    def __init__(self, seq, t, task, kind, sess, data):
        self.seq, self.t, self.task, self.kind, self.sess, self.data = (
            seq, t, task, kind, sess, data)

    def __repr__(self):
        return f'[{self.seq} t={self.t:.3f} {self.task}] src.{self.kind} s{self.sess} {self.data}'


class Rec:
    """A client operation."""

    __slots__ = ('i', 'task', 'kind', 'args', 'inv', 'ret', 't0', 't1', 'out', 'reader',
                 'sess', 'cur', 'extra', 'timed')

    def __init__(self, i, task, kind, args, inv, t0, reader=None, sess=None):
        self.i, self.task, self.kind, self.args = i, task, kind, args
        self.inv, self.t0 = inv, t0
        self.ret = None
        self.t1 = None
        self.out = None
        self.reader = reader
        self.sess = sess
        self.cur = None
        self.extra = None
        self.timed = 0

    def __repr__(self):
        return (f'[{self.inv}..{self.ret} t={self.t0:.3f}..{self.t1 if self.t1 is None else round(self.t1,3)} '
                f'{self.task}] {self.reader or ""}.{self.kind}{self.args} -> {self.out}')


WORLD = None


class SourceCore:
    """Scripted behaviour and invariants of a source.

    cfg: {'key','item','sessions':[{'open':{'d','x'},'script':[...],'close':{'d','x'},
          'info':{'x'}, 'keyfail': n}], 'idle': None|number}
    Script entries: ['i',k,d] item with key k after d seconds; ['n',d] nothing;
    ['x',exc,d] raises.  After the script: nothing, forever ('tail': 'n'), or the entry
    given as 'tail'.
    """

    def __init__(self, world, cfg, strict=True):
        self.w = world
        self.cfg = cfg
        self.strict = strict
        self.opens = 0
        self.sess = -1
        self.state = 'closed'
        self.busy = None
        self.pos = 0
        self.n_items = 0
        self.keycalls = 0
        self.keygot = False

    def _sess_cfg(self, i):
        ss = self.cfg.get('sessions') or [{}]
        return ss[i] if i < len(ss) else ss[-1] if self.cfg.get('repeat', True) else {}

    def _bad(self, cls, msg):
        if self.strict:
            self.w.sim.violate(cls, msg)

    def _enter(self, what):
        if self.busy is not None:
            self._bad('source-overlap', f'{what} called while {self.busy} is in progress '
                      f'(by {self.w.sim.current.name})')
        self.busy = f'{what} (by {self.w.sim.current.name})'

    def _leave(self):
        self.busy = None

    def _delay(self, d):
        if d:
            self.w.sim.sleep(d, 'source')
        else:
            self.w.sim.point('source')

    def open(self):
        w = self.w
        if self.state == 'open':
            self._bad('open-while-open', f'open called while the source is open (session {self.sess})')
        self._enter('open')
        self.opens += 1
        self.sess += 1
        sess = self.sess
        c = self._sess_cfg(sess).get('open') or {}
        w.ev('open_call', sess)
        try:
            self._delay(c.get('d', 0))
            if c.get('x'):
                w.sim.fault('open_failure')
                w.raised = EXC[c['x']]('open failed')
                w.exc_of[w.ev('open_fail', sess, c['x']).seq] = w.raised
                raise w.raised
            self.state = 'open'
            self.pos = 0
            self.n_items = 0
            self.keycalls = 0
            self.keygot = False
            w.ev('open_ret', sess)
        finally:
            self._leave()

    def read(self):
        w = self.w
        if self.state != 'open':
            self._bad('read-when-closed', f'read called while the source is {self.state} (by {w.sim.current.name})')
            raise InjectedError('read on a closed source')
        self._enter('read')
        sess = self.sess
        sc = self._sess_cfg(sess)
        script = sc.get('script') or []
        if self.pos < len(script):
            e = script[self.pos]
        elif self.pos < sc.get('bulk', 0):
            e = ['i', self.pos, 0]
        else:
            e = sc.get('tail') or ['n', 0]
        self.pos += 1
        w.ev('read_call', sess)
        try:
            if e[0] == 'i':
                if e[2] >= 0.5:
                    w.sim.fault('slow_read')
                self._delay(e[2])
                uid = f'{sess}.{self.n_items}'
                self.n_items += 1
                key = wrap_key(self.cfg.get('key', 'int'), e[1])
                item = mk_item(self.cfg.get('item', 'tuple'), key, uid)
                w.items[uid] = (item, e[1], sess)
                w.ev('read_item', sess, uid)
                return item
            if e[0] == 'n':
                self._delay(e[1])
                w.ev('read_none', sess)
                return None
            if e[0] in ('s', 'q'):  # the source itself asks for the stop, or after its stream
                self._delay(e[1])
                if w.sb is not None:
                    w.sim.fault('stop_by_source' if e[0] == 's' else 'question_by_source')
                    w.do(['stop'] if e[0] == 's' else ['is_running'])
                w.ev('read_none', sess)
                return None
            if e[0] == 'x':
                self._delay(e[2])
                w.sim.fault('read_failure')
                w.ev('read_fail', sess, e[1])
                raise EXC[e[1]]('read failed')
            raise HarnessError(e)
        finally:
            self._leave()

    def close(self):
        w = self.w
        if self.state != 'open':
            self._bad('close-when-closed', f'close called while the source is {self.state} (by {w.sim.current.name})')
        self._enter('close')
        sess = self.sess
        c = self._sess_cfg(sess).get('close') or {}
        w.ev('close_call', sess)
        try:
            try:
                self._delay(c.get('d', 0))
            finally:  # a close that fails, or is interrupted, has closed
                if not w.sim.aborting:
                    self.state = 'closed'
                    w.ev('close_ret', sess)
            if c.get('x'):
                w.sim.fault('close_failure')
                raise EXC[c['x']]('close failed')
        finally:
            self._leave()

    def key(self, data):
        w = self.w
        sim = w.sim
        if not sim.aborting:
            name = sim.current.name
            if name.startswith('lib'):
                self.keycalls += 1
                if self._sess_cfg(self.sess).get('keyfail') == self.keycalls:
                    sim.fault('key_failure')
                    w.ev('key_fail', self.sess, item_uid(data))
                    raise InjectedError('key failed')
            else:
                w.on_client_key(name)
            if self.cfg.get('keypoint'):
                sim.point('key')
        return item_key(data)

    def session_key(self):
        """The key function of the present session: a source may make one at every opening."""
        w = self.w
        sess = self.sess
        c = self._sess_cfg(sess).get('keyget') or {}
        if c.get('x') and not self.keygot and self.state == 'open':
            self.keygot = True
            w.sim.fault('key_lookup_failure')
            w.raised = EXC[c['x']]('no key function')
            w.exc_of[w.ev('keyget_fail', sess, c['x']).seq] = w.raised
            raise w.raised

        def key(data):
            if not w.sim.aborting and int(item_uid(data).split('.')[0]) > sess:
                self._bad('stale-key', f'an item of session {self.sess} is keyed by the key function of session {sess}')
            return self.key(data)
        return key

    @property
    def info(self):
        w = self.w
        c = self._sess_cfg(self.sess).get('info') or {}
        w.ev('info', self.sess)
        self._delay(c.get('d', 0))
        if c.get('x'):
            w.sim.fault('info_failure')
            w.raised = EXC[c['x']]('info failed')
            w.exc_of[w.ev('info_fail', self.sess, c['x']).seq] = w.raised
            raise w.raised
        d = {'session': self.sess, 'opens': self.opens, 'at': w.sim.now, 'handle': HANDLE}
        w.infos.setdefault(self.sess, []).append(dict(d))
        return d


def make_source(world, cfg, strict=True):
    """A source object of the requested style around a SourceCore."""
    stream2py = world.sp

    core = SourceCore(world, cfg, strict)
    style = cfg.get('style', 'plain')
    base = {'plain': object, 'sr': stream2py.SourceReader, 'ss': stream2py.StreamSource}[style]

    # sources of one simulation may be instances of one and the same class
    kinds = world.sim.source_classes if cfg.get('sharecls') else {}
    kind = style, base, bool(cfg.get('pkey')), bool(cfg.get('rcls')), bool(cfg.get('falsysrc'))
    cls = kinds.get(kind)
    if cls is None:
        class Source(base):
            def open(self):
                return self._core.open()

            def read(self):
                return self._core.read()

            def close(self):
                return self._core.close()

            def key(self, data):
                return self._core.key(data)

            @property
            def info(self):
                return self._core.info

            @property
            def sleep_time_on_read_none_s(self):
                return self._core.cfg.get('idle')

        if cfg.get('no_super_init'):
            Source.__init__ = lambda self: None
        if cfg.get('pkey'):
            Source.key = property(lambda self: self._core.session_key())
        if cfg.get('falsysrc'):  # has a length, which is 0
            Source.__len__ = lambda self: 0
        if cfg.get('rcls'):
            Source.buffer_reader_class = type('OwnReader', (stream2py.BufferReader,), {})
        cls = kinds[kind] = Source
    src = cls()
    src._core = core
    if cfg.get('stablekey') and not cfg.get('pkey'):
        src.key = core.key  # one and the same object for all sessions
    world.core = core
    return src


class World:
    def __init__(self, sim, plan, strict=False, sp=None):
        global WORLD
        import stream2py

        WORLD = self
        self.sp = sp or stream2py
        self.sim = sim
        self.plan = plan
        self.events = []
        self.recs = []
        self.items = {}
        self.readers = {}
        self.rmeta = {}
        self.threads = {}
        self.core = None
        self.sb = None
        self.client_key_fail = {}
        self.client_cmp_fail = {}
        self.n_stops = 0
        self.exc_of = {}
        self.infos = {}
        self.kstyle = plan.get('src', {}).get('key', 'int')
        self.source = make_source(self, plan['src'], strict) if 'src' in plan else None
        sim.keep.append(self)

    # ------------------------------------------------------------- recording
    def ev(self, kind, sess, data=None):
        sim = self.sim
        e = Ev(sim.stamp(), sim.now, sim.current.name, kind, sess, data)
        self.events.append(e)
        if sim.trace is not None:
            sim.note('source', kind, f'session={sess}', '' if data is None else data)
        return e

    def canon(self, v):
        if v is None or isinstance(v, str) and v == 'END':
            return v
        if isinstance(v, list) and not (len(v) == 2 and isinstance(v[1], str)
                                        and self.plan['src'].get('item') == 'list'):
            out = [self.check_item(x) for x in v]
            v.clear()  # the list is the caller's, to do with what it likes
            return out
        return self.check_item(v)

    def check_item(self, x):
        uid = item_uid(x)
        known = self.items.get(uid)
        if known is None:
            return f'?{x!r}'
        if known[0] is not x:
            # a copy is fine as long as it carries the same key
            try:
                if unwrap_key(self.kstyle, item_key(x)) != known[1]:
                    return f'?altered {uid}'
            except Exception:
                return f'?altered {uid}'
        return uid

    def key_of(self, uid):
        return self.items[uid][1]

    # ------------------------------------------------------------- key faults
    def on_client_key(self, name):
        f = self.client_key_fail.get(name)
        if f is not None:
            f -= 1
            if f <= 0:
                self.client_key_fail.pop(name)
                self.sim.fault('client_key_failure')
                raise InjectedError('client key failed')
            self.client_key_fail[name] = f

    def on_compare(self):
        name = self.sim.current.name
        f = self.client_cmp_fail.get(name)
        if f is not None:
            f -= 1
            if f <= 0:
                self.client_cmp_fail.pop(name)
                self.sim.fault('comparison_failure')
                raise InjectedError('comparison failed')
            self.client_cmp_fail[name] = f

    # ------------------------------------------------------------- operations
    def begin(self, kind, args, reader=None):
        sim = self.sim
        r = Rec(len(self.recs), sim.current.name, kind, args, sim.stamp(), sim.now, reader,
                self.rmeta.get(reader))
        self.recs.append(r)
        r.timed = -sim.current.timed
        if sim.trace is not None:
            sim.note('call', f'{reader or "stream"}.{kind}', args)
        return r

    def end(self, r, out):
        sim = self.sim
        r.ret = sim.stamp()
        r.timed += sim.current.timed
        r.t1 = sim.now
        r.out = out
        if sim.trace is not None:
            sim.note('return', f'{r.reader or "stream"}.{r.kind}', out)

    def call(self, kind, args, fn, reader=None, canon=True):
        r = self.begin(kind, args, reader)
        try:
            v = fn()
        except SimAbort:
            raise
        except HarnessError:
            raise
        except BaseException as e:
            e.__traceback__ = None
            self.end(r, ('exc', type(e).__name__, str(e)))
            r.extra = e
            e.__context__ = None
            e.__cause__ = None
            return r
        r.extra = None
        self.end(r, ('ok', self.canon(v) if canon else v))
        return r

    def cursor(self, rname):
        """(last_key, last_item) of a reader, unwrapped."""
        rd = self.readers.get(rname)
        if rd is None:
            return None
        li = rd.last_item
        return (unwrap_key(self.kstyle, rd.last_key),
                None if li is None else self.check_item(li))

    def add_reader(self, rname, rd):
        self.readers[rname] = rd
        try:
            self.rmeta[rname] = rd.source_reader_info['session']
        except Exception:
            self.rmeta[rname] = None

    def wrap_kw(self, kw):
        kw = dict(kw)
        for a in ('start', 'stop'):
            if a in kw:
                kw[a] = wrap_key(self.kstyle, kw[a])
        return kw

    def do(self, op):
        """Executes one client operation; unknown readers are skipped."""
        sim = self.sim
        kind = op[0]
        if kind == 'sleep':
            sim.sleep(op[1], 'client-sleep')
            return None
        if kind == 'yield':
            sim.point('client')
            return None
        if kind == 'start':
            return self.call('start', (), self.sb.start, canon=False)
        if kind == 'stop':
            r = self.call('stop', (), self.sb.stop, canon=False)
            self.n_stops += 1
            return r
        if kind == 'is_running':
            return self.call('is_running', (), lambda: self.sb.is_running, canon=False)
        if kind == 'join':
            return self.call('join', (), lambda: self.sb.join(), canon=False)
        if kind == 'drop':
            n = tuple(op[1:])  # one, unless said otherwise
            return self.call('drop', n or (1,), lambda: self.sb.drop(*n), canon=False)
        if kind in ('sbnext', 'sbcall'):
            name = f'@sb{self.core.sess}.{self.n_stops}'
            self.rmeta[name] = self.core.sess
            f = (lambda: next(self.sb)) if kind == 'sbnext' else (lambda: self.sb())
            return self.call('next', {}, f, name)
        if kind == 'sbiter':  # a for loop over the stream itself
            self.rmeta[op[1]] = self.core.sess
            return self.do_iter(self.sb, op[1], op[2] if len(op) > 2 else None,
                                op[3] if len(op) > 3 else 0)
        if kind == 'enter':
            return self.call('start', (), self.sb.__enter__, canon=False)
        if kind == 'exit':
            r = self.call('stop', (), lambda: self.sb.__exit__(None, None, None), canon=False)
            self.n_stops += 1
            return r
        if kind == 'loop':
            return self.do_loop(op[1], op[2], op[3])
        if kind == 'ops':
            for o in op[1]:
                self.do(o)
            return None
        if kind == 'wait':  # until a client is done
            if op[1] in self.threads:
                self.threads[op[1]].join()
            return None
        if kind == 'mk':
            kw = op[2] if len(op) > 2 else {}
            r = self.call('mk', (op[1], kw), lambda: self.sb.mk_reader(**kw), canon=False)
            if r.out[0] == 'ok':
                rd = r.out[1]
                r.out = ('ok', None)
                wait = (op[3] if len(op) > 3 else None)
                if wait is not None:
                    rd.set_sleep_time_on_iter_none(wait)
                self.add_reader(op[1], rd)
                if self.plan.get('seq_control'):
                    self.rmeta[op[1]] = self.core.sess
                r.sess = self.rmeta[op[1]]
                r.reader = op[1]
            return r
        if kind == 'crash':
            raise ClientCrash()
        if kind == 'keyfail':
            self.client_key_fail[sim.current.name] = op[1]
            return None
        if kind == 'cmpfail':
            self.client_cmp_fail[sim.current.name] = op[1]
            return None
        if kind == 'clearfail':
            self.client_key_fail.pop(sim.current.name, None)
            self.client_cmp_fail.pop(sim.current.name, None)
            return None
        # --- operations on a reader
        rname = op[1]
        rd = self.readers.get(rname)
        if rd is None:
            return None
        if kind == 'read':
            kw = op[2]
            r = self.call('read', kw, lambda: rd.read(**kw), rname)
        elif kind == 'oldnext':
            kw = op[2]
            r = self.call('oldnext', kw, lambda: rd.next(**kw), rname)
        elif kind == 'next':
            r = self.call('next', {}, lambda: next(rd), rname)
        elif kind == 'nextd':
            r = self.call('nextd', {}, lambda: self._nextd(rd), rname)
        elif kind == 'head':
            kw = op[2]
            r = self.call('head', kw, lambda: rd.head(**kw), rname)
        elif kind == 'tail':
            kw = op[2]
            r = self.call('tail', kw, lambda: rd.tail(**kw), rname)
        elif kind == 'range':
            kw = op[2]
            kww = self.wrap_kw(kw)
            r = self.call('range', kw, lambda: rd.range(**kww), rname)
        elif kind == 'delcur':
            def f():
                del rd.last_item
            r = self.call('delcur', {}, f, rname)
        elif kind == 'iter':
            return self.do_iter(rd, rname, op[2] if len(op) > 2 else None,
                                op[3] if len(op) > 3 else 0)
        elif kind == 'is_stopped':
            return self.call('is_stopped', (), lambda: rd.is_stopped, rname, canon=False)
        elif kind == 'info':
            return self.call('info', (), lambda: rd.source_reader_info, rname, canon=False)
        elif kind == 'attach':
            r = self.call('attach', (), lambda: self.sb.attach_reader(rd), rname, canon=False)
            if r.out[0] == 'ok':
                self.rmeta[rname] = rd.source_reader_info.get('session')
            return r
        elif kind == 'set_poll':
            return self.call('set_poll', (op[2],), lambda: rd.set_sleep_time_on_iter_none(
                *([] if op[2] is None else [op[2]])), rname, canon=False)
        else:
            raise HarnessError(f'unknown op {op}')
        r.cur = self.cursor(rname)
        return r

    def _nextd(self, rd):
        x = next(rd, END)
        return 'END' if x is END else x

    def do_iter(self, rd, rname, k, think):
        """A for loop over the reader, recorded item by item."""
        it = iter(rd)
        got = 0
        r = None
        while k is None or got < k:
            r = self.begin('iter', {}, rname)
            try:
                x = next(it)
            except StopIteration:
                self.end(r, ('end',))
                r.cur = self.cursor(rname)
                return r
            except (SimAbort, HarnessError):
                raise
            except BaseException as e:
                e.__traceback__ = None
                self.end(r, ('exc', type(e).__name__, str(e)))
                r.cur = self.cursor(rname)
                return r
            self.end(r, ('ok', self.canon(x)))
            r.cur = self.cursor(rname)
            got += 1
            if think:
                self.sim.sleep(think, 'client-think')
        it.close()
        return r

    def do_loop(self, rname, mode, a):
        """A consumer loop: until the end is signalled, an error, or enough items."""
        n, poll, think = a.get('n', 1), a.get('poll', 0.1), a.get('think', 0)
        limit = a.get('limit')
        tries = a.get('tries')
        got = 0
        while limit is None or got < limit:
            stopped = False
            if mode == 'next':
                r = self.do(['next', rname])
            elif mode == 'sb':
                r = self.do(['sbnext'])
            elif mode == 'blocking':
                kw = {'blocking': True}
                if n > 1:
                    kw['n'] = n
                r = self.do(['read', rname, kw])
            elif mode == 'chunk':
                q = self.do(['is_stopped', rname])
                if q is None:
                    return
                stopped = q.out == ('ok', True)
                r = self.do(['read', rname, {'n': n, 'ignore_no_item_found': True}])
            elif mode == 'range':
                q = self.do(['is_stopped', rname])
                if q is None:
                    return
                stopped = q.out == ('ok', True)
                r = self.do(['range', rname, {'start': -9, 'stop': 100000, 'only_new_items': True,
                                              'ignore_no_item_found': True}])
            else:
                raise HarnessError(mode)
            if r is None:
                return
            if r.out[0] != 'ok':
                return
            if r.out[1] is None:
                if mode == 'blocking' or stopped:
                    return
                if tries is not None:
                    tries -= 1
                    if tries < 0:
                        return
                self.sim.sleep(poll, 'client-poll')
                continue
            got += 1
            if think:
                self.sim.sleep(think, 'client-think')

    # ------------------------------------------------------------- clients
    def run_client(self, c):
        try:
            for op in c['ops']:
                self.do(op)
        except ClientCrash:
            self.sim.fault('client_crash')

    def spawn(self, c):
        th = self.sim.spawn(lambda: self.run_client(c), c['name'])
        self.threads[c['name']] = th
        if c.get('nostall'):
            th._task.nostall = True
        return th

    def mk_buffer(self):
        b = dict(self.plan['buf'])
        self.sb = self.sp.StreamBuffer(self.source, **b)
        return self.sb

    # ------------------------------------------------------------- derived
    def overlaps(self):
        """How often a source item arrived, or another client's call ended, inside a call."""
        marks = [e.seq for e in self.events if e.kind in ('read_item', 'read_fail')]
        marks += [r.ret for r in self.recs if r.ret and r.kind in ('drop', 'stop', 'start')]
        n = 0
        for r in self.recs:
            if r.reader is not None and r.ret is not None:
                n += sum(1 for m in marks if r.inv < m < r.ret)
        return n

    def history_digest(self):
        import hashlib
        h = hashlib.blake2b(digest_size=8)
        for e in self.events:
            h.update(f'{e.seq} {e.kind} {e.sess} {e.data};'.encode())
        for r in self.recs:
            h.update(f'{r.inv} {r.ret} {r.task} {r.kind} {r.out!r};'.encode())
        return h.hexdigest()

    def sessions(self):
        """Per session: list of its events."""
        out = {}
        for e in self.events:
            out.setdefault(e.sess, []).append(e)
        return out

    def produced(self, sess):
        """[(uid, key, seq read, t read, seq next producer event or None)] in read order."""
        evs = [e for e in self.events if e.sess == sess]
        res = []
        for i, e in enumerate(evs):
            if e.kind == 'read_item':
                nxt = None
                for f in evs[i + 1:]:
                    if f.kind in ('read_call', 'close_call', 'key_fail') and f.task == e.task:
                        nxt = f
                        break
                res.append((e.data, self.items[e.data][1], e.seq, e.t,
                            nxt.seq if nxt is not None else None,
                            nxt.kind if nxt is not None else None))
        return res


class _End:
    uid = 'END'


END = _End()
