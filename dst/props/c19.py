"""C19 iterating a source directly yields its valid reads in order, paced and bracketed."""
import hashlib

from dst import gen
from dst.sim import SimAbort, HarnessError
from dst.world import EXC, InjectedError, InjectedBase, Item, FalsyItem, ArrayLikeItem

ID = 'C19'
EPS = 1e-7
FALSY = {'zero': 0, 'empty': '', 'elist': [], 'false': False, 'nul': b'', 'edict': {}}
BODY_X = ['InjectedError', 'FalsyError', 'KeyboardInterrupt', 'StopIteration', 'GeneratorExit', 'SystemExit', 'ValueError',
          'InjectedBase', 'OSError']


def value(v, i):
    if v in FALSY:
        return FALSY[v]
    return {'obj': Item, 'falsy': FalsyItem, 'array': ArrayLikeItem}[v](i, f'v{i}')


def make(rng, tier):
    cls = rng.choice(['sr', 'sr', 'srflag', 'quick', 'quick', 'quicksub', 'ss'])
    n = rng.choice([0, 2, 5, 12, 20])
    pn = rng.choice([0, 0.2, 0.5, 0.8])
    sc = []
    for i in range(n):
        if rng.random() < pn:
            sc.append(['n', rng.choice([0, 0, 0.03])])
        elif rng.random() < 0.05:
            sc.append(['x', rng.choice(['InjectedError', 'OSError', 'StopIteration', 'KeyboardInterrupt',
                                        'EOFError']), rng.choice([0, 0.1])])
        else:
            sc.append(['v', rng.choice(['obj', 'obj', 'falsy', 'array'] + list(FALSY)), rng.choice([0, 0, 0.05, 1])])
    plan = {'cls': cls, 'script': sc, 'idle': rng.choice([None, None, 0, 0.25, 1, 30]),
            'sched': gen.sched(rng, timing=True, eps=0.0)}
    if cls.startswith('quick'):
        if rng.random() < 0.3:
            plan['valid'] = rng.choice(['truthy', 'even', 'all'])
        if rng.random() < 0.3:
            plan['no_data'] = rng.choice([0, 0.2])
    if plan['idle'] == 0 or plan.get('no_data') == 0:
        pass
    uses = []
    for u in range(rng.choice([1, 1, 2, 3])):
        use = {'form': rng.choice(['with', 'with', 'enterexit', '__']), 'n': rng.choice([0, 1, 3, 30]),
               'think': rng.choice([0, 0, 0.1]), 'sleep': rng.choice([0, 0.3])}
        if rng.random() < 0.35:
            use['x'] = rng.choice(BODY_X)
        if rng.random() < 0.15:
            use['open_x'] = rng.choice(['OSError', 'KeyboardInterrupt', 'InjectedBase'])
        if rng.random() < 0.1:
            use['close_x'] = rng.choice(['OSError', 'InjectedBase', 'StopIteration', 'FalsyError'])
        if rng.random() < 0.2:
            use['interrupt'] = [rng.choice([1, 1, 2, 3]), rng.choice(['KeyboardInterrupt', 'SystemExit',
                                                                     'InjectedBase']), rng.choice([0, 0.1])]
        if rng.random() < 0.25:
            use['others'] = rng.choice([1, 2])
        if rng.random() < 0.2:
            use['idle'] = rng.choice([0, 0.1, 2])
        if rng.random() < 0.2:
            use['again'] = True  # a second iterator
        uses.append(use)
    plan['uses'] = uses
    if rng.random() < 0.5:
        plan['jumps'] = [[rng.choice([0.0, 0.1, 0.3, 1]), rng.choice([-3600, -1, 100])]
                         for _ in range(rng.randint(1, 2))]
    if cls.startswith('quick') and rng.random() < 0.2:
        plan['stream'] = True
    return plan


class H:
    """The recorded history."""

    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.ev = []
        self.pos = 0
        self.errors = []
        self.idles = []
        sim.keep.append(self)

    def add(self, kind, x=None, task=None):
        self.ev.append((self.sim.stamp(), self.sim.now, self.sim.current.name, kind, x))

    def valid(self, x):
        v = self.plan.get('valid')
        if v == 'all':
            return True
        if x is None:
            return False
        if v == 'truthy':
            return not isinstance(x, ArrayLikeItem) and bool(x)
        if v == 'even':
            return not isinstance(x, Item) or x.key % 2 == 0
        return True

    def read(self):
        self.add('read_call')
        sc = self.plan['script']
        e = sc[self.pos] if self.pos < len(sc) else ['x', 'InjectedError', 0]
        i = self.pos
        self.pos += 1
        d = e[-1]
        if d:
            self.sim.sleep(d, 'source')
        else:
            self.sim.point('source')
        if e[0] == 'x':
            self.sim.fault('read_failure')
            x = EXC[e[1]]('read failed')
            self.add('read_x', x)
            raise x
        x = None if e[0] == 'n' else value(e[1], i)
        self.add('read', (x,))
        return x

    def history_digest(self):
        h = hashlib.blake2b(digest_size=8)
        for s, t, task, kind, x in self.ev:
            h.update(f'{s} {t} {task} {kind} {x!r}'[:60].split(' at 0x')[0].encode())
        return h.hexdigest()


def mk_source(h, plan):
    import stream2py
    from stream2py.source_reader import SourceReader, QuickSourceReader
    sim = h.sim
    state = h.state = {'open': 0, 'close': 0, 'is': False}

    class Common:
        def read(self):
            return h.read()

        def open(self):
            if cls != 'ss' and self.closed is not True:
                sim.violate('closed-flag', f'closed is {self.closed!r} before the source has been opened')
            h.add('open')
            t = int(sim.wall() * 1e6)
            got = self.get_timestamp()
            if type(got) is not int or abs(got - t) > 1:
                sim.violate('timestamp', f'{got!r} at {t}')
            x = plan['uses'][h.use].get('open_x') if h.use < len(plan['uses']) else None
            if x:
                sim.fault('open_failure')
                x = h.open_x = EXC[x]('open failed')
                h.add('open_x', x)
                raise x
            if cls.startswith('quick'):
                QuickSourceReader.open(self)
                if self.closed is not False:
                    sim.violate('closed-flag', f'closed is {self.closed!r} after the source has been opened')
            elif cls == 'srflag':
                self._closed = False
            h.add('opened')

        def close(self):
            h.add('close')
            if cls not in ('ss', 'srflag') and h.scoped and self.closed is not False:
                sim.violate('closed-flag', f'closed is {self.closed!r} before the source has been closed')
            x = plan['uses'][h.use].get('close_x') if h.use < len(plan['uses']) else None
            if x:
                sim.fault('close_failure')
                x = h.close_x = EXC[x]('close failed')
                raise x
            if cls == 'srflag':
                self._closed = True
            if cls.startswith('quick'):
                QuickSourceReader.close(self)
                if self.closed is not True:
                    sim.violate('closed-flag', f'closed is {self.closed!r} after the source has been closed')

    if plan.get('valid'):
        Common.is_valid_data = lambda self, data: h.valid(data)
    if plan.get('no_data') is not None:
        def when_no_data(self, _next=None):
            h.add('no_data', (_next,))
            if plan['no_data']:
                sim.sleep(plan['no_data'], 'no-data')
            h.add('no_data_ret')
        Common.when_no_data = when_no_data

    cls = plan['cls']
    base = {'sr': SourceReader, 'srflag': SourceReader, 'ss': stream2py.StreamSource}.get(cls, QuickSourceReader)
    if cls == 'quicksub':
        class Mid(base):
            pass
        base = Mid

    class Src(Common, base):
        if not cls.startswith('quick'):
            def key(self, data):
                return data

            @property
            def info(self):
                return {}

    return Src()


class Ctx:
    """A source without a context of its own: opened and closed by the caller."""

    def __init__(self, src):
        self.src = src

    def __enter__(self):
        self.src.open()
        return self.src

    def __exit__(self, *a):
        self.src.close()

    enter, exit = __enter__, __exit__


def run(sim, plan):
    h = H(sim, plan)
    h.use = 0
    h.open_x = h.close_x = None
    h.scoped = False
    src = h.src = mk_source(h, plan)
    h.idles = [(0.0, 0.001)]
    quick = plan['cls'].startswith('quick')
    has_ctx = plan['cls'] != 'ss'

    def bad(cls, msg):
        sim.violate(cls, msg)

    def set_idle(x):
        src.set_sleep_time_on_iter_none(x)
        h.idles.append((sim.now, x))

    if plan['idle'] is not None:
        set_idle(plan['idle'])

    def iterate(use, n):
        it = iter(src)
        its = [it]
        got = 0
        while got < n:
            if use.get('again') and got == 1 and len(its) == 1:
                its.append(iter(src))
            it = its[got % len(its)]
            h.add('next')
            try:
                x = next(it)
            except StopIteration:
                bad('ended', 'iterating a source ended by itself')
            h.add('yield', (x,))
            got += 1
            if use['think']:
                sim.sleep(use['think'], 'think')

    def other(use):
        try:
            iterate(use, use['n'])
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            e.__traceback__ = None
            h.errors.append((sim.current.name, e))

    if has_ctx and src.closed is not True:
        bad('closed-flag', 'a new source claims to be open')
    for u, use in enumerate(plan['uses']):
        h.use = u
        h.open_x = h.close_x = None
        h.scoped = True
        n_ev = len(h.ev)
        ctx = src if has_ctx else Ctx(src)
        exc = EXC[use['x']]('body') if use.get('x') else None
        seen = None
        ran = 0
        if 'idle' in use:
            set_idle(use['idle'])
        name = sim.current.name

        def body():
            nonlocal ran
            ran += 1
            h.add('body')
            if has_ctx and src.closed is not False:
                bad('closed-flag', 'closed is not False inside the context')
            if quick:
                t = int(sim.wall() * 1e6)
                if not isinstance(src.open_time, int) or abs(src.open_time - t) > 1:
                    bad('open-time', f'opened at {t} but open_time is {src.open_time!r}')
                if src.info.get('open_time') != src.open_time:
                    bad('open-time', f'info says {src.info!r}, open_time is {src.open_time!r}')
                if src.read_idx != 0:
                    bad('read-idx', f'{src.read_idx!r} after opening')
            ths = [sim.spawn(lambda: other(use), f'u{u}.{k}') for k in range(use.get('others', 0))]
            try:
                if use.get('interrupt'):
                    k, x, d = use['interrupt']
                    sim.interrupts[name] = (sim.current.blocks + k, EXC[x], d)
                iterate(use, use['n'])
                if exc is not None:
                    raise exc
                if use['sleep']:
                    sim.sleep(use['sleep'], 'body')
            finally:
                sim.interrupts.pop(name, None)
                h.add('body_end')
                for t in ths:
                    t.join()
        try:
            if use['form'] == 'with':
                with ctx as got:
                    if got is not src:
                        bad('context', f'with source as x: x is {got!r}')
                    body()
            else:
                enter, exit = ((ctx.enter, ctx.exit) if use['form'] == 'enterexit'
                               else (ctx.__enter__, ctx.__exit__))
                if enter() is not src:
                    bad('context', 'enter does not return the source')
                try:
                    body()
                except (SimAbort, HarnessError):
                    raise
                except BaseException as e:
                    if exit(type(e), e, e.__traceback__):
                        bad('swallowed', f'exit asks to swallow {e!r}')
                    raise
                exit(None, None, None)
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            e.__traceback__ = None
            seen = e
        kinds = [e[3] for e in h.ev[n_ev:]]
        if kinds.count('open') != 1 or kinds[0] != 'open':
            bad('open', f'the source was opened {kinds.count("open")} times by the context: {kinds}')
        if h.open_x is not None:
            if seen is not h.open_x:
                bad('open-error', f'opening raised {h.open_x!r}, the caller saw {seen!r}')
            if ran:
                bad('body-ran', 'the body ran although opening failed')
            if has_ctx and src.closed is not True:
                bad('closed-flag', 'a source that failed to open claims to be open')
            continue
        if ran != 1:
            bad('body-ran', f'the body ran {ran} times ({seen!r})')
        if kinds.count('close') != 1 or kinds[-1] != 'close':
            bad('close', f'the source was closed {kinds.count("close")} times; after the body ended: '
                f'{kinds[kinds.index("body_end"):]} ({seen!r})')
        if h.close_x is not None:
            # the caller sees why closing failed; whether the source is open now is anyone's guess
            if seen is not h.close_x:
                bad('close-error', f'closing raised {h.close_x!r}, the caller saw {seen!r}')
            src = h.src = mk_source(h, plan)
            if h.idles[-1][1] != 0.001:
                set_idle(h.idles[-1][1])
            continue
        if has_ctx and src.closed is not True:
            bad('closed-flag', f'closed is {src.closed!r} after the context ({seen!r})')
        reads = [e[4] for e in h.ev[n_ev:] if e[3] == 'read_x' and e[2] == name]
        intr = use.get('interrupt') and type(seen) is EXC[use['interrupt'][1]]
        if isinstance(seen, RuntimeError) and isinstance(seen.__cause__, StopIteration) and reads \
                and seen.__cause__ is reads[-1]:
            pass  # a generator cannot pass StopIteration on
        elif reads and seen is not reads[-1] and not intr:
            bad('error-changed', f'reading raised {reads[-1]!r}, the caller saw {seen!r}')
        elif not reads and exc is not None and seen is not exc and not intr:
            bad('error-changed', f'the body raised {exc!r}, the caller saw {seen!r}')
        elif not reads and exc is None and seen is not None and not intr:
            bad('error', f'the caller saw {seen!r}')
        sim.sleep(0.05, 'between')
    if plan.get('stream'):
        h.use = len(plan['uses'])
        h.scoped = False
        sb = src.stream_buffer(maxlen=100)
        if src.closed is not True:
            bad('closed-flag', 'open before the stream is started')
        sb.start()
        t = int(sim.wall() * 1e6)
        info = sb.mk_reader().source_reader_info
        if abs(info['open_time'] - t) > 1:
            bad('open-time', f'opened at {t}, info is {info!r}')
        sim.sleep(0.5, 'stream')
        sb.stop()
        sim.settle(6)
        if src.closed is not True:
            bad('closed-flag', 'open after the stream was stopped')
        h.ev = [e for e in h.ev if not e[2].startswith('lib')]
    return h


def check(h, plan):
    for task in sorted({e[2] for e in h.ev}):
        ev = [e for e in h.ev if e[2] == task]
        for i, (s, t, _, kind, x) in enumerate(ev):
            nxt = ev[i + 1] if i + 1 < len(ev) else None
            if kind == 'yield':
                if i == 0 or ev[i - 1][3] != 'read':
                    return [('not-a-read', f'{task} was given {x!r} at t={t} after {ev[max(0, i - 3):i]}')]
                continue
            if kind != 'read':
                continue
            if h.valid(x[0]):
                if nxt is None or nxt[3] != 'yield' or nxt[4][0] is not x[0]:
                    return [('not-yielded', f'{task} read {x[0]!r} at t={t}, then {nxt}')]
                if nxt[1] != t:
                    return [('late', f'{task} read {x[0]!r} at t={t}, yielded at t={nxt[1]}')]
                continue
            if nxt is None:
                continue
            if plan.get('no_data') is not None:
                if nxt[3] == 'no_data':
                    if nxt[4][0] is not x[0] or nxt[1] != t:
                        return [('no-data', f'{task} read {x[0]!r}, when_no_data got {nxt}')]
                    two = ev[i + 2] if i + 2 < len(ev) else None
                    if two is not None and two[3] == 'no_data_ret':
                        three = ev[i + 3] if i + 3 < len(ev) else None
                        if three is not None and (three[3] != 'read_call' or three[1] != two[1]):
                            return [('pace', f'{task}: after when_no_data returned at t={two[1]}: {three}')]
                    continue
                return [('no-data', f'{task} read {x[0]!r} which is not valid, then {nxt}')]
            if nxt[3] in ('body_end',):
                continue  # interrupted
            if nxt[3] != 'read_call':
                return [('yielded-invalid', f'{task} read {x[0]!r} at t={t}, which is not valid, then {nxt}')]
            before = [d for u, d in h.idles if u < t][-1:] + [d for u, d in h.idles if u == t]
            if not any(abs(nxt[1] - t - d) < EPS for d in before):
                return [('pace', f'{task}: no data at t={t}, read again at t={nxt[1]}; the pause is {before[-1]}')]
    return []


def nontrivial(h, plan):
    """an invalid read was followed by another read, or a body ended by an exception"""
    k = [e[3] for e in h.ev]
    return any(e[3] == 'read' and e[4][0] is None for e in h.ev) or 'read_x' in k or 'open_x' in k
