"""C25 a stream retains its window and its cursors, nothing else.

Items are counted by weak references at instants when nobody is inside a call.
"""
import gc
import hashlib
import weakref

from dst import gen
from dst.sim import SimAbort, HarnessError

ID = 'C25'
SLACK = 3  # an item being handed over, the last one read


class It:
    __slots__ = ('key', 'sess', '__weakref__')

    def __init__(self, key, sess):
        self.key, self.sess = key, sess


MODES = ['iter', 'next', 'read', 'chunk', 'range', 'tail', 'head', 'peek', 'empty', 'old', 'fresh', 'made', 'attach',
         'strict', 'sbnext', 'sbiter', 'badkey']


def make(rng, tier):
    ns = rng.choice([1, 1, 2, 3])
    maxlen = rng.choice([1, 2, 3, 5, 8])
    auto = rng.random() < 0.75
    plan = {'maxlen': maxlen, 'auto': auto, 'sched': gen.sched(rng, timing=True, eps=0.0),
            'style': rng.choice(['plain', 'sr', 'ss', 'ss']), 'idle': rng.choice([0.02, 0.1]), 'sessions': []}
    plan['budget'] = 1500000
    plan['shared'] = plan['style'] == 'ss' and rng.random() < 0.5
    for s in range(ns):
        n = 4 * maxlen + rng.randint(50, 80)
        se = {'n': n, 'd': rng.choice([0, 0.01, 0.01]), 'none': rng.choice([0, 0, 0.2])}
        x = rng.random()
        if x < 0.2:
            se['x'] = rng.choice(['read', 'key', 'order'])
        if rng.random() < 0.1:
            se['close_x'] = True
        if rng.random() < 0.3:
            se['restart'] = True  # without a stop
        plan['sessions'].append(se)
        cl = []
        for c in range(rng.randint(1, 4)):
            cl.append({'mode': rng.choice(MODES), 'd': rng.choice([0.02, 0.05, 0.2]),
                       'n': rng.choice([1, 2, 5]), 'keep': rng.random() < 0.25,
                       'end': rng.choice(['drop', 'drop', 'crash', 'abandon'])})
        se['clients'] = cl
    if not auto:
        plan['drop'] = [rng.choice([1, 1, 2, 3]), rng.choice([0.01, 0.05])]
    return plan


class W:
    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.refs = []      # (weak reference, session)
        self.sess = -1
        self.pos = 0
        self.rng = 0
        self.n_checked = 0
        self.log = []
        self.kept = []
        self.inside = 0
        sim.keep.append(self)

    def alive(self, sess=None):
        """How many items are alive, of which sessions."""
        self.refs = [r for r in self.refs if r[0]() is not None]
        return sum(1 for r in self.refs if sess is None or r[1] == sess)

    def history_digest(self):
        return hashlib.blake2b(repr(self.log).encode(), digest_size=8).hexdigest()


def mk_source(w, plan):
    import stream2py
    sim = w.sim
    base = {'plain': object, 'sr': stream2py.SourceReader, 'ss': stream2py.StreamSource}[plan['style']]

    class Source(base):
        sleep_time_on_read_none_s = plan['idle']
        info = {}

        def open(self):
            w.sess += 1
            w.pos = 0
            sim.point('source')

        def read(self):
            i, se = w.pos, plan['sessions'][min(w.sess, len(plan['sessions']) - 1)]
            d = se['d'] if w.sess < 6 else max(se['d'], 0.05)
            if d:
                sim.sleep(d, 'source')
            else:
                sim.point('source')
            w.rng = (w.rng * 1103515245 + 12345) & 0x7fffffff
            if i >= se['n']:
                if se.get('x') == 'read':
                    sim.fault('read_failure')
                    raise OSError('read failed')
                return None
            if (w.rng >> 8) % 100 < se['none'] * 100:
                return None
            w.pos += 1
            k = i + 1000 * w.sess
            if i == se['n'] - 1 and se.get('x') == 'order':
                sim.fault('unordered_key')
                k -= 500
            it = It(k, w.sess)
            w.refs.append((weakref.ref(it), w.sess))
            return it

        def close(self):
            sim.point('source')
            se = plan['sessions'][min(w.sess, len(plan['sessions']) - 1)]
            if se.get('close_x'):
                sim.fault('close_failure')
                raise OSError('close failed')

        def key(self, it):
            se = plan['sessions'][min(w.sess, len(plan['sessions']) - 1)]
            if sim.current.name.startswith('lib') and se.get('x') == 'key' and w.pos == se['n']:
                sim.fault('key_failure')
                raise ValueError('key failed')
            return it.key
    return Source()


class Crash(Exception):
    pass


def run(sim, plan):
    import stream2py
    w = W(sim, plan)
    src = mk_source(w, plan)
    kw = dict(maxlen=plan['maxlen'], auto_drop=plan['auto'])
    if plan['shared']:
        src.configure_buffer(**kw)
        sb = None
    else:
        sb = stream2py.StreamBuffer(src, **kw)
    attached = []

    def one(c, rd, stop):
        """A consumer; keeps nothing it obtained."""
        m, n = c['mode'], c['n']

        def call():
            if m == 'iter':
                it = iter(rd[0])
                for _ in range(n):
                    try:
                        next(it)
                    except StopIteration:
                        break
                if c['end'] == 'abandon':
                    w.kept.append(it)
                else:
                    it.close()
            elif m == 'sbiter' and sb is not None:
                it = iter(sb)
                for _ in range(n):
                    if next(it, None) is None:
                        break
                it.close()
            elif m == 'sbnext' and sb is not None:
                next(sb, None)
            elif m == 'next':
                next(rd[0], None)
            elif m == 'old':
                rd[0].next(ignore_no_item_found=True)
            elif m == 'chunk':
                rd[0].read(n, ignore_no_item_found=True)
            elif m == 'strict':
                rd[0].read(n, strict_n=True)
            elif m == 'range':
                rd[0].range(-9, 100000, ignore_no_item_found=True, only_new_items=n > 1)
            elif m == 'tail':
                rd[0].tail(ignore_no_item_found=True, only_new_items=n > 1)
            elif m == 'head':
                rd[0].head()
            elif m == 'peek':
                rd[0].range(-9, 100000, peek=True)
            elif m == 'empty':
                rd[0].range(-9, -5)
            elif m == 'badkey':
                rd[0].range('a', 'b')
            elif m in ('fresh', 'made'):
                if sb is not None:
                    x = sb.mk_reader()
                else:
                    x = src.open_reader()
                if n > 1:
                    x.read(ignore_no_item_found=True)
                if sb is None:
                    x.close()
                elif m == 'made':
                    rd[0] = x
            elif m == 'attach' and sb is not None:
                sb.attach_reader(rd[0])
                rd[0].read(ignore_no_item_found=True)
            else:
                rd[0].read(ignore_no_item_found=True)
        try:
            while not stop:
                try:
                    w.inside += 1
                    call()
                except (SimAbort, HarnessError):
                    raise
                except Exception:
                    sim.probe('refused')
                finally:
                    w.inside -= 1
                sim.sleep(c['d'] + 0.0001, 'think')
            if c['end'] == 'crash':
                sim.fault('client_crash')
                raise Crash
        except Crash:
            pass
        finally:
            if sb is None:
                rd[0].close()
            if c['keep']:
                w.kept.append(rd[0])
            rd.clear()

    started = False
    for s, se in enumerate(plan['sessions']):
        clients = se['clients']
        stop = []
        ths = []
        if sb is not None and not started:
            sb.start()
        rds = []
        for k, c in enumerate(clients):
            rd = [sb.mk_reader() if sb is not None else src.open_reader()]
            rds.append(rd)
            rd[0].set_sleep_time_on_iter_none(0.01)
        for k, c in enumerate(clients):
            ths.append(sim.spawn(lambda c=c, rd=rds[k]: one(c, rd, stop), f's{s}.{k}'))
        if not plan['auto'] and sb is not None:
            def dropper():
                while not stop:
                    try:
                        sb.drop(plan['drop'][0])
                    except (IndexError, ValueError):
                        sim.probe('drop_refused')
                    sim.sleep(plan['drop'][1], 'dropper')
            ths.append(sim.spawn(dropper, f's{s}.d'))
        rd = None
        # every 0.15 s: how many items are alive
        for _ in range(8):
            sim.sleep(0.15, 'checker')
            if w.inside:
                continue
            gc.collect()
            n = w.alive(w.sess)
            w.n_checked += 1
            w.log.append((s, sim.now, w.pos, n))
            # the window (and a copy of it); per reader its cursor and what an iteration has just yielded
            bound = 2 * plan['maxlen'] + 3 * (len(clients) + 1 + len(w.kept)) + SLACK
            if n > bound:
                sim.violate('retained', f'{n} items of session {s} are alive after {w.pos} reads, with a window of '
                            f'{plan["maxlen"]} and {len(clients)} readers')
            if s and not w.kept and w.alive() - n > SLACK + (2 * plan['maxlen'] + 3) * (len(clients) + 1):
                sim.violate('retained', f'{w.alive() - n} items of earlier sessions are alive')
        stop.append(1)
        started = False
        if sb is None:
            for r in rds:
                if r:
                    r[0].close()
        elif se.get('restart') and s + 1 < len(plan['sessions']):
            sb.start()  # ends the session, begins the next one
            started = True
        else:
            sb.stop()
        for t in ths:
            t.join()
        ths = t = None
        rds = r = None
    if sb is not None:
        sb.stop()
    sim.settle(3)
    w.kept.clear()
    gc.collect()
    # the readers are gone: only the stream itself, stopped, is left
    n, m = w.alive(), w.alive(w.sess)
    if n - m:
        sim.violate('retained', f'{n - m} items of earlier sessions are alive after their readers were discarded')
    if m > plan['maxlen'] + 1:
        sim.violate('retained', f'{m} items are alive in a stopped stream with a window of {plan["maxlen"]}')
    alive = [t.name for t in sim.tasks if t.name.startswith('lib') and t.state != 'done']
    w.libs = [t for t in sim.tasks if t.name.startswith('lib')]
    for t in w.libs:
        if t.thread is not None and t.thread.is_alive():
            sim.violate('thread-left', f'thread {t.name} is alive 3 s after the last session was stopped')
    sb = src = None
    gc.collect()
    n = w.alive()
    if n:
        sim.violate('retained', f'{n} items are alive after the stream was discarded')
    return w


def check(w, plan):
    return []


def nontrivial(w, plan):
    """items were counted after more reads than fit in the window"""
    return any(p > plan['maxlen'] for _, _, p, _ in w.log)
