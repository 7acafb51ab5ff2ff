"""C17 the locked sorted deque stays sorted, bounded and consistent under threads."""
import hashlib

from dst import gen
from dst.sim import SimAbort, HarnessError
from dst.world import InjectedError

ID = 'C17'
KEYS = {
    'a': lambda x: x[0],
    'b': lambda x: x[1],
    '-a': lambda x: -x[0],
    'ab': lambda x: (x[0] // 2, x[1]),
    'id': lambda x: x,
}
W_OPS = ['append', 'append', 'append', 'appendnext', 'appendnext', 'insert', 'insert_right', 'remove', 'drop',
         'clear', 'maxlen', 'delmaxlen', 'key', 'delkey']
R_OPS = ['list', 'reversed', 'len', 'contains', 'index', 'count', 'find', 'find_le', 'find_lt', 'find_ge',
         'find_gt', 'find_last_gt', 'range', 'range_by_index', 'getitem', 'copy', 'maxlen?', 'key?', 'olen']
MAXLENS = [0, 1, 2, 3, 5, 8, None]


def item(rng):
    return [rng.randint(0, 6), rng.randint(0, 3)]


def rop(rng):
    k = rng.choice(R_OPS)
    if k in ('contains', 'index', 'count', 'find', 'find_le', 'find_lt', 'find_ge', 'find_gt', 'find_last_gt'):
        return [k, item(rng)]
    if k == 'range':
        return [k, item(rng), item(rng), rng.choice([None, None, 1, 2, 3, 0])]
    if k == 'range_by_index':
        return [k, rng.choice([None, 0, 1, 3, -1]), rng.choice([None, 0, 2, 5, 100]), rng.choice([None, 1, 2])]
    if k == 'getitem':
        return [k, rng.randint(-9, 9)]
    if k == 'copy':  # and what is then done with the copy
        return [k, rng.choice(['clear', 'drop', 'appendnext', 'maxlen', 'key'])]
    return [k]


def wop(rng):
    k = rng.choice(W_OPS)
    if k in ('append', 'insert', 'insert_right', 'remove'):
        return [k, item(rng)]
    if k == 'drop':
        return [k, rng.choice([0, 1, 1, 2, 3, 20, -1])]
    if k == 'maxlen':
        return [k, rng.choice(MAXLENS + [-1])]
    if k == 'key':
        return [k, rng.choice(list(KEYS))]
    return [k]


def make(rng, tier):
    wops = rng.sample(W_OPS, rng.randint(4, len(W_OPS)))
    # sometimes the same questions are asked again and again
    favs = [rop(rng) for _ in range(rng.randint(1, 3))] if rng.random() < 0.4 else None
    cl = []
    for c in range(rng.randint(2, 4)):
        ops = []
        for _ in range(rng.randint(1, 6)):
            if rng.random() < 0.2:
                ops.append(['sleep', rng.choice([0, 0.01, 0.1])])
            w = rng.random() < 0.55
            batch = []
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if w and x < 0.75:
                    o = wop(rng)
                    while o[0] not in wops:
                        o = wop(rng)
                    batch.append(o)
                    if rng.random() < 0.1:
                        o.append(['fail', rng.randint(1, 3)])
                elif x < 0.85:
                    batch.append(list(rng.choice(favs)) if favs and rng.random() < 0.7 else rop(rng))
                else:
                    batch.append(['sleep', rng.choice([0, 0.01, 0.05])])
            if rng.random() < 0.1:
                batch.append(['x'])
            ops.append(['w' if w else 'r', batch])
        cl.append({'name': f'c{c}', 'ops': ops})
    n = rng.choice([0, 0, 1, 4, 10])
    return {'clients': cl, 'sched': gen.sched(rng), 'init': [item(rng) for _ in range(n)],
            'key': rng.choice(list(KEYS) + [None]), 'maxlen': rng.choice(MAXLENS)}


class Model:
    """A plain list kept sorted by key and trimmed to its maximum length."""

    def __init__(self, key, maxlen):
        self.key, self.maxlen = key, maxlen
        self.xs = []

    def copy(self):
        m = Model(self.key, self.maxlen)
        m.xs = list(self.xs)
        return m

    def k(self, x):
        return KEYS[self.key](x)

    def __repr__(self):
        return f'{self.xs!r} (key {self.key}, maxlen {self.maxlen})'

    def find(self, p, ok, last=False):
        for x in (reversed(self.xs) if last else self.xs):
            if ok(self.k(x)):
                return x
        raise ValueError

    def do(self, o, probe):
        """The result of an operation that does not rebuild (raises as documented)."""
        k, xs = o[0], self.xs
        if k in ('append', 'appendnext'):
            x = probe
            if xs and not self.k(x) > self.k(xs[-1]):
                raise ValueError
            xs.append(x)
            if self.maxlen is not None:
                del xs[:max(0, len(xs) - self.maxlen)]
        elif k in ('insert', 'insert_right'):
            if self.maxlen is not None and len(xs) >= self.maxlen:
                raise IndexError
            kk = self.k(probe)
            i = sum(1 for y in xs if self.k(y) < kk or (k == 'insert_right' and self.k(y) == kk))
            xs.insert(i, probe)
        elif k == 'remove':
            xs.remove(probe)
        elif k == 'drop':
            n = max(0, o[1])
            short = n > len(xs)
            del xs[:n]
            if short:
                raise IndexError
        elif k == 'clear':
            xs.clear()
        elif k == 'list':
            return list(xs)
        elif k == 'reversed':
            return xs[::-1]
        elif k in ('len', 'olen'):
            return len(xs)
        elif k == 'contains':
            return probe in xs
        elif k == 'index':
            return xs.index(probe)
        elif k == 'count':
            return xs.count(probe)
        elif k == 'find':
            return self.find(probe, lambda q: q == probe)
        elif k == 'find_le':
            return self.find(probe, lambda q: q <= probe, True)
        elif k == 'find_lt':
            return self.find(probe, lambda q: q < probe, True)
        elif k == 'find_ge':
            return self.find(probe, lambda q: q >= probe)
        elif k == 'find_gt':
            return self.find(probe, lambda q: q > probe)
        elif k == 'find_last_gt':
            return self.find(probe, lambda q: q > probe, True)
        elif k == 'range':
            if o[3] == 0:
                raise ValueError
            return [x for x in xs if probe[0] <= self.k(x) <= probe[1]][::o[3]]
        elif k == 'range_by_index':
            if any(q is not None and q < 0 for q in o[1:4]):
                raise ValueError
            return xs[o[1]:o[2]:o[3]]
        elif k == 'getitem':
            return xs[o[1]]
        elif k == 'copy':
            return list(xs), self.maxlen
        elif k == 'maxlen?':
            return self.maxlen
        elif k == 'key?':
            return self.key
        else:
            raise HarnessError(k)
        return None


class Run:
    def __init__(self, sim, plan):
        from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
        self.sim, self.plan = sim, plan
        self.armed = {}
        self.log = hashlib.blake2b(digest_size=8)
        self.sections = []
        self.fns = {}
        for name, f in KEYS.items():
            def fn(x, f=f):
                a = self.armed.get(self.sim.current.name)
                if a:
                    a[0] -= 1
                    if a[0] == 0:
                        self.sim.fault('key_failure')
                        raise InjectedError('key')
                return f(x)
            self.fns[name] = fn
        key = plan['key']
        m = self.model = Model(key or 'id', plan['maxlen'])
        init = [tuple(x) for x in plan['init']]
        self.lock = RWLockSortedDeque(init, key=self.fns[key] if key else None, maxlen=plan['maxlen'])
        self.committed = m
        with self.lock.reader_lock() as sd:
            self.adopt(sd, m, sorted(init, key=m.k), 'the constructor')
        self.committed = m.copy()
        sim.keep.append(self)

    def history_digest(self):
        return self.log.hexdigest()

    def adopt(self, sd, m, old, what):
        """After a rebuild the order of equal keys is free: check, then take the real one."""
        got = list(sd)
        want = sorted(old, key=m.k)
        if m.maxlen is not None:
            want = want[len(want) - m.maxlen:] if len(want) > m.maxlen else want
        left = list(old)
        try:
            for x in got:
                left.remove(x)
        except ValueError:
            self.sim.violate('rebuild', f'{what} of {old!r} left {got!r}')
        if [m.k(x) for x in got] != [m.k(x) for x in want]:
            self.sim.violate('rebuild', f'{what} of {old!r} with key {m.key}, maxlen {m.maxlen} left {got!r}')
        m.xs = got

    def probe(self, m, o):
        k = o[0]
        if k == 'appendnext':
            last = max((x for x in m.xs), default=(0, 0), key=m.k)
            return {'-a': (last[0] - 1, last[1])}.get(m.key, (last[0] + 2, last[1] + 1))
        if k.startswith('find'):
            return m.k(tuple(o[1]))
        if k == 'range':
            return m.k(tuple(o[1])), m.k(tuple(o[2]))
        if len(o) > 1 and isinstance(o[1], list):
            return tuple(o[1])
        return None

    def real(self, sd, o, p):
        k = o[0]
        if k in ('append', 'insert', 'insert_right', 'remove', 'index', 'count', 'find', 'find_le', 'find_lt',
                 'find_ge', 'find_gt', 'find_last_gt'):
            return getattr(sd, k)(p)
        if k == 'appendnext':
            return sd.append(p)
        if k == 'drop':
            return sd.drop() if o[1] == 1 else sd.drop(o[1])
        if k == 'clear':
            return sd.clear()
        if k == 'list':
            return list(sd)
        if k == 'reversed':
            return list(reversed(sd))
        if k == 'len':
            return len(sd)
        if k == 'olen':
            return len(self.lock)
        if k == 'contains':
            return p in sd
        if k == 'range':
            return sd.range(*p) if o[3] is None else sd.range(*p, o[3])
        if k == 'range_by_index':
            return sd.range_by_index(*o[1:4])
        if k == 'getitem':
            return sd[o[1]]
        if k == 'copy':
            c = sd.copy()
            out = list(c), c.maxlen
            if len(o) > 1:
                try:
                    if o[1] == 'clear':
                        c.clear()
                    elif o[1] == 'drop':
                        c.drop(2)
                    elif o[1] == 'appendnext':
                        c.append(self.probe(self.model, ['appendnext']))
                    elif o[1] == 'maxlen':
                        c.maxlen = 1
                    else:
                        c.key = self.fns['b']
                except (IndexError, ValueError, InjectedError):
                    pass
            return out
        if k == 'maxlen?':
            return sd.maxlen
        if k == 'key?':
            x = (3, 8)
            if sd.key(x) != self.lock.key(x):
                return 'different keys'
            return next((n for n in KEYS if KEYS[n](x) == sd.key(x)), None)
        raise HarnessError(k)

    def one(self, sd, m, o, who):
        sim, k = self.sim, o[0]
        fail = o[-1][1] if isinstance(o[-1], list) and o[-1] and o[-1][0] == 'fail' else 0
        if fail:
            o = o[:-1]
        before = m.copy()
        p = self.probe(m, o)
        what = f'{k}{tuple(o[1:]) if p is None else (p,)!r} on {before!r}'
        if fail:
            self.armed[sim.current.name] = [fail]
        try:
            if k in ('maxlen', 'delmaxlen', 'key', 'delkey'):
                if k == 'maxlen':
                    sd.maxlen = o[1]
                elif k == 'delmaxlen':
                    del sd.maxlen
                elif k == 'key':
                    sd.key = self.fns[o[1]]
                else:
                    del sd.key
                out = ('ok', None)
            else:
                out = ('ok', self.real(sd, o, p))
        except (SimAbort, HarnessError):
            raise
        except BaseException as e:
            e.__traceback__ = None
            out = ('exc', type(e).__name__)
        finally:
            self.armed.pop(sim.current.name, None)
        self.log.update(f'{who}{k}{out!r};'.encode())
        if out == ('exc', 'InjectedError') and fail:
            pass  # refused: nothing may have changed
        elif k in ('maxlen', 'delmaxlen', 'key', 'delkey'):
            if k == 'maxlen' and o[1] is not None and o[1] < 0:
                if out[0] != 'exc':
                    sim.violate('accepted', f'{what}: a negative maximum length')
            elif out[0] != 'ok':
                sim.violate('raised', f'{what}: {out}')
            else:
                if k.endswith('maxlen'):
                    m.maxlen = o[1] if k == 'maxlen' else None
                else:
                    m.key = o[1] if k == 'key' else 'id'
                self.adopt(sd, m, before.xs, what)
        else:
            try:
                want = ('ok', m.do(o, p))
            except (ValueError, IndexError) as e:
                want = ('exc', type(e).__name__)
            if k == 'copy' and out[0] == 'ok':  # the order of equal keys in a copy is free
                out = (out[0], (sorted(out[1][0]), [m.k(x) for x in out[1][0]], out[1][1]))
                want = (want[0], (sorted(want[1][0]), [m.k(x) for x in want[1][0]], want[1][1]))
            if out[0] == 'ok' and isinstance(out[1], list):
                got = out[1]
                out = out[0], list(got)
                got.clear()  # the caller's
            if out != want:
                sim.violate('result', f'{what}: {out} instead of {want}')
        got = list(sd)
        if got != m.xs:
            sim.violate('contents', f'{what} ({out}) left {got!r} instead of {m.xs!r}')
        if len(sd) != len(m.xs) or sd.maxlen != m.maxlen:
            sim.violate('contents', f'{what} ({out}) left len {len(sd)}, maxlen {sd.maxlen}')

    def section(self, kind, batch):
        sim = self.sim
        who = sim.current.name
        rec = [who, kind, sim.stamp(), None]
        self.sections.append(rec)
        cm = self.lock.writer_lock() if kind == 'w' else self.lock.reader_lock()
        try:
            with cm as sd:
                base = self.committed
                m = self.model if kind == 'w' else base
                try:
                    if kind == 'w' and list(sd) != base.xs:
                        sim.violate('changed', f'a writer found {list(sd)!r}, the last one left {base!r}')
                    for o in batch:
                        if o[0] == 'sleep':
                            sim.sleep(o[1], 'in-section')
                        elif o[0] == 'x':
                            sim.fault('exception_inside')
                            raise InjectedError('body')
                        elif kind == 'r':
                            if self.committed is not base:
                                sim.violate('partly-applied', 'a writer section ran inside a reader section')
                            self.one(sd, m, o, who)
                        else:
                            self.one(sd, m, o, who)
                    if kind == 'w' and self.committed is not base:
                        sim.violate('partly-applied', 'two writer sections overlapped')
                finally:
                    if kind == 'w':
                        self.committed = m.copy()
        except InjectedError:
            pass
        rec[3] = sim.stamp()

    def client(self, c):
        for o in c['ops']:
            if o[0] == 'sleep':
                self.sim.sleep(o[1], 'client-sleep')
            else:
                self.section(o[0], o[1])


def run(sim, plan):
    r = Run(sim, plan)
    ths = [sim.spawn(lambda c=c: r.client(c), c['name']) for c in plan['clients']]
    for t in ths:
        t.join()
    r.section('w', [['list'], ['key?'], ['maxlen?']])
    r.section('r', [['list'], ['copy']])
    return r


def check(r, plan):
    return []


def nontrivial(r, plan):
    """a writer's section was asked for while another section was open or waited for"""
    s = r.sections
    return any(a[1] == 'w' and a is not b and b[2] < a[2] < (b[3] or 1 << 60) for a in s for b in s)
