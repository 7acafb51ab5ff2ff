"""Threads using a reader-writer lock, and the checks over what happened."""
from dst import sim as S
from dst.sim import SimAbort, HarnessError
from dst.world import EXC, InjectedError


class Req:
    __slots__ = ('task', 'kind', 'inv', 't_inv', 'grant', 't_grant', 'rel', 't_rel', 'rel_ret',
                 't_end', 'intr')

    def __init__(self, task, kind, inv, t):
        self.task, self.kind, self.inv, self.t_inv = task, kind, inv, t
        self.grant = self.t_grant = self.rel = self.t_rel = self.rel_ret = self.t_end = None
        self.intr = None

    def __repr__(self):
        what = 'writer' if self.kind == 'w' else 'reader'
        return (f'{what} {self.task} (asked t={self.t_inv:g}, in t={self.t_grant}, '
                f'out t={self.t_rel}{", interrupted" if self.intr else ""})')


class RW:
    """The run of a plan: {'ctx': bool, 'clients': [{'name', 'ops': [...]}]}.

    ops: ['sleep', d] | ['r'|'w', hold, body] with body None, 'x' (raises inside) and an
    optional interrupt [k, exception, delay] of the k-th wait of the acquisition.
    """

    def __init__(self, sim, plan):
        self.sim, self.plan = sim, plan
        self.reqs = []
        self.holders = []
        self.events = []
        from stream2py.utility.locked_sorted_deque import RWLockSortedDeque
        from stream2py.utility.reader_writer_lock import RWLock
        if plan.get('ctx'):
            self.lock = RWLockSortedDeque([1, 2, 3], key=lambda x: x, maxlen=5)
        else:
            self.lock = RWLock()
        sim.keep.append(self)

    def history_digest(self):
        import hashlib
        h = hashlib.blake2b(digest_size=8)
        for r in self.reqs:
            h.update(f'{r!r}{r.inv}{r.grant}{r.rel};'.encode())
        return h.hexdigest()

    def enter(self, q):
        sim = self.sim
        q.grant, q.t_grant = sim.stamp(), sim.now
        sim.note('granted', q.kind)
        if self.holders and (q.kind == 'w' or any(h.kind == 'w' for h in self.holders)):
            sim.violate('not-exclusive',
                        f'{q!r} was let in while held by {self.holders!r}')
        self.holders.append(q)

    def leave(self, q):
        sim = self.sim
        q.rel, q.t_rel = sim.stamp(), sim.now
        self.holders.remove(q)

    def hold(self, q, d):
        if d:
            self.sim.sleep(d, 'hold')
        else:
            self.sim.point('hold')

    def one(self, op):
        sim = self.sim
        name = sim.current.name
        kind, d, body = op[0], op[1], op[2]
        q = Req(name, kind, sim.stamp(), sim.now)
        self.reqs.append(q)
        sim.note('asks', kind)
        intr = op[3] if len(op) > 3 else None
        exc = None
        at_release = bool(intr and len(intr) > 3 and intr[3])
        if intr:
            exc = EXC[intr[1]]
        if intr and not at_release:
            sim.interrupts[name] = (sim.current.blocks + intr[0], exc, intr[2])
        try:
            if self.plan.get('ctx'):
                cm = self.lock.reader_lock() if kind == 'r' else self.lock.writer_lock()
                with cm:
                    sim.interrupts.pop(name, None)
                    self.enter(q)
                    self.hold(q, d)
                    self.leave(q)
                    if at_release:
                        sim.interrupts[name] = (sim.current.blocks + intr[0], exc, intr[2])
                    if body == 'x':
                        sim.fault('exception_inside')
                        raise InjectedError('body')
            else:
                (self.lock.reader_acquire if kind == 'r' else self.lock.writer_acquire)()
                sim.interrupts.pop(name, None)
                self.enter(q)
                self.hold(q, d)
                self.leave(q)
                if at_release:
                    sim.interrupts[name] = (sim.current.blocks + intr[0], exc, intr[2])
                (self.lock.reader_release if kind == 'r' else self.lock.writer_release)()
        except (SimAbort, HarnessError):
            raise
        except InjectedError as e:
            if str(e) != 'body':
                raise
        except BaseException as e:
            e.__traceback__ = None
            if exc is None or type(e) is not exc or (q.grant is not None) is not at_release:
                sim.violate('unexpected-exception', f'{q!r} raised {e!r}')
            if not at_release:
                q.intr = sim.stamp()
        finally:
            sim.interrupts.pop(name, None)
            if not sim.aborting:
                q.rel_ret, q.t_end = sim.stamp(), sim.now

    def client(self, c):
        for op in c['ops']:
            if op[0] == 'sleep':
                self.sim.sleep(op[1], 'client-sleep')
            else:
                self.one(op)

    def run(self):
        ths = [self.sim.spawn(lambda c=c: self.client(c), c['name']) for c in self.plan['clients']]
        for t in ths:
            t.join()
        return self


def check(rw):
    W = [q for q in rw.reqs if q.kind == 'w']
    for q in rw.reqs:
        if q.grant is None and q.intr is None:
            return 'never-granted', f'{q!r}'
    for q in rw.reqs:
        end = q.t_grant if q.intr is None else q.t_end
        if q.kind == 'r' and end > q.t_inv:
            # some writer must have been holding or waiting all along
            t = q.t_inv
            for w in sorted(W, key=lambda w: w.t_inv):
                if w.t_inv <= t and w.t_end > t:
                    t = w.t_end
            if t < end:
                return 'reader-kept-out', (f'{q!r} was kept waiting from t={t:g} to t={end:g} though '
                                           f'no writer held or waited for the lock')
        if q.kind == 'w' and end > q.t_inv:
            # some other request must have been holding
            iv = sorted((h.t_grant, h.t_end) for h in rw.reqs if h is not q and h.grant is not None)
            t = q.t_inv
            for a, b in iv:
                if a <= t < b:
                    t = b
            if t < end:
                return 'writer-kept-out', (f'{q!r} was kept waiting from t={t:g} to t={end:g} though '
                                           f'nobody held the lock')
        if q.kind == 'r' and q.grant is not None:
            for w in W:
                if w.grant is not None and w.t_inv < q.t_inv < w.t_grant and q.grant < w.grant:
                    return 'writer-overtaken', (f'{q!r} arrived while {w!r} was waiting and got in '
                                                f'first')
    return None


def plan(rng, interrupts=False):
    from dst import gen
    grid = 0.1
    cl = []
    nr, nw = rng.choice([(1, 1), (2, 1), (1, 2), (3, 1), (2, 2), (3, 2), (4, 3), (2, 3)])
    timed = rng.random() < 0.75
    span = rng.choice([2, 4, 8])
    mixed = rng.random() < 0.2
    for i in range(nr + nw):
        kind = 'r' if i < nr else 'w'
        ops = []
        for _ in range(rng.randint(1, 4)):
            if timed and rng.random() < 0.8:
                ops.append(['sleep', round(grid * rng.randint(0, span) + rng.choice([0, 0, 0.01 * i]), 4)])
            k = rng.choice('rw') if mixed else kind
            hold = round(grid * rng.randint(0, span), 4) if timed and rng.random() < 0.7 else 0
            op = [k, hold, 'x' if rng.random() < 0.2 else None]
            if interrupts and rng.random() < 0.5:
                op.append([rng.choice([1, 1, 1, 2, 3]),
                           rng.choice(['KeyboardInterrupt', 'InjectedBase', 'SystemExit', 'RuntimeError',
                                       'TimeoutError']),
                           rng.choice([0, 0, 0.05, 0.1, 0.3]),
                           rng.random() < 0.25])
            ops.append(op)
        cl.append({'name': f'{kind}{i}', 'ops': ops})
    return {'clients': cl, 'ctx': rng.random() < 0.5, 'sched': gen.sched(rng, timing=True, eps=0.0)}
