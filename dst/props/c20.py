"""C20 consumers do not affect one another or the source.

Every run simulates the stream twice at once, in the same virtual time: a twin with only
the well-behaved consumers, and the real thing with the same consumers and misbehaving
ones.  Both sources must be called, and the well-behaved consumers served, at the same times.
"""
from dst import gen, lin, modstate, stream
from dst.sim import SimAbort, HarnessError
from dst.world import EXC, ClientCrash

ID = 'C20'
EPS = 1e-9


def off(rng, a=0.001, b=0.5):
    """A duration that hardly ever makes two independent events coincide."""
    return round(a + (b - a) * rng.random() ** 2, 6) + 0.0000137


def make(rng, tier):
    n = rng.choice([2, 5, 8, 14])
    sc = gen.script(rng, n, rng.choice([(0.1,), (0.05, 0.1, 0.3), (0.1, 0.1, 0.1, 0.1, 0.9)]),
                    rng.choice([0, 0, 0.3]), (0, 0.1))
    if rng.random() < 0.15:
        sc.append(['x', rng.choice(['OSError', 'InjectedError']), 0.1])
    idle = rng.choice([None, 0.1, 0.7])
    plan = {'src': gen.src(rng, [{'script': sc}], idle=idle), 'buf': {'maxlen': gen.maxlen(rng)},
            'sched': gen.sched(rng, timing=True, eps=0.0)}
    if rng.random() < 0.5:
        plan['src']['key'] = 'sim'
    total = sum(e[-1] for e in sc) + 1
    km = gen.kmax(plan)
    vs = []
    for v in range(rng.randint(1, 3)):
        c = gen.consumer(rng, f'v{v}', poll=off(rng, 0.07), think=rng.choice([0, 0, off(rng, 0.001, 0.2)]),
                         modes=('iter', 'next', 'blocking', 'chunk', 'range'))
        c['ops'].insert(0, ['sleep', off(rng, 0.001, rng.choice([0.1, total]))])
        c['name'] = f'v{v}'
        vs.append(c)
    ts = []
    for t in range(rng.randint(1, 4)):
        rd = f't{t}'
        ops = []
        if rng.random() < 0.6:
            ops.append(['sleep', off(rng, 0.001, total)])
        ops.append(['mk', rd, {'peek': True} if rng.random() < 0.1 else {}, off(rng, 0.07)])
        for _ in range(rng.randint(1, 8)):
            x = rng.random()
            if x < 0.2:
                ops.append(['sleep', rng.choice([off(rng), 0.1, 5])])
            elif x < 0.4:
                ops.append(['abandon', rd, rng.choice([0, 1, 2, 4]), rng.choice(['keep', 'drop', 'raise', 'close']),
                            rng.choice([0, off(rng), 0.1])])
            elif x < 0.45:
                ops.append(['discard', rd])
            elif x < 0.5:
                ops.append(['close_reader', rd])
            elif x < 0.55:
                ops.append(['crash'])
            elif x < 0.62:
                ops.append([rng.choice(['keyfail', 'cmpfail']), rng.choice([1, 2, 3])])
            elif x < 0.68:
                ops.append(['interrupt', rng.choice([1, 2, 3]), rng.choice(['KeyboardInterrupt', 'SystemExit',
                                                                          'InjectedBase'])])
            elif x < 0.74:
                ops.append(['mutate', rd])
            elif x < 0.8:
                rd = f't{t}.{len(ops)}'
                ops.append(['mk', rd, {}, off(rng, 0.07)])
            else:
                ops.append(gen.reader_op(rng, rd, km, ['read', 'next', 'oldnext', 'head', 'tail', 'range', 'delcur']))
        if rng.random() < 0.3:
            ops.append(['crash'])
        ts.append({'name': f't{t}', 'ops': ops})
    plan['victims'], plan['clients'] = vs, ts
    # the twin shares nothing but the simulator, or also the imported package
    plan['twin'] = rng.choice(['copy', 'copy', 'same'])
    plan['horizon'] = round(total + rng.choice([0.3, 2]), 4) + 0.00001
    return plan


class World(stream.World):
    def __init__(self, *a):
        super().__init__(*a)
        self.kept = []

    def do(self, op):
        sim = self.sim
        if op[0] == 'interrupt':
            sim.interrupts[sim.current.name] = (sim.current.blocks + op[1], EXC[op[2]], 0)
            return None
        if op[0] in ('abandon', 'discard', 'close_reader', 'mutate'):
            rd = self.readers.get(op[1])
            if rd is None:
                return None
            sim.fault('consumer_' + op[0])
            if op[0] == 'discard':
                del self.readers[op[1]]
                del rd
                return None
            if op[0] == 'close_reader':
                return self.call('close_reader', (), rd.close, op[1], canon=False)
            if op[0] == 'mutate':
                def f():
                    a = rd.range(*self.bounds(), peek=True)
                    a.clear()
                    b = rd.read(3, peek=True, ignore_no_item_found=True)
                    if type(b) is list:
                        b.clear()
                return self.call('mutate', (), f, op[1], canon=False)
            it = iter(rd)
            for _ in range(op[2]):
                r = self.begin('iter', {}, op[1])
                try:
                    x = next(it)
                except StopIteration:
                    self.end(r, ('end',))
                    return r
                except (SimAbort, HarnessError):
                    raise
                except BaseException as e:
                    e.__traceback__ = None
                    self.end(r, ('exc', type(e).__name__, str(e)))
                    return r
                self.end(r, ('ok', self.canon(x)))
                if op[4]:
                    sim.sleep(op[4], 'think')
            if op[3] == 'keep':
                self.kept.append(it)
            elif op[3] == 'close':
                it.close()
            elif op[3] == 'raise':
                try:
                    it.throw(ClientCrash())
                except (ClientCrash, StopIteration):
                    pass
            return None
        return super().do(op)

    def bounds(self):
        from dst.world import wrap_key
        return wrap_key(self.kstyle, -9), wrap_key(self.kstyle, 100000)

    def run_client(self, c):
        try:
            super().run_client(c)
        except tuple(EXC.values()):
            if not c['name'].startswith('t'):
                raise  # an injected interrupt ends a misbehaving client
        finally:
            self.sim.interrupts.pop(self.sim.current.name, None)


def run(sim, plan):
    twin = World(sim, plan, False, modstate.load_copy() if plan['twin'] == 'copy' else None)
    w = World(sim, plan, False)  # (the last one made is where key failures are looked up)
    for x in (twin, w):
        x.mk_buffer()
        x.do(['start'])
    for x, p in ((twin, 'w'), (w, '')):
        for c in plan['victims']:
            x.spawn(dict(c, name=p + c['name']))

        def ctl(x=x):
            sim.sleep(plan['horizon'], 'horizon')
            x.do(['stop'])
        x.ctl = sim.spawn(ctl, p + 'ctl')
    for c in plan['clients']:
        w.spawn(c)
    for x in (twin, w):
        x.ctl.join()
        for c, t in sorted(x.threads.items()):
            t.join()
    w.twin = twin
    return w


def times(x):
    return [(e.kind, e.t) for e in x.events if e.kind in ('read_call', 'open_call', 'close_call')]


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    twin = w.twin
    a, b = times(twin), times(w)
    for i in range(max(len(a), len(b))):
        p, q = a[i] if i < len(a) else None, b[i] if i < len(b) else None
        if p is None or q is None or p[0] != q[0] or abs(p[1] - q[1]) > EPS:
            return [('source-affected', f'call {i} on the source: {p} without the misbehaving consumers, {q} with them')]
    marks = sorted(e.t for e in w.events if e.kind in ('read_item', 'close_call', 'read_fail')) + \
        [r.t0 for r in w.recs if r.kind == 'stop']

    def vague(r):
        return any(abs(r.t1 - t) < 1e-7 or abs(r.t0 - t) < 1e-7 for t in marks)

    for c in plan['victims']:
        x = [r for r in twin.recs if r.task == 'w' + c['name']]
        y = [r for r in w.recs if r.task == c['name']]
        if any(map(vague, x + y)):
            w.sim.probe('coincidence')
            continue
        for i in range(max(len(x), len(y))):
            p, q = x[i] if i < len(x) else None, y[i] if i < len(y) else None
            if p is None or q is None or p.kind != q.kind or p.out != q.out or abs(p.t1 - q.t1) > EPS:
                return [('consumer-affected', f'{c["name"]}, call {i}: alone {p!r}; with the others {q!r}')]
        w.sim.probe('victims_compared')
    r = stream.bad_errors(w)
    w2 = [r for r in w.recs if r.task and r.task.startswith('t') and r.out and r.out[0] == 'exc']
    if r is not None and r not in w2:
        return [('undocumented-error', repr(r))]
    for x in (twin, w):
        m = lin.check(x, {k: v for k, v in stream.dflts(plan, x).items()})
        if m:
            return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """a misbehaving consumer obtained something or raised, and a well-behaved one was compared"""
    return any(r.task.startswith('t') and r.reader for r in w.recs) and bool(w.sim.probes.get('victims_compared'))
