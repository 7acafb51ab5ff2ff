"""C24 streams do not affect one another.

Every run simulates one stream twice at once, in the same virtual time: a twin that is
alone (built from a separate copy of the package, so that it shares nothing), and the real
one among other streams of the same package that start, fail, hang, are restarted, dropped
from, abandoned and interrupted.  Both sources must be called, and both streams' users
answered, at the same times with the same results.
"""
from dst import gen, lin, modstate, stream
from dst.props import c14, c20
from dst.props.c20 import off, times, EPS
from dst.sim import SimAbort, HarnessError

ID = 'C24'
XS = ['InjectedError', 'OSError', 'ValueError', 'KeyboardInterrupt', 'StopIteration', 'SystemExit']


def reader_kw(rng):
    kw = {}
    if rng.random() < 0.3:
        kw['read_size'] = rng.choice([2, 3])
    if rng.random() < 0.4:
        kw['ignore_no_item_found'] = True
    return kw


def make_stream(rng, name, tidy):
    """A source, a buffer and clients; tidy: nothing coincides and no consumer misbehaves."""
    t = (lambda *a: off(rng, *a)) if tidy else (lambda a=0.001, b=0.5: rng.choice(([0] if a < 0.01 else []) + [a, round((a + b) / 2, 3), b]))
    kind = rng.choice(['sb', 'sb', 'ss'])
    ns = rng.choice([1, 2, 2, 3])
    sessions = []
    length = 0
    for s in range(ns):
        n = rng.choice([0, 2, 5, 8])
        sc = gen.script(rng, n, rng.choice([(0.1,), (0.05, 0.1, 0.3), (0, 0.1)]), rng.choice([0, 0, 0.3]), (0, 0.1),
                        start=rng.choice([0, 0, 5, 40]))
        se = {'script': sc}
        x = rng.random()
        p = 0.3 if tidy else 0.8
        if x < p * 0.3:
            sc.append(['x', rng.choice(XS), rng.choice([0, 0.1])])
        elif x < p * 0.4 and n:
            se['keyfail'] = rng.randint(1, n)
        elif x < p * 0.5:
            se['open'] = {'x': rng.choice(XS), 'd': rng.choice([0, 0.1])}
        elif x < p * 0.6:
            se['info'] = {'x': rng.choice(XS)}
        elif x < p * 0.7:
            se['open'] = {'d': rng.choice([0.1, 3])}
        elif x < p * 0.9:
            se['tail'] = ['n', rng.choice([0.3, 1.7, 40])]
        if rng.random() < p * 0.3:
            se['close'] = {'d': rng.choice([0.1, 2.5])}
        sessions.append(se)
        length += sum(e[-1] for e in sc)
    plan = {'src': gen.src(rng, sessions, style='ss' if kind == 'ss' else None), 'kind': kind,
            'buf': {'maxlen': gen.maxlen(rng)}}
    plan['src']['sharecls'] = rng.random() < 0.7
    if rng.random() < 0.3:
        plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.05, 0.4, 2])
    if kind == 'sb' and rng.random() < 0.3:
        plan['buf']['auto_drop'] = False
    km = gen.kmax(plan)
    plan['configure'] = rng.random() < 0.6
    length += 0.3
    cl = []
    if kind == 'sb':
        ops = [['sleep', t()]]
        for s in range(ns):
            ops += [[rng.choice(['start', 'enter'])], ['sleep', t(0.001, length)]]
            if rng.random() < 0.6:
                ops += [[rng.choice(['stop', 'exit'])], ['sleep', t()], ['is_running'], ['sleep', t()]]
            if rng.random() < 0.3:
                ops += [[rng.choice(['sbnext', 'sbcall'])], ['sleep', t()]]
        # (stopping a stream that was never started is an error)
        cl.append({'name': 'ctl', 'ops': ops})
        if plan['buf'].get('auto_drop') is False:
            ops = [['sleep', t() + 0.6]]
            for _ in range(rng.randint(1, 8)):
                ops += [['sleep', t()], ['drop', 1]]
            cl.append({'name': 'dropper', 'ops': ops})
    for c in range(rng.randint(1, 3)):
        ops = [['sleep', t(0.001, rng.choice([0.1, length]))]]
        for k in range(rng.randint(1, 3)):
            rd = f'r{c}.{k}'
            ops.append(['openr', rd, reader_kw(rng)] if kind == 'ss' else ['mk', rd, reader_kw(rng), t(0.07)])
            ops.append(['sleep', t()])
            for _ in range(rng.randint(1, 5)):
                x = rng.random()
                if x < 0.3:
                    ops.append(['sleep', t()])
                elif x < 0.5:
                    ops.append(['loop', rd, rng.choice(['next', 'chunk', 'range'] + (['blocking'] if kind == 'sb' else [])),
                                {'poll': t(0.07), 'think': t(), 'limit': rng.randint(1, 5), 'tries': 5}])
                elif x < 0.6 and kind == 'sb':
                    ops.append(['iter', rd, rng.randint(1, 4), t(0.001, 0.1)])
                elif x < 0.65:
                    ops.append(['info', rd])
                elif x < 0.7 and k:
                    ops.append(['same', rd, f'r{c}.{k - 1}'])
                elif tidy or x < 0.85:
                    ops.append(gen.reader_op(rng, rd, km, ['read', 'next', 'oldnext', 'head', 'tail', 'range', 'delcur']))
                else:
                    ops.append(rng.choice([['crash'], ['keyfail', 1], ['cmpfail', 2], ['mutate', rd], ['discard', rd],
                                           ['abandon', rd, 1, 'raise', 0], ['interrupt', 2, 'KeyboardInterrupt'],
                                           ['interrupt', 1, 'SystemExit']]))
            if kind == 'ss' and (tidy or rng.random() < 0.7):
                ops.append(['sleep', t()])
                ops.append(['closer', rd, rng.choice(['close', 'exit', '__exit__'])])
                ops.append(['sleep', t()])
        cl.append({'name': f'v{c}', 'ops': ops})
    plan['clients'] = cl
    return plan


def make(rng, tier):
    plan = make_stream(rng, 'a', True)
    plan['sched'] = gen.sched(rng, timing=True, eps=0.0)
    plan['others'] = [make_stream(rng, f'b{i}', False) for i in range(rng.choice([1, 1, 2, 3]))]
    for o in plan['others']:
        if rng.random() < 0.5 and o['kind'] == plan['kind']:
            # as alike as can be
            o['src'] = dict(o['src'], key=plan['src']['key'], item=plan['src']['item'], style=plan['src']['style'],
                            idle=plan['src']['idle'])
            o['buf'] = dict(plan['buf'])
        for c in o['clients']:
            c['name'] = 't' + c['name']  # (their accidents end them, not the run)
    plan['horizon'] = 12
    return plan


class World(c20.World, c14.World):
    def __init__(self, *a):
        self.states, self.raises = [], []
        super().__init__(*a)

    def do(self, op):
        if op[0] == 'same':
            a, b = self.readers.get(op[1]), self.readers.get(op[2])
            if a is None or b is None:
                return None
            return self.call('same', tuple(op[1:]), lambda: a.is_same_buffer(b), op[1], canon=False)
        if op[0] in ('stop', 'exit', 'drop', 'sbnext', 'sbcall') and not self.core.opens:
            return None
        r = super().do(op)
        if r is not None and self.sb is not None and r.out[-1] is self.sb:
            r.out = ('ok', 'the stream')
        if r is not None and op[0] == 'info' and r.out[0] == 'ok':
            r.out = ('ok', dict(r.out[1]))
        return r


def begin(sim, plan, prefix, sp):
    w = World(sim, plan, False, sp)
    if plan['kind'] == 'sb':
        w.mk_buffer()
    elif plan['configure']:
        w.source.configure_buffer(**plan['buf'])
    for c in plan['clients']:
        w.spawn(dict(c, name=prefix + c['name']))
    return w


def run(sim, plan):
    twin = begin(sim, plan, 'w', modstate.load_copy())
    w = begin(sim, plan, '', None)
    others = []
    for i, o in enumerate(plan['others']):
        others.append(begin(sim, o, f't{i}', None))
    # (nobody is waited for: a hanging source of another stream must not hold this one up)
    sim.sleep(plan['horizon'], 'horizon')
    w.twin = twin
    for x in (twin, w):
        if 'ctl' in [c['name'] for c in plan['clients']]:
            x.threads[('w' if x is twin else '') + 'ctl'].join()
    w.t_end = sim.now
    ends = []
    for x in (twin, w, *others):
        if x.sb is not None:
            ends.append(sim.spawn(lambda x=x: x.do(['stop']), f'end{len(ends)}'))
    for t in ends:
        t.join()
    for x in (twin, w):
        for t in x.threads.values():
            t.join()
    for x in others:
        for rd in list(x.readers.values()):
            if x.plan['kind'] == 'ss':
                rd.close()
    return w


CTL = ('start', 'stop', 'drop', 'mk', 'rclose')


def ambiguous(w):
    """The first instant at which the order of two things of the stream is left to the scheduler."""
    marks = {}
    for e in w.events:
        if e.kind not in ('read_call', 'read_none', 'info'):
            marks.setdefault(round(e.t, 8), set()).add('source')
    own = {}
    for r in w.recs:
        for t in {round(r.t0, 8), round(r.t1, 8)}:
            own.setdefault(t, set()).add(r.task)
    first = 1e9
    for r in w.recs:
        for t in (r.t0, r.t1):
            k = round(t, 8)
            # (one that waited for another one's lock returns at the same instant; there the order is given)
            if r.kind in CTL and len(own[k]) > (1 if t == r.t0 else 2) or r.kind not in CTL and k in marks:
                first = min(first, t)
        if r.kind in CTL:  # and of two that wait for one lock, either may be next
            n = {q.task for q in w.recs if q.kind in CTL and q.task != r.task and q.t0 <= r.t1 <= q.t1}
            if len(n) > 1:
                first = min(first, r.t1)
    # a session that ends just when one of several users is let in: the next may find it ended or not
    ctl = [r for r in w.recs if r.kind in CTL]
    for e in w.events:
        if e.kind in ('read_fail', 'key_fail', 'close_call') and e.t < first:
            at = [r for r in ctl if r.t0 - EPS <= e.t <= r.t1 + EPS]
            if len({r.task for r in at}) > 1 and any(r.kind in ('mk', 'start') and r.t1 <= e.t + EPS for r in at):
                first = e.t
    return first


def said(r):
    return r.out[:2] if r.out[0] == 'exc' else r.out


def check(w, plan):
    twin = w.twin
    end = min(ambiguous(twin), ambiguous(w), w.t_end) - 1e-7
    a, b = ([e for e in times(x) if e[1] < end] for x in (twin, w))
    for i in range(max(len(a), len(b))):
        p, q = a[i] if i < len(a) else None, b[i] if i < len(b) else None
        if p is None or q is None or p[0] != q[0] or abs(p[1] - q[1]) > EPS:
            return [('source-affected', f'call {i} on the source: {p} alone, {q} among other streams')]
    for c in plan['clients']:
        n = c['name']
        x, y = ([r for r in v.recs if r.task == m + n and r.t1 < end] for v, m in ((twin, 'w'), (w, '')))
        for i in range(max(len(x), len(y))):
            p, q = x[i] if i < len(x) else None, y[i] if i < len(y) else None
            if p is None or q is None or p.kind != q.kind or said(p) != said(q) or abs(p.t1 - q.t1) > EPS:
                return [('user-affected', f'{n}, call {i}: alone {p!r}; among other streams {q!r}')]
        w.sim.probe('users_compared')
        w.sim.probe('calls_compared', len(y))
    if end < w.t_end - 1e-6:
        w.sim.probe('cut_short')
    for r in w.recs:
        if r.reader and r.out and r.out[0] == 'ok' and r.out[1] is not None and r.kind in lin.READ_KINDS:
            for u in (r.out[1] if isinstance(r.out[1], list) else [r.out[1]]):
                if u not in w.items and u != 'END':
                    return [('foreign-item', repr(r))]
    return []


def nontrivial(w, plan):
    """the stream was read, and a user of it was compared, while another stream was in use"""
    return bool(w.events) and bool(w.sim.probes.get('users_compared'))
