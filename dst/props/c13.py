"""C13 the source is polled at its configured pace."""
from dst import gen, lin, stream

ID = 'C13'
EPS = 1e-6


def make(rng, tier):
    n = rng.choice([1, 3, 6, 10])
    nd = rng.choice([(0,), (0, 0.07), (0.4,)])
    sc = gen.script(rng, n, rng.choice([(0,), (0, 0.03), (0.2,)]), rng.choice([0.2, 0.5]), nd)
    own = rng.choice([None, None, 0.2, 0.05, 1, 3, 1.5])
    explicit = rng.choice([None, None, 0.11, 0.6, 2, 5])
    if rng.random() < 0.1:
        explicit = 0
    if rng.random() < 0.07:
        own = 0
    via = rng.choice(['direct', 'direct', 'sr', 'ss'])
    plan = {'src': gen.src(rng, [{'script': sc}], style={'direct': None}.get(via, via), idle=own),
            'buf': {'maxlen': rng.choice([1, 2, 4, 100, None])},
            'sched': gen.sched(rng, timing=True, eps=0.0), 'via': via}
    if explicit is not None or rng.random() < 0.3:
        plan['buf']['sleep_time_on_read_none_s'] = explicit
    idle = explicit if explicit is not None else own if own is not None else 0.3
    plan['idle'] = idle
    tail = rng.choice([0, 0.05, 0.5])
    if idle == 0:
        tail = 0.5
        for e in sc:
            if e[0] == 'n':
                e[1] = max(e[1], 0.07)
    plan['src']['sessions'][0]['tail'] = ['n', tail]
    cl = []
    manual = rng.random() < 0.35 and via != 'ss'
    if manual:
        plan['buf']['auto_drop'] = False
        if idle == 0:
            plan['buf']['maxlen'] = 100
        ops = []
        for _ in range(rng.randint(1, 8)):
            ops += [['sleep', gen.think(rng, 2)], ['drop', 1]]
        cl.append({'name': 'dropper', 'ops': ops})
    km = gen.kmax(plan)
    for c in range(rng.randint(0, 2)):
        ops = [['mk', f'r{c}', {}]]
        for _ in range(rng.randint(1, 8)):
            ops += [['sleep', gen.think(rng, 2)],
                    gen.reader_op(rng, f'r{c}', km, ['tail', 'read', 'range', 'head'])]
        cl.append({'name': f'c{c}', 'ops': ops})
    plan['clients'] = cl
    plan['horizon'] = round(min(40, (idle or 0.1) * (sum(1 for e in sc if e[0] == 'n') + 3) + 2), 4)
    return plan


class OwnReaders:
    """A StreamSource run by opening and closing its own readers."""

    def __init__(self, source, kw):
        self.source = source
        source.configure_buffer(**kw)
        self.rs = []

    def start(self):
        self.rs.append(self.source.open_reader())

    def mk_reader(self, **kw):
        self.rs.append(self.source.open_reader(**kw))
        return self.rs[-1]

    def stop(self):
        for r in self.rs:
            r.close()


class World(stream.World):
    def mk_buffer(self):
        b = dict(self.plan['buf'])
        via = self.plan['via']
        if via == 'sr':
            self.sb = self.source.stream_buffer(**b)
        elif via == 'ss':
            self.sb = OwnReaders(self.source, b)
        else:
            self.sb = self.sp.StreamBuffer(self.source, **b)
        return self.sb


def run(sim, plan):
    return stream.run_stream(sim, plan, cls=World)


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    idle = plan['idle']
    stop_t = min(r.t0 for r in w.recs if r.kind == 'stop')
    start = next(r for r in w.recs if r.kind == 'start')
    full_possible = plan['buf'].get('auto_drop') is False and plan['buf']['maxlen'] is not None
    maxlen = plan['buf']['maxlen']
    evs = [e for e in w.events if e.kind in ('read_call', 'read_item', 'read_none')]
    if not evs or evs[0].t > start.t1 + EPS:
        return [('first-read', f'started at t={start.t1} but first read at t={evs[0].t if evs else "never"}')]
    drops = [(r.t1, r.args[0]) for r in w.recs if r.kind == 'drop' and r.out[0] == 'ok']
    n = 0
    for a, b in zip(evs, evs[1:] + [None]):
        if a.kind == 'read_call':
            continue
        if a.kind == 'read_none':
            due, what = a.t + idle, f'after no data at t={a.t:.6f} with an idle time of {idle}'
        else:
            n += 1
            due, what = a.t, f'after an item at t={a.t:.6f}'
        t = b.t if b is not None else None
        if full_possible:
            # the earliest moment at or after `due` with room, given the drops; a drop at the
            # very instant of the look may or may not have been seen
            def room(x, e):
                return n - sum(k for td, k in drops if td <= x + e) < maxlen
            if room(due, -EPS):
                lo_ = hi_ = due
            else:
                lo_ = next((x for x in [due] + sorted(td for td, _ in drops if td > due)
                            if room(x, EPS)), None)
                if lo_ is None:
                    if t is not None:
                        return [('too-early', f'{what} the source was read at t={t:.6f} though the '
                                 f'window was full')]
                    continue
                hi_ = lo_ + idle
        else:
            lo_ = hi_ = due
        if t is not None and t < lo_ - EPS:
            return [('too-early', f'{what} the source was read again at t={t:.6f}')]
        if hi_ is not None and hi_ + EPS < stop_t and (t is None or t > hi_ + EPS):
            return [('too-late', f'{what} the source was read again '
                     f'{"at t=%.6f" % t if t is not None else "never"} (due by t={hi_:.6f})')]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('not-stored', m)]
    return []


def nontrivial(w, plan):
    """the source reported no data at least once while running and was read again"""
    k = [e.kind for e in w.events]
    return 'read_none' in k and k.index('read_none') < len(k) - 3
