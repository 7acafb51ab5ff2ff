"""C02 each consumer gets the stream in order, once, whole up to eviction."""
from dst import gen, lin, stream

ID = 'C02'


def make(rng, tier):
    n = rng.choice([5, 12, 25, 40])
    delays = rng.choice([(0,), (0, 0, 0.01), (0.01, 0.05), (0, 0.2), (0.1,), (0, 0, 0, 0.7)])
    sc = gen.script(rng, n, delays, rng.choice([0, 0, 0.2]), (0, 0.01, 0.2))
    plan = {'src': gen.src(rng, [{'script': sc}]), 'buf': {'maxlen': gen.maxlen(rng)},
            'sched': gen.sched(rng)}
    if rng.random() < 0.25:
        plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.02, 0.3, 1.0])
    manual = rng.random() < 0.25
    cl = []
    for c in range(rng.randint(1, 4)):
        kw = {}
        if rng.random() < 0.3:
            kw['read_size'] = rng.choice([1, 2, 3, 8])
        cl.append(gen.consumer(rng, f'r{c}', mkkw=kw))
        if kw and rng.random() < 0.25:
            # (a chunk that is not complete is refused: ask again)
            kw['strict_n'] = True
            k = cl[-1]['ops'][0]
            for _ in range(rng.randint(1, 6)):
                cl[-1]['ops'] += [['sleep', gen.think(rng)], ['iter', f'r{c}', None, 0]]
            cl[-1]['ops'][0] = ['mk', f'r{c}', kw] + k[3:] if k[0] == 'mk' else k
    if rng.random() < 0.3:
        cl.append({'name': 'c_sb', 'ops': [['loop', None, 'sb', {
            'poll': 0.05, 'think': rng.choice([0, 0.03]), 'limit': rng.randint(1, max(1, n // 3)),
            'tries': 40}]]})
    if rng.random() < 0.3:
        # a late comer
        cl.append({'name': 'c_late', 'ops': [['sleep', gen.think(rng, 4)]]
                   + gen.consumer(rng, 'late')['ops'], 'finite': False})
    if manual:
        plan['buf']['auto_drop'] = False
        plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.01, 0.1])
        ops = []
        for _ in range(rng.randint(2, 15)):
            ops += [['sleep', gen.think(rng)], ['drop', rng.choice([1, 1, 2])]]
        cl.append({'name': 'dropper', 'ops': ops})
    plan['clients'] = cl
    plan['horizon'] = rng.choice([0.5, 2, 5])
    return plan


def run(sim, plan):
    return stream.run_stream(sim, plan)


def check(w, plan):
    for rd in sorted({r.reader for r in w.recs if r.reader}):
        last = None
        for u, r in stream.delivered(w, rd):
            if u not in w.items:
                return [('foreign-item', f'{rd} obtained {u}, which the source never gave: {r!r}')]
            k = w.items[u][1]
            if last is not None and not k > last:
                return [('out-of-order', f'{rd} obtained {u} (key {k}) after key {last}: {r!r}')]
            last = k
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('lost-or-wrong', m)]
    return []


def nontrivial(w, plan):
    return w.overlaps() > 0 and len(w.events) > 4
