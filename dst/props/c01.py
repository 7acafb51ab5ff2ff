"""C01 reader calls are atomic on one ordered, bounded window."""
from dst import gen, lin, stream

ID = 'C01'
MIX = ['read', 'read', 'read', 'next', 'oldnext', 'head', 'tail', 'range', 'range', 'delcur', 'sleep']


def make(rng, tier):
    if rng.random() < 0.002:
        return stream.bulk_plan(rng, True)
    n = rng.choice([3, 6, 10, 16, 25])
    delays = rng.choice([(0,), (0, 0, 0.01), (0.01, 0.05), (0, 0.1)])
    sc = gen.script(rng, n, delays, rng.choice([0, 0, 0.2]), (0, 0.01))
    manual = rng.random() < 0.4
    plan = {'src': gen.src(rng, [{'script': sc}]),
            'buf': {'maxlen': gen.maxlen(rng) if rng.random() < 0.98 else 0},
            'sched': gen.sched(rng)}
    if manual:
        plan['buf']['auto_drop'] = False
        plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.01, 0.1])
    km = gen.kmax(plan)
    cl = []
    mix = rng.choice([MIX, ['read', 'range', 'sleep'], ['read', 'next'], ['tail', 'head', 'range'],
                      ['read', 'tail', 'head', 'next', 'range']])
    for c in range(rng.randint(1, 3)):
        rd = f'r{c}'
        ops = [['mk', rd, {}]]
        for _ in range(rng.randint(2, 12)):
            ops.append(gen.reader_op(rng, rd, km, mix))
            if rng.random() < 0.2:
                ops.append(['sleep', gen.think(rng)])
        cl.append({'name': f'c{c}', 'ops': ops})
    if manual:
        ops = []
        for _ in range(rng.randint(1, 6)):
            ops.append(['sleep', gen.think(rng)])
            ops.append(['drop', rng.choice([1, 1, 1, 2, 3])])
        cl.append({'name': 'dropper', 'ops': ops})
    plan['clients'] = cl
    # drains what is left: the final window and every cursor are part of the history
    plan['final'] = [['mk', 'z', {}], ['range', 'z', {'start': -1, 'stop': km + 1, 'peek': True,
                                                   'ignore_no_item_found': True}]] \
        + [['read', f'r{c}', {'n': 100, 'ignore_no_item_found': True}] for c in range(len(cl) - manual)]
    return plan


def run(sim, plan):
    if plan.get('bulk'):
        return stream.run_bulk(sim, plan)
    return stream.run_stream(sim, plan)


def check(w, plan):
    if plan.get('bulk'):
        m = stream.check_bulk(w, plan)
        return [('not-linearizable', m)] if m else []
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('not-linearizable', m)]
    return []


def nontrivial(w, plan):
    """a reader call overlapped an append, a drop or another call that changed a result"""
    return w.overlaps() > 0

