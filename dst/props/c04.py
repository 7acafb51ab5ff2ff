"""C04 end of stream is signalled exactly when stopped and drained."""
from dst import gen, lin, stream

ID = 'C04'


def make(rng, tier):
    n = rng.choice([0, 1, 2, 3, 5, 9])
    grid = rng.choice([0.1, 0.1, 0.05])
    delays = rng.choice([(grid,), (0, grid), (0,), (grid, 2 * grid), (0, 3 * grid)])
    sess = {'script': gen.script(rng, n, delays, rng.choice([0, 0, 0.3]), (0, grid))}
    x = rng.random()
    fail = None
    if x < 0.3:
        fail = rng.choice(['InjectedError', 'StopIteration', 'OSError', 'ValueError', 'KeyboardInterrupt'])
        sess['script'].append(['x', fail, rng.choice([0, grid])])
    elif x < 0.4 and n:
        sess['keyfail'] = rng.randint(1, n)
    plan = {'src': gen.src(rng, [sess], idle=rng.choice([grid, 0.3, None])),
            'buf': {'maxlen': rng.choice([1, 2, 3, 10, 100])},
            'sched': gen.sched(rng)}
    cl = []
    for c in range(rng.randint(1, 3)):
        rd = f'r{c}'
        kw = {}
        if rng.random() < 0.3:
            kw['read_size'] = rng.choice([2, 3])
            if rng.random() < 0.4:  # not enough for a full chunk is an error, not the end
                kw['strict_n'] = True
        co = gen.consumer(rng, rd, poll=rng.choice([grid, grid, 0.37]),
                          think=rng.choice([0, 0, grid]), mkkw=kw)
        # ask again after the end
        for _ in range(rng.randint(0, 3)):
            co['ops'].append(rng.choice([['next', rd], ['nextd', rd], ['read', rd, {'blocking': True}],
                                         ['iter', rd, None, 0], ['sleep', grid]]))
        cl.append(co)
    for s in range(rng.choice([0, 1, 1, 1, 2])):
        cl.append({'name': f'stop{s}', 'ops': [['sleep', round(grid * rng.randint(0, n + 2), 4)], ['stop']]})
    plan['clients'] = cl
    plan['horizon'] = rng.choice([0, grid * 4, 1])
    plan['final'] = [['next', f'r{c}'] for c in range(3)]
    if rng.random() < 0.2:  # the stream itself is asked, too
        plan['final'] += [[rng.choice(['sbnext', 'sbcall'])] for _ in range(rng.randint(1, n + 3))]
    return plan


def run(sim, plan):
    return stream.run_stream(sim, plan)


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-end', m)]
    # asked after everything is over, every reader says so
    for r in w.recs:
        if r.task == 'main' and r.kind == 'next' and r.out != ('exc', 'StopIteration', ''):
            a = lin.effective('next', {}, stream.dflts(plan, w).get(r.reader, {}))
            if r.out == ('ok', None):
                return [('no-end', f'after the stop and with nothing left: {r!r}')]
    return []


def nontrivial(w, plan):
    """some call was answered with the end of the stream, and a stop or failure happened
    while a consumer was active"""
    return any(r.out and (r.out[0] == 'end' or r.out[:2] == ('exc', 'StopIteration')) for r in w.recs)
