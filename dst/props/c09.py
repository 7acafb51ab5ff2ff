"""C09 a failing source ends the stream for everyone, losing nothing it gave."""
from dst import gen, lin, stream

ID = 'C09'
X = ['InjectedError', 'OSError', 'ValueError', 'KeyboardInterrupt', 'IndexError', 'TypeError',
     'StopIteration', 'SystemExit', 'MemoryError', 'ConnectionResetError', 'EOFError', 'InjectedBase',
     'GeneratorExit', 'TimeoutError', 'KeyError', 'FalsyError']


def make(rng, tier):
    n = rng.choice([0, 1, 3, 6, 12])
    delays = rng.choice([(0,), (0, 0.1), (0.1,), (0.05, 0.2)])
    sc = gen.script(rng, n, delays, rng.choice([0, 0.2]), (0, 0.1))
    se = {'script': sc}
    x = rng.random()
    if x < 0.6 or n < 2:
        sc.append(['x', rng.choice(X), rng.choice([0, 0, 0.1, 0.7])])
    elif x < 0.8:
        se['keyfail'] = rng.randint(1, n)
    else:
        # an item whose key does not come after the one before
        i = [j for j, e in enumerate(sc) if e[0] == 'i'][rng.randrange(1, n)]
        prev = max(e[1] for e in sc[:i] if e[0] == 'i')
        sc[i][1] = prev - rng.choice([0, 0, 1, 50])
    if rng.random() < 0.2:
        se['close'] = {'d': rng.choice([0.1, 1]), **({'x': 'OSError'} if rng.random() < .5 else {})}
    again = {'script': gen.script(rng, 2, (0, 0.1))}
    timing = rng.random() < 0.6
    plan = {'src': gen.src(rng, [se, again]), 'buf': {'maxlen': rng.choice([1, 2, 4, 100, None])},
            'sched': gen.sched(rng, timing=timing), 'timing': timing}
    cl = []
    for c in range(rng.randint(1, 3)):
        cl.append(gen.consumer(rng, f'r{c}', poll=rng.choice([0.1, 0.37, 1.5]), think=rng.choice([0, 0, 0.1, 0.3])))
    if rng.random() < 0.5:
        cl.append({'name': 'idle', 'ops': [['mk', 'i', {}, 0.2], ['sleep', 9], ['is_stopped', 'i'],
                                           ['iter', 'i', None, 0]], 'finite': False})
    if rng.random() < 0.3:
        cl.append({'name': 'runs', 'ops': [['sleep', 0.1], ['is_running'], ['sleep', 8], ['is_running']]})
    plan['clients'] = cl
    plan['horizon'] = 10
    plan['post'] = []
    plan['final'] = [['is_running'], ['start'], ['mk', 'z', {}, 0.05], ['is_running'],
                     ['read', 'z', {'blocking': True}], ['stop'], ['iter', 'z', None, 0]]
    return plan


def run(sim, plan):
    return stream.run_stream(sim, plan)


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    evs = [e for e in w.events if e.sess == 0]
    lo, hi = lin.session_stop(w, 0)
    fail = next((e for e in evs if e.seq == lo), None)
    if fail is None:
        return []
    stop_seq = next((r.inv for r in w.recs if r.kind == 'start' and r.task == 'main' and r.inv > fail.seq), 1 << 60)
    closes = [e for e in evs if e.kind == 'close_call']
    if len(closes) != 1 or closes[0].seq > stop_seq and plan['timing']:
        return [('not-closed', f'the source failed at t={fail.t} but was closed {len(closes)} times')]
    tf = closes[0].t
    if plan['timing'] and tf > fail.t + 1e-6:
        return [('not-closed', f'the source failed at t={fail.t} but was closed at t={tf}')]
    for r in w.recs:
        if r.kind == 'is_running' and r.inv > closes[0].seq and r.inv < stop_seq and r.out != ('ok', False):
            return [('still-running', repr(r))]
    fin = [r for r in w.recs if r.task == 'main' and r.kind in ('start', 'mk', 'read', 'stop')]
    for r in fin:
        if r.out[0] != 'ok' or r.kind == 'read' and r.out[1] is None:
            return [('restart-failed', repr(r))]
    last = [r for r in w.recs if r.task == 'main' and r.kind == 'is_running']
    if last[-1].out != ('ok', True):
        return [('restart-failed', f'is_running after the restart: {last[-1]!r}')]
    dl = {c['ops'][0][1]: c['ops'][0][3] for c in plan['clients'] if c['ops'] and c['ops'][0][0] == 'mk'}
    for r in w.recs:
        if r.reader in dl and plan['timing']:
            if lin.norm(r, _O(r)) == 'END' or r.out == ('end',):
                if r.t1 > max(tf, r.t0) + dl[r.reader] + 1e-6:
                    return [('end-late', f'told the end {r.t1 - max(tf, r.t0):.3f} s after the failure '
                             f'(poll interval {dl[r.reader]}): {r!r}')]
            elif r.kind in ('next',) and r.out == ('ok', None) and r.t0 > tf + 1e-6:
                return [('no-end', f'source failed at t={tf}: {r!r}')]
    for c in plan['clients']:
        if c['ops'] and c['ops'][-1][0] in ('iter', 'loop'):
            rs = [r for r in w.recs if r.task == c['name']]
            if rs and rs[-1].t1 is not None and rs[-1].t1 > max(tf, 8) + 2.9 and plan['timing']:
                return [('no-end', f'{c["name"]} was not told the end: {rs[-1]!r}')]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


class _O:
    def __init__(self, r):
        self.a = r.args if isinstance(r.args, dict) else {}


def nontrivial(w, plan):
    """the source failed while a consumer was attached"""
    f = w.sim.faults
    return bool(w.readers) and len(w.events) > 2
