"""C05 per session the source is opened, read and closed in order, once each."""
from dst import gen, stream

ID = 'C05'
EXCS = ['InjectedError', 'FalsyError', 'StopIteration', 'OSError', 'ValueError', 'KeyboardInterrupt', 'MemoryError',
        'SystemExit', 'IndexError', 'TypeError']


def session(rng, faults):
    n = rng.choice([0, 1, 3, 6, 12])
    delays = rng.choice([(0,), (0, 0.05), (0.1, 0.4), (0, 0.8), (0.05, 2.5), (0, 0.1, 20), (0, 70)])
    s = {'script': gen.script(rng, n, delays, rng.choice([0, 0.3]), (0, 0.1))}
    if rng.random() < 0.3:
        s['tail'] = ['n', rng.choice([0.2, 1.3, 1.3, 15])]
    if rng.random() < 0.3:
        s['open'] = {'d': rng.choice([0.05, 0.5])}
    if rng.random() < 0.3:
        s['close'] = {'d': rng.choice([0.05, 0.5, 1.5, 12])}
    if rng.random() < faults:
        x = rng.random()
        if x < 0.4:
            s['script'].append(['x', rng.choice(EXCS), rng.choice([0, 0.1])])
        elif x < 0.55 and n:
            s['keyfail'] = rng.randint(1, n)
        elif x < 0.7 and n > 1:
            i = rng.randrange(1, len(s['script']))
            if s['script'][i][0] == 'i':
                s['script'][i][1] = -1  # goes backwards
        elif x < 0.85:
            s.setdefault('close', {})['x'] = rng.choice(['InjectedError', 'OSError', 'ValueError'])
        else:
            s.setdefault('open' if rng.random() < .5 else 'info', {})['x'] = rng.choice(
                ['InjectedError', 'OSError', 'KeyboardInterrupt'])
    return s


def make(rng, tier):
    faults = rng.choice([0, 0.3, 0.6])
    ns = rng.randint(1, 4)
    plan = {'src': gen.src(rng, [session(rng, faults) for _ in range(ns)]),
            'buf': {'maxlen': gen.maxlen(rng)}, 'sched': gen.sched(rng)}
    if rng.random() < 0.2:
        plan['buf']['auto_drop'] = False
        plan['buf']['maxlen'] = rng.choice([1, 3])
    cl = []
    two = rng.random() < 0.35
    for c in range(2 if two else 1):
        ops = []
        for i in range(rng.randint(1, 5)):
            ops.append(rng.choice([['start'], ['start'], ['stop'], ['enter'], ['exit'], ['is_running']])
                       if two else rng.choice([['start'], ['stop'], ['start'], ['exit'], ['enter']]))
            ops.append(['sleep', rng.choice([0, 0, 0.05, 0.3, 1, 2.5])])
        cl.append({'name': f'ctl{c}', 'ops': ops, 'finite': True})
    if rng.random() < 0.5:
        cl.append({'name': 'cons', 'ops': [['sleep', 0.01], ['mk', 'r', {}, 0.1], ['iter', 'r', None, 0.02],
                                           ['mk', 'r2', {}, 0.1], ['iter', 'r2', None, 0.0]], 'finite': False})
    if rng.random() < 0.3:
        # returns when the session it waits for is over
        cl.append({'name': 'joiner', 'ops': [['sleep', rng.choice([0, 0.1, 1])], ['join']], 'finite': False})
    plan['pre'] = [['start']]
    plan['clients'] = cl
    plan['post'] = [['stop']]
    plan['settle'] = 90
    return plan


def run(sim, plan):
    w = stream.run_stream(sim, plan, strict=True)
    return w


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    ss = w.sessions()
    for s, evs in sorted(ss.items()):
        kinds = [e.kind for e in evs if e.kind in ('open_call', 'open_ret', 'read_call', 'close_call', 'close_ret')]
        if kinds.count('open_call') != 1:
            return [('open-count', f'session {s}: open called {kinds.count("open_call")} times')]
        opened = 'open_ret' in kinds
        if opened and kinds.count('close_call') != 1:
            return [('close-count', f'session {s}: close called {kinds.count("close_call")} times '
                                    f'(source state {w.core.state})')]
        if not opened and len(kinds) > 1:
            return [('order', f'session {s}: {kinds} although opening failed')]
        if opened:
            if kinds[:2] != ['open_call', 'open_ret'] or kinds[-1] != 'close_ret' or kinds[-2] != 'close_call':
                return [('order', f'session {s}: {kinds}')]
        tasks = {e.task for e in evs if e.kind == 'read_call'}
        if len(tasks) > 1:
            return [('two-readers', f'session {s} was read by {sorted(tasks)}')]
    for r in w.recs:
        if r.out and r.out[0] == 'exc' and r.out[2] == 'close failed':
            return [('close-error-escaped', repr(r))]
    for t in w.sim.tasks:
        if t.exc is not None and str(t.exc) == 'close failed':
            return [('close-error-escaped', f'the error raised by closing ended thread {t.name}')]
    return []


def nontrivial(w, plan):
    """the source was read, and a session ended by stop, restart or failure"""
    k = [e.kind for e in w.events]
    return 'read_call' in k and ('close_call' in k)
