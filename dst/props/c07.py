"""C07 a restarted stream is a fresh session."""
from dst import gen, lin, stream

ID = 'C07'


def make(rng, tier):
    ns = rng.randint(2, 4)
    sessions = []
    for s in range(ns):
        n = rng.choice([0, 1, 1, 2, 4, 8])
        delays = rng.choice([(0,), (0, 0.05), (0.1,), (0, 1.5), (0.05, 3), (0.05, 12), (0, 70)])
        se = {'script': gen.script(rng, n, delays, rng.choice([0, 0.2]), (0, 0.1, 1.6),
                                   start=rng.choice([0, 0, 5, 40]))}
        if rng.random() < 0.3:
            se['script'].append(['x', rng.choice(['InjectedError', 'OSError', 'StopIteration']),
                                 rng.choice([0, 0.1])])
        elif rng.random() < 0.2:
            se['tail'] = ['n', rng.choice([0.2, 1.8])]
        if rng.random() < 0.25:
            se['open'] = {'d': rng.choice([0.1, 1])}
        if rng.random() < 0.25:
            se['close'] = {'d': rng.choice([0.1, 1.5])}
        sessions.append(se)
    plan = {'src': gen.src(rng, sessions), 'buf': {'maxlen': rng.choice([1, 2, 4, 100, None])},
            'sched': gen.sched(rng), 'seq_control': True, 'pre': [], 'clients': []}
    ops = []
    nr = 0
    sb = rng.random() < 0.5
    for s in range(ns):
        ops.append([rng.choice(['start', 'start', 'enter'])])
        for _ in range(rng.randint(1, 5)):
            x = rng.random()
            if x < 0.4:
                ops.append(['mk', f'r{nr}', {}, 0.1])
                nr += 1
            elif x < 0.55 and nr:
                ops.append(['bg', f'r{rng.randrange(nr)}', rng.choice(['iter', 'next', 'blocking'])])
            elif x < 0.75 and sb:
                ops.append([rng.choice(['sbnext', 'sbcall'])])
            elif nr:
                ops.append(gen.reader_op(rng, f'r{rng.randrange(nr)}', 50, ['read', 'next', 'range', 'tail', 'head']))
            ops.append(['sleep', rng.choice([0, 0, 0.02, 0.15, 0.6])])
        if rng.random() < 0.6:
            ops.append([rng.choice(['stop', 'exit'])])
            if rng.random() < 0.4:
                ops.append(['sleep', rng.choice([0.1, 3])])
    plan['ops'] = ops
    plan['settle'] = 80
    return plan


def run(sim, plan):
    w = stream.World(sim, plan, strict=True)
    w.mk_buffer()
    busy = set()
    for op in plan['ops']:
        if op[0] == 'bg':
            # a consumer of whatever session its reader belongs to, alongside
            if op[1] in w.readers and op[1] not in busy:
                busy.add(op[1])
                o = ['iter', op[1], None, 0.05] if op[2] == 'iter' else ['loop', op[1], op[2], {'poll': 0.1}]
                w.spawn({'name': f'bg_{op[1]}', 'ops': [o]})
            continue
        if len(op) > 1 and op[1] in busy and op[0] != 'mk':
            continue
        w.do(op)
    if w.core.opens:
        w.do(['stop'])
    for t in list(w.threads.values()):
        t.join()
    sim.settle(plan['settle'])
    for rd in sorted(w.readers):
        w.do(['is_stopped', rd])
        w.do(['range', rd, {'start': -9, 'stop': 100000, 'peek': True, 'ignore_no_item_found': True}])
    return w


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    for r in w.recs:
        if r.kind in ('start', 'stop', 'mk') and r.out[0] != 'ok':
            return [('call-failed', repr(r))]
        if r.reader and r.out and r.out[0] == 'ok' and r.out[1] is not None and r.kind in lin.READ_KINDS:
            s = w.rmeta.get(r.reader)
            for u in (r.out[1] if isinstance(r.out[1], list) else [r.out[1]]):
                if u in w.items and w.items[u][2] != s:
                    return [('mixed-sessions', f'a reader of session {s} obtained {u}: {r!r}')]
    starts = [r for r in w.recs if r.kind == 'start']
    for r in w.recs:
        if r.kind == 'is_stopped' and r.task == 'main' and r.out != ('ok', True):
            return [('not-stopped', repr(r))]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """at least two sessions with items, and a reader of one of them was used"""
    return len({e.sess for e in w.events if e.kind == 'read_item'}) > 1 and bool(w.readers)
