"""C11 no combination of calls, and no exception inside one, wedges the stream."""
from dst import gen, stream

ID = 'C11'
MIX = ['read', 'next', 'nextd', 'oldnext', 'head', 'tail', 'range', 'delcur', 'sleep', 'range', 'read']


def make(rng, tier):
    sessions = []
    faults = rng.choice([0, 0, 0.3])
    for s in range(rng.randint(1, 3)):
        n = rng.choice([2, 6, 12])
        se = {'script': gen.script(rng, n, rng.choice([(0,), (0, 0.05), (0.05, 0.2)]),
                                   rng.choice([0, 0.3]), (0, 0.05))}
        if rng.random() < faults:
            if rng.random() < 0.5:
                se['script'].append(['x', rng.choice(['InjectedError', 'OSError', 'KeyboardInterrupt']), 0.05])
            else:
                se['keyfail'] = rng.randint(1, n)
        if rng.random() < 0.15:  # the source asks after its stream, or stops it
            se['script'].insert(rng.randint(0, len(se['script'])),
                                [rng.choice('qqs'), rng.choice([0, 0.05, 1.5, 4])])
        if rng.random() < 0.1:  # a read that is pending for long
            se['script'].insert(rng.randint(0, len(se['script'])), ['n', 40])
        if rng.random() < 0.2:
            se['close'] = {'d': 0.3, 'x': rng.choice([None, 'OSError'])}
        sessions.append(se)
    plan = {'src': gen.src(rng, sessions, idle=rng.choice([0.05, 0.3, None])),
            'buf': {'maxlen': gen.maxlen(rng)}, 'sched': gen.sched(rng)}
    exc = rng.choice([0, 0.2, 0.5])
    if exc and rng.random() < 0.5:
        plan['src']['key'] = 'sim'
    manual = rng.random() < 0.3
    if manual:
        plan['buf']['auto_drop'] = False
    km = gen.kmax(plan)
    cl = []
    for c in range(rng.randint(2, 4)):
        rds = [f'r{c}a', f'r{c}b']
        ops = [['mk', rds[0], {}, 0.1]]
        for _ in range(rng.randint(2, 12)):
            rd = rng.choice(rds)
            if rng.random() < exc:
                ops.append([rng.choice(['keyfail', 'cmpfail']), rng.choice([1, 1, 2, 3])])
            x = rng.random()
            if x < 0.08:
                ops.append(['mk', rd, {}, 0.1])
            elif x < 0.12 and manual:
                ops.append(['drop', rng.choice([1, 2, 50])])
            elif x < 0.16:
                ops.append(['attach', rds[0]])
            elif x < 0.2:
                ops.append([rng.choice(['sbnext', 'sbcall'])])
            elif x < 0.24:
                ops.append(['is_running'])
            elif x < 0.28:
                ops.append(['iter', rd, rng.choice([1, 2, None]), gen.think(rng)])
            elif x < 0.31:
                ops.append(['read', rd, {'blocking': True, 'n': rng.choice([1, 2])}])
            else:
                ops.append(gen.reader_op(rng, rd, km, MIX))
            if exc and rng.random() < 0.5:
                ops.append(['clearfail'])
        cl.append({'name': f'c{c}', 'ops': ops, 'finite': False})
    ctl = []
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        ctl += [['sleep', rng.choice([0, 0.05, 0.3, 1])], [rng.choice(['stop', 'start', 'start'])]]
    if ctl:
        cl.append({'name': 'ctl', 'ops': ctl})
    plan['clients'] = cl
    plan['horizon'] = rng.choice([0, 0.2, 1])
    return plan


def run(sim, plan):
    w = stream.World(sim, plan, strict=True)
    w.mk_buffer()
    w.do(['start'])
    for c in plan['clients']:
        w.spawn(c)
    if 'ctl' in w.threads:
        w.threads['ctl'].join()
    if plan['horizon']:
        sim.sleep(plan['horizon'], 'horizon')
    bound = 3.0

    def reads():
        return sum(1 for e in w.events if e.kind == 'read_call')

    def polled(what):
        """The source is being read (room is made first where needed)."""
        n = reads()
        long = w.core.busy  # a read that is already pending ends when it ends
        for _ in range(3):
            if plan['buf'].get('auto_drop') is False and plan['buf']['maxlen'] is not None:
                w.do(['drop', 200])
            sim.sleep(bound / 3, 'bound')
        if reads() == n and not long and not w.core.busy and w.do(['is_running']).out == ('ok', True):
            sim.violate('not-read', f'{what}: the stream says it is running, but the source was '
                        f'not read for {bound} s')

    sim.stalls_on = False  # faults stop here: progress is due within the bound
    sim.sleep(2.1, 'last stalls')
    polled('after the calls')
    w.do(['stop'])
    for t in w.threads.values():
        t.join()
    # and everything still works
    r = w.do(['start'])
    if r.out[0] != 'ok':
        sim.violate('restart', f'{r!r}')
    polled('after a restart')
    w.do(['mk', 'z', {}, 0.1])
    r = w.do(['tail', 'z', {'ignore_no_item_found': True}])
    if r.out[0] != 'ok':
        sim.violate('reader', f'{r!r}')
    w.do(['stop'])
    w.do(['iter', 'z', None, 0])
    sim.settle(60 if any(e[1] == 40 for se in plan['src']['sessions'] for e in se['script']
                         if e[0] == 'n') else 6)
    if w.core.state != 'closed':
        sim.violate('left-open', 'the source is still open 3 s after the last stop')
    return w


def check(w, plan):
    if plan['sched'].get('p_stall'):
        return []
    # what concerns no read is not kept waiting by a read that is pending (a restart takes 1 s)
    bound = 2 + sum(1 for r in w.recs if r.kind in ('start', 'stop'))
    for r in w.recs:
        if r.kind in ('is_running', 'mk', 'attach') and r.t1 is not None and r.t1 - r.t0 > bound:
            return [('kept-waiting', f'{r!r} took from t={r.t0} to t={r.t1}')]
    return []


def nontrivial(w, plan):
    """a call overlapped an append, drop, stop or start"""
    return w.overlaps() > 0
