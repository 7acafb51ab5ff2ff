"""C08 a failed start leaves nothing behind."""
from dst import gen, lin, stream

ID = 'C08'
X = ['InjectedError', 'FalsyError', 'OSError', 'ValueError', 'KeyboardInterrupt', 'RuntimeError', 'TypeError',
     'StopIteration', 'SystemExit', 'MemoryError']


def make(rng, tier):
    ns = rng.randint(1, 5)
    sessions = []
    for s in range(ns + 1):
        n = rng.choice([1, 3, 6])
        se = {'script': gen.script(rng, n, (0, 0.05), start=rng.choice([0, 5]))}
        x = rng.random()
        if s < ns:
            if x < 0.4:
                se['open'] = {'x': rng.choice(X), 'd': rng.choice([0, 0.2])}
            elif x < 0.65:
                se['info'] = {'x': rng.choice(X), 'd': rng.choice([0, 0.2])}
            elif x < 0.72:
                se['keyget'] = {'x': rng.choice(X)}
            if rng.random() < 0.3:
                se['close'] = {'d': rng.choice([0, 0.2])}
                if rng.random() < 0.4:
                    se['close']['x'] = 'OSError'
        if rng.random() < 0.15:
            se['script'].append(['x', 'InjectedError', 0.05])
        if rng.random() < 0.2:
            se['tail'] = ['n', 1.4]
        sessions.append(se)
    plan = {'src': gen.src(rng, sessions), 'buf': {'maxlen': rng.choice([2, 100, None])},
            'sched': gen.sched(rng), 'seq_control': True}
    if any('keyget' in se for se in sessions):
        plan['src']['pkey'] = True
        plan['src'].pop('stablekey', None)
    if rng.random() < 0.4:
        plan['fail_thread_starts'] = sorted({rng.randint(1, 3)})
    ops = []
    for s in range(ns):
        ops.append([rng.choice(['start', 'start', 'enter'])])
        ops += [['is_running'], ['mk', f'p{s}', {}, 0.1]]
        if rng.random() < 0.4:
            ops.append(['sleep', rng.choice([0.05, 0.4])])
        if rng.random() < 0.5:
            ops.append(['read', f'p{s}', {'ignore_no_item_found': True}])
        if rng.random() < 0.3:
            ops.append(['bg', f'p{s}', 'iter'])
        if rng.random() < 0.4:
            ops.append(['stop'])
        if rng.random() < 0.3:
            ops += [[rng.choice(['sbnext', 'sbcall'])]]
    plan['ops'] = ops
    if rng.random() < 0.05:  # a window that cannot be made
        plan['buf']['maxlen'] = rng.choice([-1, -7, 'many', 2.5])
        plan['no_window'] = True
    return plan


def run_no_window(sim, plan):
    """Every start fails, for the maximum length of the window is nonsense."""
    w = stream.World(sim, plan, strict=True)
    w.bad = bad = []
    try:
        w.mk_buffer()
    except (ValueError, TypeError):  # could as well be refused at once
        return w
    for op in plan['ops']:
        if op[0] not in ('start', 'enter'):
            continue
        r = w.do(op)
        if r.out[0] == 'ok':
            bad.append(('error-swallowed', f'start returned although it could not: {r!r}'))
            break
        sim.fault('window_failure')
        if w.core.state == 'open':
            bad.append(('left-open', f'the source was left open by a failed start ({r.out})'))
        if w.do(['is_running']).out != ('ok', False):
            bad.append(('reported-running', 'is_running after a failed start'))
        if w.do(['mk', 'never', {}]).out[0] == 'ok':
            bad.append(('reader-made', 'mk_reader succeeded after a failed start'))
    return w


def run(sim, plan):
    if plan.get('no_window'):
        return run_no_window(sim, plan)
    w = stream.World(sim, plan, strict=True)
    w.mk_buffer()
    bad = []

    def after_start(r):
        """Right after a start: what the caller can see."""
        evs = [e for e in w.events if e.seq > r.inv]
        failed = [e for e in evs if e.kind in ('open_fail', 'info_fail', 'keyget_fail')]
        tfail = sim.faults.get('thread_start_failure', 0) > tf
        if r.out[0] == 'ok':
            if failed or tfail:
                bad.append(('error-swallowed', f'start returned although it could not: {r!r}'))
            return
        want = ('InjectedError',)
        if failed:
            e = failed[0]
            if r.out[1] != e.data or r.extra is not w.raised:
                bad.append(('error-changed', f'start raised {r.out} instead of {e.data}'))
        elif tfail:
            if r.out[1] != 'RuntimeError' or "can't start new thread" not in r.out[2]:
                bad.append(('error-changed', f'start raised {r.out} instead of the thread error'))
        else:
            bad.append(('start-failed', f'start raised though nothing failed: {r!r}'))
            return
        if w.core.state != 'closed':
            bad.append(('left-open', f'the source was left open by a failed start ({r.out})'))
        q = w.do(['is_running'])
        if q.out != ('ok', False):
            bad.append(('reported-running', f'is_running after a failed start: {q.out}'))
        q = w.do(['mk', 'never', {}])
        if q.out[0] == 'ok':
            bad.append(('reader-made', 'mk_reader succeeded after a failed start'))

    tf = 0
    busy = set()
    for op in plan['ops']:
        if op[0] == 'bg':
            if op[1] in w.readers and op[1] not in busy:
                busy.add(op[1])
                w.spawn({'name': f'bg_{op[1]}', 'ops': [['iter', op[1], None, 0.05]]})
            continue
        if len(op) > 1 and op[1] in busy and op[0] != 'mk':
            continue
        if op[0] == 'stop' and not w.core.opens:
            continue
        tf = sim.faults.get('thread_start_failure', 0)
        r = w.do(op)
        if op[0] in ('start', 'enter'):
            after_start(r)
    # a later start works as if nothing had happened
    plan['fail_thread_starts'] = []
    sim.fail_thread_starts = ()
    tf = sim.faults.get('thread_start_failure', 0)
    r = w.do(['start'])
    after_start(r)
    if r.out[0] == 'ok':
        w.do(['mk', 'last', {}, 0.05])
        w.do(['read', 'last', {'blocking': True}])
        w.do(['stop'])
        w.do(['iter', 'last', None, 0])
    for t in list(w.threads.values()):
        t.join()
    sim.settle(8)
    w.bad = bad
    return w


def check(w, plan):
    if w.bad:
        return [w.bad[0]]
    if plan.get('no_window'):
        return []
    opens = sum(1 for e in w.events if e.kind == 'open_ret')
    closes = sum(1 for e in w.events if e.kind == 'close_ret')
    if opens != closes:
        return [('open-close-count', f'{opens} opens succeeded but {closes} closes')]
    last = [r for r in w.recs if r.reader == 'last' and r.kind == 'read']
    if not last or last[0].out[0] != 'ok' or last[0].out[1] is None:
        return [('later-start', f'the start after failed ones did not deliver: {last}')]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """a start failed (open, info, key, window or thread creation) and a later one succeeded"""
    f = w.sim.faults
    return any(f.get(k) for k in ('open_failure', 'info_failure', 'key_lookup_failure', 'window_failure', 'thread_start_failure'))
