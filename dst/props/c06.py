"""C06 stopping is bounded and final."""
from dst import gen, stream

ID = 'C06'


def make(rng, tier):
    n = rng.choice([0, 2, 5, 10])
    delays = rng.choice([(0,), (0.1,), (0.3, 0.49), (0, 0.45), (0.7, 1.2), (1, 5, 30), (0, 100)])
    sess = {'script': gen.script(rng, n, delays, rng.choice([0, 0.4]), (0, 0.2, 0.45, 3, 70))}
    x = rng.random()
    if x < 0.2:
        sess['tail'] = ['n', rng.choice([0.05, 0.4, 3, 70])]
    elif x < 0.3:
        sess['tail'] = ['x', rng.choice(['InjectedError', 'StopIteration', 'OSError']), rng.choice([0, .1, 5])]
    if rng.random() < 0.15:
        sess['script'].insert(rng.randint(0, n), ['s', rng.choice([0, 0.3, 3])])
    if rng.random() < 0.1:
        sess['close'] = {'x': 'OSError'}
    idle = rng.choice([None, 0.01 if n > 99 else 0.05, 0.3, 5, 60])
    plan = {'src': gen.src(rng, [sess], idle=idle),
            'buf': {'maxlen': rng.choice([1, 2, 5, 100])},
            'sched': gen.sched(rng, timing=True)}
    if rng.random() < 0.3:
        plan['buf']['auto_drop'] = False
        plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.05, 2, 50])
    cl = []
    for c in range(rng.randint(0, 2)):
        cl.append(gen.consumer(rng, f'r{c}', poll=rng.choice([0.1, 5.0]), think=rng.choice([0, 0.2, 3])))
    for s in range(rng.choice([1, 1, 2])):
        ops = [['sleep', rng.choice([0, 0.01, 0.1, 0.31, 1, 4])], [rng.choice(['stop', 'stop', 'exit'])]]
        if rng.random() < 0.6:
            ops.append(['join'])
        if rng.random() < 0.2:
            ops.append(['stop'])
        cl.append({'name': f'stop{s}', 'ops': ops})
    if rng.random() < 0.3:
        cl.append({'name': 'joiner', 'ops': [['sleep', rng.choice([0, 0.2])], ['join']]})
    plan['clients'] = cl
    plan['post'] = [['stop'], ['join']]
    plan['settle'] = 1
    return plan


def run(sim, plan):
    return stream.run_stream(sim, plan)


PEND = {'read_item', 'read_none', 'read_fail'}


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    evs = w.events
    close_call = next((e for e in evs if e.kind == 'close_call'), None)
    close_ret = next((e for e in evs if e.kind == 'close_ret'), None)
    for r in w.recs:
        if r.kind == 'join':
            if r.out[0] != 'ok':
                return [('join-raised', repr(r))]
            if close_ret is None or r.ret < close_ret.seq:
                return [('join-early', f'join returned before the source was closed: {r!r}')]
        if r.kind != 'stop':
            continue
        if r.out[0] != 'ok':
            return [('stop-raised', repr(r))]
        if r.t1 - r.t0 > 2.0 + 1e-6:
            return [('stop-slow', f'stop took {r.t1 - r.t0:.3f} s: {r!r}')]
        late = [e for e in evs if e.kind == 'read_call' and e.seq > r.ret]
        if late:
            return [('read-after-stop', f'read begun at t={late[0].t} after stop returned at t={r.t1}')]
        # the read pending when stop was called, if any
        last = [e for e in evs if e.kind == 'read_call' and e.t <= r.t0 + 1e-9]
        end = None
        if last:
            end = next((e for e in evs if e.seq > last[-1].seq and e.kind in PEND), None)
            if end is None:
                continue
        t_end = max(r.t0, end.t if end else 0)
        # another read may have begun in the same instant
        after = [e for e in evs if e.kind == 'read_call' and e.seq > r.inv]
        for e in after:
            f = next((x for x in evs if x.seq > e.seq and x.kind in PEND), None)
            if f is None or f.t > t_end:
                t_end = f.t if f else None
                break
        if t_end is None:
            continue
        if t_end - r.t0 <= 0.5 and not r.task.startswith('lib'):  # the source cannot stop and be closed at once
            if close_ret is None or close_ret.seq > r.ret:
                return [('not-closed', f'stop at t={r.t0} returned at t={r.t1} with the source still open, '
                         f'though the pending read returned at t={t_end}')]
        elif close_call is None or close_call.t > max(t_end, r.t0) + 1e-6:
            return [('late-close', f'the pending read returned at t={t_end} but the source was closed at '
                     f't={close_call.t if close_call else "never"}')]
    return []


def nontrivial(w, plan):
    """stop was called while the source was being read or waited for"""
    return any(r.kind == 'stop' for r in w.recs) and len(w.events) > 4
