"""C03 with auto-drop off nothing is lost and the window never overfills."""
from dst import gen, lin, stream

ID = 'C03'


def make(rng, tier):
    if rng.random() < 0.002:
        return stream.bulk_plan(rng, False)
    n = rng.choice([4, 8, 16, 30])
    timing = rng.random() < 0.5
    delays = rng.choice([(0,), (0, 0.01), (0.01, 0.05)])
    sc = gen.script(rng, n, delays, rng.choice([0, 0, 0.15]), (0, 0.01))
    ml = rng.choice([1, 2, 3, 5, 8, None])
    if rng.random() < 0.01:
        ml = 0
    auto = rng.random() < 0.12
    idle = rng.choice([0.01, 0.05, 0.2])
    plan = {'src': gen.src(rng, [{'script': sc}], idle=None),
            'buf': {'maxlen': ml, 'auto_drop': auto, 'sleep_time_on_read_none_s': idle},
            'sched': gen.sched(rng, timing=timing, eps=0.0 if timing else None),
            'timing': timing}
    cl = []
    for d in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.randint(1, 12)):
            ops.append(['sleep', gen.think(rng)])
            ops.append(['drop', rng.choice([1, 1, 2, 3, 9])] if rng.random() < 0.8 else ['drop'])
        cl.append({'name': f'dropper{d}', 'ops': ops})
    for c in range(rng.randint(0, 2)):
        cl.append(gen.consumer(rng, f'r{c}', modes=('iter', 'next', 'chunk', 'range')))
    plan['clients'] = cl
    # the consume-and-drop loop of the documentation
    if rng.random() < 0.3:
        ops = [['mk', 'cd', {}, 0.05]]
        for _ in range(rng.randint(2, n)):
            ops += [['read', 'cd', {'blocking': True}], ['drop', 1]]
        plan['clients'] = [{'name': 'loop', 'ops': ops, 'finite': False}]
    plan['horizon'] = rng.choice([0.3, 1, 3])
    plan['final'] = [['mk', 'z', {}],
                     ['range', 'z', {'start': -9, 'stop': 100000, 'peek': True, 'ignore_no_item_found': True}]]
    return plan


def run(sim, plan):
    if plan.get('bulk'):
        return stream.run_bulk(sim, plan)
    return stream.run_stream(sim, plan)


def check(w, plan):
    if plan.get('bulk'):
        m = stream.check_bulk(w, plan)
        return [('lost-or-wrong', m)] if m else []
    auto = plan['buf']['auto_drop']
    ml = plan['buf']['maxlen']
    drops = [r for r in w.recs if r.kind == 'drop']
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    if auto:
        for r in drops:
            if r.out[0] == 'ok':
                return [('drop-accepted', f'manual drop accepted with auto_drop on: {r!r}')]
    else:
        # never read while full
        got = 0
        for e in w.events:
            if e.kind == 'read_item':
                got += 1
            elif e.kind == 'read_call' and ml is not None:
                room = 0
                for r in drops:
                    if r.inv < e.seq:
                        room += r.args[0]
                if got - room >= ml:
                    return [('read-while-full',
                             f'source read at t={e.t} though {got} items had been stored and at most '
                             f'{room} dropped (maxlen {ml})')]
        for r in drops:
            if r.out[0] == 'exc' and r.out[1] == 'RuntimeError':
                return [('drop-refused', f'manual drop refused with auto_drop off: {r!r}')]
        # reading goes on
        if plan.get('timing'):
            stop_t = min([r.t0 for r in w.recs if r.kind == 'stop'], default=1e9)
            idle = plan['buf']['sleep_time_on_read_none_s']
            # between any two source calls there is never more than idle time of room
            evs = sorted([(e.seq, e.t, e.kind) for e in w.events if e.kind in ('read_call', 'read_item', 'read_none', 'open_ret')]
                         + [(r.ret, r.t1, 'drop') for r in drops if r.ret is not None]
                         + [(r.inv, r.t0, 'drop_call') for r in drops if r.ret is not None])
            n = 0
            dropped = 0  # at least so many
            asked = {}
            room_t = 0.0 if ml != 0 else None
            read_t = -1.0
            inside = False
            for seq, t, k in evs + [(1 << 60, stop_t, 'stop')]:
                if k in ('read_call', 'stop') and not inside:
                    if room_t is not None and t - room_t > idle + 1e-6 and t <= stop_t + 1e-9:
                        return [('stalled', f'the source was not read between t={room_t} and t={t} '
                                 f'although the window had room (idle time {idle})')]
                if k == 'read_call':
                    inside = True
                elif k in ('read_item', 'read_none'):
                    inside = False
                    if k == 'read_item':
                        n += 1
                        read_t = t
                    room_t = t if ml is None or n - dropped < ml else None
                elif k == 'drop':
                    r = next(x for x in drops if x.ret == seq)
                    done = [x for x in drops if x.ret is not None and x.ret <= seq]
                    took = [x for x in done if x.out[0] == 'ok']
                    # at least what the accepted drops took; one which asked for more than there
                    # was left nothing behind, however those it overlapped came before or after
                    dropped = max([sum(x.args[0] for x in took)]
                                  + [asked[d.inv] + sum(x.args[0] for x in took if x.inv > d.ret)
                                     for d in done if d.out[0] != 'ok' and d.out[1] == 'IndexError'])
                    if not inside and room_t is None and n - dropped < ml:
                        room_t = t
                elif k == 'drop_call':
                    asked[seq] = n if t > read_t + 1e-9 else n - 1
                elif k == 'open_ret':
                    room_t = t if ml != 0 else None
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('lost-or-wrong', m)]
    return []


def nontrivial(w, plan):
    if plan.get('bulk'):
        return True
    ml = plan['buf']['maxlen']
    n = sum(1 for e in w.events if e.kind == 'read_item')
    return any(r.kind == 'drop' for r in w.recs) and (ml is None or n >= ml)
