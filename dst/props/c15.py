"""C15 the one-call stream helper delivers, paces and cleans up."""
from dst import gen, lin, stream, world
from dst.sim import SimAbort, HarnessError
from dst.world import EXC

ID = 'C15'
EPS = 1e-6
BODY = ['InjectedError', 'FalsyError', 'ValueError', 'KeyboardInterrupt', 'StopIteration', 'SystemExit', 'GeneratorExit',
        'RuntimeError', 'OSError']
MIX = ['read', 'next', 'nextd', 'head', 'tail', 'oldnext', 'sleep']


def make(rng, tier):
    n = rng.choice([0, 1, 3, 6, 12])
    se = {'script': gen.script(rng, n, rng.choice([(0,), (0, 0.05), (0.1, 0.3)]), rng.choice([0, 0.3, 0.6]),
                               (0, 0.1))}
    have = {f: rng.random() < 0.7 for f in ('open', 'close', 'info', 'key')}
    x = rng.random()
    if x < 0.25:
        se['script'].append(['x', rng.choice(['InjectedError', 'OSError', 'StopIteration', 'ValueError',
                                              'KeyboardInterrupt']), rng.choice([0, 0.1])])
    elif x < 0.32 and have['open']:
        se['open'] = {'x': rng.choice(BODY), 'd': rng.choice([0, 0.1])}
    elif x < 0.39 and have['info']:
        se['info'] = {'x': rng.choice(BODY)}
    elif x < 0.45 and n and have['key']:
        se['keyfail'] = rng.randint(1, n)
    elif x < 0.5:
        se['tail'] = ['n', rng.choice([0.8, 3])]
    if rng.random() < 0.3:
        se['close'] = {'d': rng.choice([0, 0.2])}
        if rng.random() < 0.5:
            se['close']['x'] = 'OSError'
    plan = {'src': gen.src(rng, [se, {'script': gen.script(rng, 2, (0, 0.1))}], style='plain'),
            'have': have, 'enum': rng.random() < 0.6, 'buf': {'maxlen': gen.maxlen(rng)},
            'sched': gen.sched(rng, timing=rng.random() < 0.6, eps=None), 'pass_enum': rng.random() < 0.7}
    if not have['key'] and not plan['enum']:
        plan['src']['item'] = 'tuple'
    if plan['enum'] and plan['src']['item'] in ('list',):
        plan['src']['item'] = 'obj'
    idle = rng.choice([None, None, 0.05, 0.7, 2, 0])
    plan['idle'] = idle
    if idle == 0:  # asked again at once: only a source that takes its time lets time pass
        for s in plan['src']['sessions']:
            s.setdefault('tail', ['n', rng.choice([0.05, 0.4])])
            for e in s['script']:
                if e[0] == 'n':
                    e[1] = max(e[1], 0.07)
    cl = []
    manual = rng.random() < 0.25
    if manual:
        plan['buf']['auto_drop'] = False
        if idle == 0:
            plan['buf']['maxlen'] = 100
        ops = []
        for _ in range(rng.randint(1, 8)):
            ops += [['sleep', gen.think(rng)], ['drop', 1]]
        cl.append({'name': 'dropper', 'ops': ops})
    for c in range(rng.randint(0, 3)):
        if rng.random() < 0.6:
            cl.append(gen.consumer(rng, f'r{c}', modes=('iter', 'sbiter', 'next', 'blocking', 'chunk')))
        else:
            ops = [['mk', f'r{c}', {}]]
            for _ in range(rng.randint(1, 8)):
                ops.append(gen.reader_op(rng, f'r{c}', 10, MIX))
            cl.append({'name': f'c{c}', 'ops': ops})
    plan['clients'] = cl
    body = [['sleep', rng.choice([0, 0.05, 0.5, 2])]]
    if rng.random() < 0.5:
        body.append(['mk', 'm', {}])
        body += [gen.reader_op(rng, 'm', 10, MIX) for _ in range(rng.randint(1, 4))]
    if rng.random() < 0.15 and have['open'] and have['close']:
        body += [['stop'], ['sleep', 3.5], ['start'], ['mk', 'm2', {}], ['sleep', 0.4],
                 ['read', 'm2', {'ignore_no_item_found': True}]]
    elif rng.random() < 0.1:
        body += [['stop']]
    plan['body'] = body
    if rng.random() < 0.4:
        plan['body_x'] = rng.choice(BODY)
    return plan


class World(stream.World):
    def check_item(self, x):
        if self.plan['enum']:
            if not isinstance(x, tuple) or len(x) != 2 or type(x[0]) is not int:
                return f'?not enumerated: {type(x).__name__}'
            uid = super().check_item(x[1])
            if uid in self.items and int(uid.split('.')[1]) != x[0]:
                return f'?item {uid} numbered {x[0]}'
            return uid
        return super().check_item(x)

    def canon(self, v):
        if isinstance(v, list):
            if self.plan['enum'] or self.plan['src'].get('item') != 'list' or \
                    not (len(v) == 2 and isinstance(v[1], str)):
                return [self.check_item(x) for x in v]
        return v if v is None or isinstance(v, str) else self.check_item(v)

    def cursor(self, rname):
        return None


class Inst:
    def __init__(self, sess):
        self.sess = sess


def run(sim, plan):
    from stream2py.simply import mk_stream_buffer
    w = World(sim, plan, strict=True)
    core = w.core
    have = plan['have']
    w.bad = []
    w.insts = []
    if not have['open']:
        core.state, core.sess = 'open', 0
    if not have['close']:
        core.strict = have['open'] and False

    def same(what, inst):
        want = w.insts[-1] if w.insts else None
        if inst is not want:
            w.bad.append(('wrong-instance', f'{what} was called with {inst!r} instead of the opened instance'))

    def open_stream():
        core.open()
        w.insts.append(Inst(core.sess))
        return w.insts[-1]

    def close_stream(inst):
        same('close', inst)
        core.close()
        if not have['open']:
            core.state = 'closed'

    def read_stream(inst):
        same('read', inst)
        return core.read()

    def info(inst):
        same('info', inst)
        w.last_info = core.info
        return w.last_info

    def key(data):
        if plan['enum']:
            if not isinstance(data, tuple) or len(data) != 2:
                w.bad.append(('wrong-key', f'key was called with {data!r}'))
            data = data[1]
        return core.key(data)

    kw = dict(plan['buf'])
    if have['open']:
        kw['open_stream'] = open_stream
    if have['close']:
        kw['close_stream'] = close_stream
    if have['info']:
        kw['info'] = info
    if have['key']:
        kw['key'] = key
    if plan['idle'] is not None:
        kw['sleep_time_on_read_none_seconds'] = plan['idle']
    if plan['pass_enum'] or not plan['enum']:
        kw['enumerate_data'] = plan['enum']
    x = EXC[plan['body_x']]('body') if plan.get('body_x') else None
    w.x, w.entered = x, False
    w.caught = None
    r = w.begin('start', ())
    if not have['open']:
        w.ev('open_call', 0)
        w.ev('open_ret', 0)
    w.stop_rec = None
    try:
        with mk_stream_buffer(read_stream, **kw) as sb:
            w.entered = True
            w.end(r, ('ok', None))
            w.sb = sb
            for c in plan['clients']:
                w.spawn(c)
            for op in plan['body']:
                w.do(op)
            w.stop_rec = w.begin('stop', ())
            if x is not None:
                raise x
    except (SimAbort, HarnessError):
        raise
    except BaseException as e:
        e.__traceback__ = None
        w.caught = e
    if not w.entered:
        w.end(r, ('exc', type(w.caught).__name__, str(w.caught)))
        w.exit_state = core.state
    else:
        w.end(w.stop_rec, ('ok', None))
        w.exit_state = core.state
        w.n_stops += 1
    for t in w.threads.values():
        t.join()
    sim.settle(6)
    return w


def check(w, plan):
    if w.bad:
        return [w.bad[0]]
    have = plan['have']
    evs = w.events
    fail = [e for e in evs if e.kind in ('open_fail', 'info_fail', 'keyget_fail')]
    if fail and not w.entered:
        x = w.exc_of[fail[-1].seq]
        # (a generator turns StopIteration into a RuntimeError caused by it)
        if w.caught is not x and not (isinstance(x, StopIteration) and w.caught.__cause__ is x):
            return [('error-changed', f'starting failed with {fail[-1].data} but the caller saw {w.caught!r}')]
    elif fail and w.entered and len([e for e in evs if e.kind == 'open_ret']) < 2:
        return [('error-swallowed', f'the body ran although {fail[-1]!r}')]
    elif not w.entered:
        return [('not-started', f'the body did not run: {w.caught!r}')]
    elif w.caught is not w.x:
        return [('error-changed', f'the body raised {w.x!r} but the caller saw {w.caught!r}')]
    starts = [r for r in w.recs if r.kind == 'start']
    if have['open']:
        n = sum(1 for e in evs if e.kind == 'open_call')
        if n != len(starts):
            return [('open-count', f'{len(starts)} start(s) but the open function was called {n} times')]
    if have['close']:
        opened = sum(1 for e in evs if e.kind == 'open_ret') if have['open'] else len(starts)
        n = sum(1 for e in evs if e.kind == 'close_call')
        if n != opened:
            return [('close-count', f'{opened} time(s) opened but the close function was called {n} times')]
        tl = plan['src']['sessions'][0].get('tail')
        if w.exit_state != 'closed' and (not tl or tl[1] <= 0.4) and not plan['sched'].get('p_stall') and not plan['sched'].get('eps'):
            return [('not-closed', 'the with block was left with the stream still open')]
    if have['info'] and w.entered:
        for name, rd in sorted(w.readers.items()):
            i = rd.source_reader_info
            if not isinstance(i, dict) or i.get('session') != w.rmeta[name] or 'at' not in i:
                return [('wrong-info', f'reader {name} reports {i!r}')]
    if not have['open'] and len(starts) > 1:
        return []
    for f in evs:
        if f.kind == 'read_fail' and any(e.kind == 'read_call' and e.sess == f.sess and e.seq > f.seq for e in evs):
            return [('read-again', f'the read function was called again after it had failed: {f!r}')]
    timing = not plan['sched'].get('p_stall') and not plan['sched'].get('eps')
    idle = 0.3 if plan['idle'] is None else plan['idle']
    full = plan['buf'].get('auto_drop') is False and plan['buf']['maxlen'] is not None
    stop_t = min([r.t0 for r in w.recs if r.kind == 'stop'], default=1e9)
    if timing:
        ev = [e for e in evs if e.kind in ('read_call', 'read_item', 'read_none') and e.sess == 0]
        for a, b in zip(ev, ev[1:]):
            if a.kind == 'read_none' and (b.t < a.t + idle - EPS or not full and b.t > a.t + idle + EPS):
                return [('pace', f'no data at t={a.t}, read again at t={b.t} with an idle time of {idle}')]
            if a.kind == 'read_item' and not full and b.t > a.t + EPS:
                return [('pace', f'an item at t={a.t}, read again at t={b.t}')]
        if ev and ev[-1].kind == 'read_none' and ev[-1].t + idle < stop_t - EPS:
            return [('pace', f'no data at t={ev[-1].t}, not read again until t={stop_t}')]
    if have['close'] and have['open']:
        m = stream.unexplained_end(w)
        if m:
            return [('stream-died', m)]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """the read function was called and the body or reading ended in some way"""
    return any(e.kind == 'read_call' for e in w.events)
