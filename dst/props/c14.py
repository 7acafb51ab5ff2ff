"""C14 a shared source is open exactly while somebody has a reader on it."""
from dst import gen, lin, stream

ID = 'C14'


def make(rng, tier):
    faults = rng.choice([0, 0.25, 0.5])
    sessions = []
    quick = rng.random() < 0.7
    for s in range(rng.randint(1, 4)):
        n = rng.choice([1, 2, 5, 12])
        se = {'script': gen.script(rng, n, rng.choice([(0,), (0, 0.05), (0.1, 0.3)]), rng.choice([0, 0.2]),
                                   (0, 0.1))}
        if rng.random() < 0.3:
            se['open'] = {'d': rng.choice([0.05, 0.4])}
        if rng.random() < 0.3:
            se['close'] = {'d': rng.choice([0.05, 0.3])}
        if not quick and rng.random() < 0.4:
            se['tail'] = ['n', rng.choice([0.8, 2.2])]
        if rng.random() < faults:
            k = rng.choice(['open', 'info', 'read', 'read', 'key'])
            x = rng.choice(['InjectedError', 'FalsyError', 'OSError', 'KeyboardInterrupt', 'ValueError'])
            if k == 'open':
                se['open'] = {'x': x, 'd': rng.choice([0, 0.1])}
            elif k == 'info':
                se['info'] = {'x': x}
            elif k == 'read':
                se['script'].append(['x', x, rng.choice([0, 0.1])])
            else:
                se['keyfail'] = rng.randint(1, n)
        sessions.append(se)
    sessions.append({'script': gen.script(rng, 3, (0, 0.1))})
    plan = {'src': gen.src(rng, sessions, style='ss'), 'sched': gen.sched(rng), 'quick': quick,
            'buf': {'maxlen': 100}}
    if rng.random() < 0.3:
        plan['src']['no_super_init'] = True
    if rng.random() < 0.5:
        plan['buf'] = {'maxlen': gen.maxlen(rng)}
        plan['configure'] = True
        if rng.random() < 0.5:
            plan['buf']['sleep_time_on_read_none_s'] = rng.choice([0.05, 0.5])
    if faults and rng.random() < 0.2:
        plan['fail_thread_starts'] = [rng.randint(1, 3)]
    cl = []
    for c in range(rng.randint(1, 4)):
        ops = []
        for k in range(rng.randint(1, 3)):
            rd = f'r{c}.{k}'
            kw = {}
            if rng.random() < 0.3:
                kw['read_size'] = rng.choice([2, 3])
            if rng.random() < 0.5:
                kw['ignore_no_item_found'] = True
            if rng.random() < 0.2:
                kw['strict_n'] = True
            if rng.random() < 0.4:
                ops.append(['sleep', rng.choice([0.01, 0.1, 0.5, 1.2])])
            ops.append(['openr', rd, kw])
            for _ in range(rng.randint(0, 4)):
                ops.append(rng.choice([['read', rd, {}], ['next', rd], ['loop', rd, 'next', {'poll': 0.1, 'limit': 2, 'tries': 3}],
                                       ['sleep', rng.choice([0.05, 0.3])], ['info', rd]]))
            if rng.random() < 0.25:
                ops.append(['closer2', rd, 'close', rng.choice(['close', 'exit'])])
            else:
                ops.append(['closer', rd, rng.choice(['close', 'close', 'exit', '__exit__'])])
            if rng.random() < 0.3:
                ops.append(['closer', rd, 'close'])
            if k and rng.random() < 0.2:
                ops.append(['closer', f'r{c}.{k-1}', 'close'])
            if rng.random() < 0.3:
                ops += [['sleep', rng.choice([0, 0.2])], ['read', rd, {'ignore_no_item_found': True}]]
        cl.append({'name': f'c{c}', 'ops': ops, 'finite': True})
    plan['clients'] = cl
    return plan


class World(stream.World):
    closed_checks = ()

    def do(self, op):
        if op[0] == 'openr':
            kw = op[2]
            r = self.call('mk', (op[1], kw), lambda: self.source.open_reader(**kw), canon=False)
            if r.out[0] == 'ok':
                rd = r.out[1]
                r.out = ('ok', None)
                self.add_reader(op[1], rd)
                r.sess = self.rmeta[op[1]]
                r.reader = op[1]
            else:
                self.raises.append(r)
            return r
        if op[0] == 'closer':
            rd = self.readers.get(op[1])
            if rd is None:
                return None
            f = {'close': rd.close, 'exit': rd.exit,
                 '__exit__': lambda: rd.__exit__(None, None, None)}[op[2]]
            r = self.call('rclose', (op[2],), f, op[1], canon=False)
            self.states.append((r, self.core.state))
            return r
        if op[0] == 'closer2':  # closed by two threads at the same time
            if op[1] not in self.readers:
                return None
            t = self.sim.spawn(lambda: self.do(['closer', op[1], op[3]]), f'closer-{op[1]}')
            r = self.do(['closer', op[1], op[2]])
            t.join()
            return r
        return super().do(op)


def run(sim, plan):
    w = World(sim, plan, strict=True)
    w.states, w.raises = [], []
    if plan.get('configure'):
        w.source.configure_buffer(**plan['buf'])
    for c in plan['clients']:
        w.spawn(c)
    for t in w.threads.values():
        t.join()
    sim.settle(6)
    w.end_state = w.core.state
    w.fails = dict(sim.faults)
    # and the source can be opened again
    sim.fail_thread_starts = ()
    for k in range(6):
        r = w.do(['openr', 'last', {}])
        if r.out[0] == 'ok':
            break
    w.late = None
    if r.out[0] == 'ok':  # too late for that
        w.late = w.call('configure', (), lambda: w.source.configure_buffer(maxlen=1), canon=False)
    w.do(['read', 'last', {'blocking': True}])
    w.do(['closer', 'last', 'close'])
    sim.settle(6)
    return w


def check(w, plan):
    if w.late is not None and w.late.out[:2] != ('exc', 'ValueError'):
        return [('configured-late', f'the buffer was configured while a reader was open: {w.late!r}')]
    # per reader: opened, closed
    life = {}
    for r in w.recs:
        if r.kind == 'mk' and r.out[0] == 'ok':
            life[r.args[0]] = [r, None]
        elif r.kind == 'rclose':
            if r.out[0] != 'ok':
                return [('close-raised', repr(r))]
            if r.reader in life and life[r.reader][1] is None:
                life[r.reader][1] = r
    def closing_calls(name):
        """The first close of a reader and those that overlap it."""
        b = life[name][1]
        return [] if b is None else [q for q in w.recs if q.kind == 'rclose' and q.reader == name and q.inv <= b.ret]
    opened = {e.sess: e for e in w.events if e.kind == 'open_ret'}
    closing = {e.sess: e for e in w.events if e.kind == 'close_call'}
    failed = {e.sess: e for e in w.events if e.kind in ('read_fail', 'key_fail', 'info_fail', 'keyget_fail', 'open_fail')}
    for r in w.raises:
        f = [e for e in w.events if e.kind in ('open_fail', 'info_fail', 'keyget_fail') and r.inv < e.seq < r.ret]
        threads = "can't start new thread" in r.out[2] and 'thread_start_failure' in w.sim.faults
        if not f and not threads:
            return [('open-raised', f'opening a reader raised though opening the source did not fail: {r!r}')]
        if not threads and not any(r.extra is w.exc_of[e.seq] for e in f):
            return [('error-changed', f'{r!r} instead of {f[-1].data}')]
    for name, (a, b) in sorted(life.items()):
        s = w.rmeta[name]
        if s not in opened or opened[s].seq > a.ret:
            return [('not-open', f'reader {name} was handed out before its source was open: {a!r}')]
        if s in closing and closing[s].seq < a.inv:
            return [('stale', f'reader {name} was opened on session {s}, which had been closed: {a!r}')]
        if s not in failed and s in closing and (b is None or closing[s].seq < b.inv):
            return [('closed-early', f'the source was closed (t={closing[s].t}) while reader {name} was open')]
        if s in failed and s in closing and closing[s].seq < failed[s].seq and (b is None or closing[s].seq < b.inv):
            return [('closed-early', f'the source was closed (t={closing[s].t}) while reader {name} was open')]
        for other, (c, d) in sorted(life.items()):
            if other != name and a.ret < c.inv and (b is None or c.ret < b.inv) and s not in failed \
                    and w.rmeta[other] != s:
                return [('not-shared', f'reader {other} was opened on session {w.rmeta[other]} while '
                         f'{name} had session {s} open')]
    # the last close
    if w.end_state != 'closed':
        return [('left-open', 'the source is still open 5 s after the last reader was closed')]
    if plan['quick'] and not plan['sched'].get('p_stall') and not plan['sched'].get('eps'):
        for r, state in w.states:
            busy = False
            own = closing_calls(r.reader)
            # of several closes at the same time, the one that returned last
            first = r in own and r.ret == max(q.ret for q in own)
            begun = min([q.inv for q in own], default=r.inv)
            for name, (a, b) in life.items():
                if name != r.reader and a.inv < r.ret and (b is None or max(
                        q.ret for q in closing_calls(name)) > begun):
                    busy = True
            for q in w.recs:
                if q.kind == 'mk' and q.out[0] != 'ok' and q.inv < r.ret and q.ret > begun:
                    busy = True
            if first and not busy and state != 'closed':
                return [('left-open', f'the last reader was closed but the source was not: {r!r}')]
    if w.core.state != 'closed':
        return [('left-open', 'the source is still open 5 s after the last reader was closed')]
    last = [r for r in w.recs if r.reader == 'last' and r.kind == 'read']
    if not last or (w.rmeta['last'] not in failed and (last[-1].out[0] != 'ok' or last[-1].out[1] is None)):
        return [('spoilt', f'a reader opened at the end got {last}')]
    m = stream.unexplained_end(w)
    if m:
        return [('closed-early', m)]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """two readers were open or being opened or closed at the same time, or the source was
    opened more than once"""
    mk = [r for r in w.recs if r.kind in ('mk', 'rclose')]
    return w.core.opens > 2 or any(a is not b and a.inv < b.inv < a.ret for a in mk for b in mk)
