"""C21 a reader belongs to one fully opened session and carries its info."""
from dst import gen, lin, stream

ID = 'C21'
MIX = ['read', 'next', 'tail', 'head', 'range', 'read']


def make(rng, tier):
    ns = rng.randint(1, 4)
    faults = rng.choice([0, 0, 0.4])
    sessions = []
    for s in range(ns + 1):
        n = rng.choice([0, 1, 4, 8])
        se = {'script': gen.script(rng, n, rng.choice([(0,), (0, 0.05), (0.1,)]), rng.choice([0, 0.2]), (0, 0.1),
                                   start=rng.choice([0, 0, 4]))}
        if rng.random() < 0.6:
            se['open'] = {'d': rng.choice([0.05, 0.3, 1])}
        if rng.random() < 0.4:
            se['info'] = {'d': rng.choice([0.05, 0.3])}
        if rng.random() < 0.25:
            se['close'] = {'d': rng.choice([0.1, 1.5])}
        if rng.random() < 0.2:
            se['tail'] = ['n', rng.choice([0.2, 1.7])]
        if rng.random() < faults:
            k = rng.choice(['open', 'info', 'read', 'key'])
            x = rng.choice(['InjectedError', 'FalsyError', 'OSError', 'KeyboardInterrupt'])
            if k in ('open', 'info'):
                se.setdefault(k, {})['x'] = x
            elif k == 'read':
                se['script'].append(['x', x, 0.05])
            else:
                se['keyfail'] = rng.randint(1, max(n, 1))
        sessions.append(se)
    plan = {'src': gen.src(rng, sessions), 'buf': {'maxlen': rng.choice([1, 2, 5, 100, None])},
            'sched': gen.sched(rng)}
    if rng.random() < 0.3:
        plan['src']['rcls'] = True
    if faults and rng.random() < 0.2:
        plan['fail_thread_starts'] = [rng.randint(1, 3)]
    km = gen.kmax(plan)
    cl = []
    nctl = rng.choice([1, 1, 1, 2])
    for c in range(nctl):
        ops = [['sleep', rng.choice([0, 0.01, 0.1, 0.5])]]
        for s in range(ns if nctl == 1 else rng.randint(1, 2)):
            ops += [['start'], ['sleep', rng.choice([0, 0.02, 0.15, 0.6])]]
            if rng.random() < 0.4:
                ops.insert(rng.randint(len(ops) - 1, len(ops)), ['sbinfo'])
            if rng.random() < 0.5:
                ops += [['stop'], ['sleep', rng.choice([0, 0.3])]]
        cl.append({'name': f'ctl{c}', 'ops': ops})
    for c in range(rng.randint(1, 4)):
        ops = []
        rds = []
        for _ in range(rng.randint(3, 12)):
            x = rng.random()
            if x < 0.3 or not rds:
                rd = f'r{c}.{len(rds)}'
                kw = {}
                if rng.random() < 0.3:
                    kw['ignore_no_item_found'] = True
                ops.append(['mk', rd, kw, 0.1])
                rds.append(rd)
            elif x < 0.45:
                ops.append(['sleep', rng.choice([0, 0.01, 0.05, 0.2, 0.5, 1])])
            elif x < 0.55:
                ops.append(['info', rng.choice(rds)])
            elif x < 0.6:
                ops.append(['sbinfo'])
            elif x < 0.7:
                ops.append(['attach', rng.choice(rds)])
                if rng.random() < 0.5:
                    ops.append(['info', ops[-1][1]])
            elif x < 0.78:
                ops.append(['is_stopped', rng.choice(rds)])
            elif x < 0.84:
                ops.append(['same', rng.choice(rds), rng.choice(rds)])
            else:
                ops.append(gen.reader_op(rng, rng.choice(rds), km, MIX))
        ops += [['sleep', rng.choice([0, 2, 4])]]
        for rd in rds:
            ops += [['info', rd], ['is_stopped', rd], ['read', rd, {'ignore_no_item_found': True}]]
        cl.append({'name': f'c{c}', 'ops': ops})
    if rng.random() < 0.15:
        # one asks for the stream's info over and over while it restarts
        plan['sched']['p_line'] = rng.choice([0.1, 0.3, 0.5])
        for c in cl:
            c['ops'] = [o for o in c['ops'] if o[0] != 'sleep' or o[1] > 0.05 or rng.random() < 0.3]
        cl.append({'name': 'asks', 'ops': [['sleep', rng.choice([0, 0.01, 0.1])]] + [['sbinfo'] if rng.random() < 0.8 else ['sleep', 0.1]
                                                                              for _ in range(40)]})
    plan['clients'] = cl
    return plan


class World(stream.World):
    def do(self, op):
        if op[0] == 'same':
            a, b = self.readers.get(op[1]), self.readers.get(op[2])
            if a is None or b is None:
                return None
            r = self.call('same', (op[1], op[2]), lambda: a.is_same_buffer(b), canon=False)
            r.extra = self.rmeta[op[1]] == self.rmeta[op[2]]
            return r
        if op[0] == 'sbinfo':
            r = self.call('sbinfo', (), lambda: self.sb.source_reader_info, canon=False)
            if r.out[0] == 'ok' and r.out[1] is not None:
                r.out = ('ok', dict(r.out[1]))
            return r
        if op[0] == 'stop' and not any(e.kind == 'open_call' for e in self.events):  # never started
            return None
        r = super().do(op)
        if op[0] == 'attach' and r is not None and r.out[0] == 'ok':
            r.sess = self.rmeta[op[1]]
        if op[0] == 'info' and r is not None and r.out[0] == 'ok':
            r.out = ('ok', dict(r.out[1]))
        if op[0] in ('mk', 'attach') and r is not None and r.out[0] == 'ok':
            rd = self.readers[op[1]]
            r.extra = dict(rd.source_reader_info)
            want = getattr(self.source, 'buffer_reader_class', self.sp.BufferReader)
            if op[0] == 'mk' and type(rd) is not want:
                self.sim.violate('reader-class', f'a {type(rd).__name__} was made, the source asks for {want.__name__}')
        return r


def run(sim, plan):
    w = World(sim, plan, strict=True)
    w.mk_buffer()
    w.do(['sbinfo'])
    w.do(['mk', 'early', {}])
    for c in plan['clients']:
        w.spawn(c)
    for t in list(w.threads.values()):
        t.join()
    if w.core.opens:
        w.do(['stop'])
    sim.settle(6)
    for rd in sorted(w.readers):
        w.do(['info', rd])
        w.do(['is_stopped', rd])
        w.do(['range', rd, {'start': -9, 'stop': 100000, 'peek': True, 'ignore_no_item_found': True}])
    return w


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    opened = {e.sess: e for e in w.events if e.kind == 'open_ret'}
    calling = {e.sess: e for e in w.events if e.kind == 'open_call'}
    starts = [r for r in w.recs if r.kind == 'start']
    owner = {s: lin.own_start(w, s) for s in calling}
    for r in w.recs:
        if r.kind not in ('mk', 'attach') or r.out is None:
            continue
        if r.out[0] == 'ok':
            s = r.sess
            if s not in opened or opened[s].seq > r.ret:
                return [('not-open', f'{r!r}: a reader of session {s}, which was not open yet')]
            if r.extra not in w.infos.get(s, []):
                return [('info', f'{r!r} reports {r.extra}; the source gave {w.infos}')]
            for t, o in owner.items():
                if t > s and o is not None and o.out and o.out[0] == 'ok' and o.ret < r.inv:
                    return [('stale-session', f'{r!r}: a reader of session {s} though session {t} had started')]
            o = owner.get(s)
            if o is not None and o.out and o.out[0] != 'ok' and o.ret < r.inv:
                return [('failed-session', f'{r!r}: a reader of session {s}, whose start had failed')]
        elif r.out[1] != 'StreamNotStartedError':
            return [('undocumented-error', repr(r))]
        else:
            for t, o in owner.items():
                if o is None or not o.out or o.out[0] != 'ok' or calling[t].seq > r.inv:
                    continue
                if not any(f.out and f.out[0] != 'ok' and f.ret > calling[t].seq and f.inv < r.ret for f in starts):
                    return [('refused', f'{r!r} though the start of session {t} was in progress or complete')]
    # what the stream itself reports
    for r in w.recs:
        if r.kind != 'sbinfo':
            continue
        if r.out[0] != 'ok':
            return [('undocumented-error', repr(r))]
        if r.out[1] is None:
            for s, o in owner.items():
                if o is not None and o.out and o.out[0] == 'ok' and o.ret < r.inv and not any(
                        f is not o and f.inv < r.ret and (f.ret is None or f.ret > o.inv) for f in starts):
                    return [('no-info', f'{r!r} though session {s} had started, with {w.infos.get(s)}')]
        elif not any(r.out[1] in i for i in w.infos.values()):
            return [('info', f'{r!r}; the source gave {w.infos}')]
        else:
            s = r.out[1]['session']
            for t, o in owner.items():
                if t > s and o is not None and o.out and o.out[0] == 'ok' and o.ret < r.inv:
                    return [('stale-session', f'{r!r} though session {t} had started')]
    early = [r for r in w.recs if r.kind == 'mk' and r.ret < min((e.seq for e in calling.values()), default=1 << 60)]
    for r in early:
        if r.out[0] == 'ok':
            return [('before-start', repr(r))]
    # what a reader reports stays the same, and is the same for all readers of a session
    info, cur = {}, {}
    for r in w.recs:
        if r.out is None or r.out[0] != 'ok':
            continue
        if r.kind in ('mk', 'attach'):
            cur[r.reader] = r.extra
            s = r.extra['session']
            if info.setdefault(s, r.extra) != r.extra:
                return [('info-differs', f'session {s}: {r.extra} and {info[s]}')]
        elif r.kind == 'info' and r.reader in cur and r.out[1] != cur[r.reader]:
            return [('info-changed', f'{r!r}: was {cur[r.reader]}')]
        elif r.kind == 'same' and r.out[1] is not r.extra:
            return [('same-buffer', f'{r!r} but the readers are of {"the same session" if r.extra else "different sessions"}')]
    for r in w.recs:
        if r.kind == 'is_stopped' and r.out[0] == 'ok' and r.sess is not None:
            lo, hi = lin.session_stop(w, r.sess)
            if r.out[1] and (lo is None or lo > r.ret):
                return [('stop-state', f'{r!r} though session {r.sess} was running')]
            if not r.out[1] and hi is not None and hi < r.inv:
                return [('stop-state', f'{r!r} though session {r.sess} had ended')]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """a reader was made or attached while a start was in progress on another thread"""
    starts = [r for r in w.recs if r.kind == 'start']
    return any(r.kind in ('mk', 'attach') and r.task != s.task and s.inv < r.ret and r.inv < s.ret
               for r in w.recs for s in starts if r.ret and s.ret)
