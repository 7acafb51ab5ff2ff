"""C18 only a successful, non-peeking read moves a cursor."""
from dst import gen, lin, stream

ID = 'C18'
MIX = ['read', 'read', 'read', 'next', 'nextd', 'oldnext', 'head', 'tail', 'tail', 'range', 'range', 'delcur']


def make(rng, tier):
    sessions = []
    for s in range(rng.randint(1, 3)):
        n = rng.choice([1, 3, 6, 12])
        sessions.append({'script': gen.script(rng, n, rng.choice([(0,), (0, 0.05), (0.05, 0.2)]),
                                              rng.choice([0, 0.3]), (0, 0.05), start=rng.choice([0, 0, 3]))})
        if rng.random() < 0.15:
            sessions[-1]['script'].append(['x', 'OSError', 0.1])
    plan = {'src': gen.src(rng, sessions, idle=rng.choice([0.05, 0.3, None])),
            'buf': {'maxlen': gen.maxlen(rng)}, 'sched': gen.sched(rng)}
    exc = rng.choice([0, 0.3, 0.5])
    if exc and rng.random() < 0.5:
        plan['src']['key'] = 'sim'
    km = gen.kmax(plan)
    mix = rng.sample(MIX, rng.randint(3, len(MIX)))
    cl = []
    for c in range(rng.randint(1, 3)):
        ops = []
        rds = [f'r{c}.{k}' for k in range(rng.randint(1, 2))]
        for rd in rds:
            kw = {}
            if rng.random() < 0.5:
                kw['read_size'] = rng.choice([1, 2, 3, 5])
            for k, p in (('peek', 0.25), ('strict_n', 0.3), ('ignore_no_item_found', 0.5)):
                if rng.random() < p:
                    kw[k] = rng.random() < 0.85
            ops.append(['mk', rd, kw, 0.1])
            if rng.random() < 0.3:
                ops.append(['sleep', gen.think(rng)])
        for _ in range(rng.randint(3, 14)):
            rd = rng.choice(rds)
            if rng.random() < exc:
                ops.append([rng.choice(['keyfail', 'keyfail', 'cmpfail']), rng.choice([1, 1, 2, 3, 4])])
            x = rng.random()
            if x < 0.12:
                ops.append(['sleep', gen.think(rng)])
            elif x < 0.2:
                ops.append(['iter', rd, rng.choice([1, 2, 3]), gen.think(rng)])
            elif x < 0.25:
                kw = gen.read_kw(rng)
                kw['blocking'] = True
                ops.append(['read', rd, kw])
            elif x < 0.35:
                ops.append(['cur', rd])
            elif x < 0.4:
                ops.append(['setcur', rd])
            elif x < 0.43:
                ops.append(['attach', rd])
            else:
                op = gen.reader_op(rng, rd, km, mix)
                if op[0] == 'read' and rng.random() < 0.3:
                    op[2] = {}
                ops.append(op)
            if exc and rng.random() < 0.6:
                ops.append(['clearfail'])
        ops.append(['clearfail'])
        ops += [['cur', rd] for rd in rds]
        cl.append({'name': f'c{c}', 'ops': ops, 'finite': False})
    ctl = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        ctl += [['sleep', rng.choice([0.05, 0.3, 1])], [rng.choice(['stop', 'start', 'start'])]]
    if ctl:
        cl.append({'name': 'ctl', 'ops': ctl})
    plan['clients'] = cl
    plan['horizon'] = rng.choice([0.2, 1, 3])
    return plan


class World(stream.World):
    def do(self, op):
        if op[0] in ('cur', 'setcur'):
            rd = self.readers.get(op[1])
            if rd is None:
                return None
            if op[0] == 'cur':
                r = self.call('cur', (), lambda: None, op[1], canon=False)
            else:
                seen = [r.out[1] for r in self.recs if r.reader == op[1] and r.kind in ('head', 'tail')
                        and r.out and r.out[0] == 'ok' and r.out[1] in self.items]
                if not seen:
                    return None

                def f():
                    rd.last_item = self.items[seen[0]][0]
                r = self.call('setcur', (seen[0],), f, op[1], canon=False)
            r.cur = self.cursor(op[1])
            return r
        return super().do(op)


def run(sim, plan):
    return stream.run_stream(sim, plan, cls=World)


def check(w, plan):
    dflts = stream.dflts(plan, w)
    cur = {}
    for r in w.recs:
        if r.cur is None or r.ret is None:
            continue
        old = cur.get(r.reader, (None, None))
        new = old
        if r.kind == 'delcur':
            new = (None, None) if r.out[0] == 'ok' else old
        elif r.kind == 'setcur':
            if r.out[0] == 'ok':
                new = (w.items[r.args[0]][1], r.args[0])
        elif r.kind in lin.READ_KINDS:
            to = lin.moves(r.kind, lin.effective(r.kind, r.args, dflts.get(r.reader, {})), r.out)
            if to is not None and to in w.items:
                new = (w.items[to][1], to)
        if r.cur != new:
            return [('cursor', f'{r!r}: the cursor was {old} and is now {r.cur} instead of {new}')]
        cur[r.reader] = new
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, dflts)
    if m:
        return [('wrong-answer', m)]
    return []


def nontrivial(w, plan):
    """a cursor moved and later stayed where it was"""
    moved = False
    prev = {}
    for r in w.recs:
        if r.cur is not None:
            if r.cur != prev.get(r.reader, (None, None)):
                moved = True
            elif moved:
                return True
            prev[r.reader] = r.cur
    return False
