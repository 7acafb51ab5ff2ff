"""C12 a waiting consumer is served within one poll interval, without spinning."""
from dst import gen, lin, stream

ID = 'C12'
EPS = 1e-6


def make(rng, tier):
    n = rng.choice([0, 1, 2, 4, 8])
    P = rng.choice([0.02, 0.05, 0.1, 0.1, 0.37, 1, 2.5, 7])
    polls = [P, round(P / 2, 5), 2 * P]
    scale = P * rng.choice([0.3, 1, 1, 3])

    def d():
        return round(rng.choice([0, scale, scale / 2, scale * rng.random() * 2]), 5)
    sc = []
    for k in gen.keys(rng, n):
        while rng.random() < 0.2:
            sc.append(['n', 0])
        sc.append(['i', k, d()])
    if rng.random() < 0.3:
        sc.append(['x', rng.choice(['InjectedError', 'OSError', 'StopIteration']), d()])
    sess = {'script': sc}
    plan = {'src': gen.src(rng, [sess], idle=rng.choice([0.02, 0.3, round(P / 3, 5)])),
            'buf': {'maxlen': rng.choice([1, 2, 10, 100])},
            'sched': gen.sched(rng, timing=True, eps=0.0)}
    cl = []
    for c in range(rng.randint(1, 3)):
        p = rng.choice([P, P, None if P < 2 else P, rng.choice(polls)])
        rd = f'r{c}'
        mode = rng.choice(['iter', 'iter', 'blocking'] + (['sbiter'] if P < 2 else []))
        ops = []
        if rng.random() < 0.3:
            ops.append(['sleep', d()])
        th = rng.choice([0, 0, d()])
        if mode == 'sbiter':
            ops.append(['sbiter', rd, None, th])
        else:
            kw = {'read_size': rng.choice([2, 3])} if rng.random() < 0.2 else {}
            if rng.random() < 0.1:
                kw['strict_n'] = False
            ops.append(['mk', rd, kw, p])
            if rng.random() < 0.1 and p:
                p2 = rng.choice(polls)
                ops += [['set_poll', rd, p2]]
            if mode == 'iter':
                ops.append(['iter', rd, None, th])
            else:
                ops.append(['loop', rd, 'blocking', {'n': rng.choice([1, 1, 2, 4]), 'think': th}])
        cl.append({'name': f'c{c}', 'ops': ops, 'finite': False})
    if rng.random() < 0.35:  # intervals are changed while their readers wait
        ops = []
        for _ in range(rng.randint(1, 4)):
            ops += [['sleep', d()], ['set_poll', f'r{rng.randrange(len(cl))}', rng.choice(polls + [None])]]
        cl.append({'name': 'tuner', 'ops': ops})
    plan['clients'] = cl
    plan['horizon'] = round(sum(e[-1] for e in sc) * rng.choice([0.5, 1, 1.3]) + P * rng.choice([0, 0.5, 1, 3.3]), 5)
    return plan


def polls_of(w, plan):
    """Reader -> [(inv, ret, t0, t1, poll interval set in between)]."""
    out = {}
    for c in plan['clients']:
        for o in c['ops']:
            if o[0] == 'mk':
                out[o[1]] = [(-2, -1, -1.0, -1.0, o[3] if len(o) > 3 and o[3] is not None else 0.1)]
            elif o[0] == 'sbiter':
                out[o[1]] = [(-2, -1, -1.0, -1.0, 0.1)]
    for r in w.recs:
        if r.kind == 'set_poll':
            done = r.ret is not None
            out[r.reader].append((r.inv, r.ret if done else float('inf'), r.t0, r.t1 if done else float('inf'),
                                  0.1 if r.args[0] is None else r.args[0]))
    return out


def in_effect(ps, t0, t1):
    """The poll intervals possibly in effect at some time between t0 and t1: set by then, and not by
    an earlier call than another one that had returned before t0 (of overlapping calls either wins)."""
    return [p[4] for p in ps
            if p[2] <= t1 + EPS and not any(q[0] > p[1] and q[3] < t0 - EPS for q in ps)]


def run(sim, plan):
    return stream.run_stream(sim, plan)


def check(w, plan):
    m = stream.unexplained_end(w)
    if m:
        return [('stream-died', m)]
    P = polls_of(w, plan)
    stored = []  # (key, time)
    for uid, key, seq, t, nseq, nkind in w.produced(0):
        if nkind != 'key_fail':
            stored.append((key, t))
    lo, hi = lin.session_stop(w, 0)
    t_stop = min([r.t0 for r in w.recs if r.kind == 'stop']
                 + [e.t for e in w.events if e.kind in ('read_fail', 'key_fail')])
    cur = {}
    for r in w.recs:
        rd = r.reader
        if rd not in P or r.kind not in ('iter', 'read') or r.ret is None:
            continue
        took = r.t1 - r.t0
        p = min(in_effect(P[rd], r.t0, r.t1))
        if r.timed > 1.25 * took / p + 3:
            return [('spinning', f'woke up {r.timed} times in {took:.3f} s with a poll interval of {p}: {r!r}')]
        p = max(in_effect(P[rd], r.t0, r.t1))
        ck = cur.get(rd)
        avail = [t for k, t in stored if (ck is None or k > ck) and t <= r.t1 + EPS]
        out = r.out
        got = out[0] == 'ok' and out[1] is not None
        if got:
            v = out[1][-1] if isinstance(out[1], list) else out[1]
            if v in w.items:
                cur[rd] = w.items[v][1]
        due = min(avail) if got and avail else min(avail + [t_stop], default=None)
        # an item is due one interval after it was stored, the end one after both stop and call
        if r.t1 > (max(r.t0, due + p) if got and avail else max(r.t0, due) + p) + EPS:
            what = 'the next item' if got else 'the end'
            return [('late', f'obtained {what} at t={r.t1:.6f}, {r.t1 - max(r.t0, due):.6f} s after it was there '
                     f'and {r.t1 - r.t0:.6f} s after the call, with a poll interval of {p}: {r!r}')]
    r = stream.bad_errors(w)
    if r is not None:
        return [('undocumented-error', repr(r))]
    m = lin.check(w, stream.dflts(plan, w))
    if m:
        return [('wrong-items', m)]
    return []


def nontrivial(w, plan):
    """a consumer had to wait for an item or the end"""
    return any(r.kind in ('iter', 'read') and r.t1 is not None and r.t1 > r.t0 for r in w.recs)
