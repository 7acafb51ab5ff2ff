"""Shared plan generators (swarm style: every run draws its own mix)."""
from dst.world import KEY_STYLES, ITEM_SHAPES


def sched(rng, timing=False, eps=None):
    """A scheduling configuration.  timing: no stalls and no creeping clock, so that
    virtual time is exact."""
    d = {'mode': 'rand'}
    x = rng.random()
    if x < 0.3:
        d['mode'] = 'pct'
    else:
        d['p_line'] = rng.choice([0.0, 0.003, 0.01, 0.03, 0.1, 0.3])
        d['p_sync'] = rng.choice([0.02, 0.1, 0.3, 0.6])
        if not timing and rng.random() < 0.3:
            d['p_stall'] = rng.choice([0.02, 0.1])
            d['stall_max'] = rng.choice([0.05, 0.5, 2.0])
    if not timing:
        d['eps'] = rng.choice([0.0, 0.0, 1e-6, 1e-4])
    if eps is not None:
        d['eps'] = eps
    return d


def keys(rng, n, start=None):
    k = rng.randint(0, 5) if start is None else start
    out = []
    for _ in range(n):
        out.append(k)
        k += rng.choice([1, 1, 1, 2, 3])
    return out


def script(rng, n, delays=(0,), p_none=0.0, none_delays=(0,), start=None):
    out = []
    for k in keys(rng, n, start):
        while rng.random() < p_none:
            out.append(['n', rng.choice(none_delays)])
        out.append(['i', k, rng.choice(delays)])
    return out


def src(rng, sessions, style=None, idle='default'):
    d = {'key': rng.choice(KEY_STYLES), 'item': rng.choice(ITEM_SHAPES),
         'style': style or rng.choice(['plain', 'plain', 'sr', 'ss']), 'sessions': sessions}
    if rng.random() < 0.3:
        d['keypoint'] = True
    if rng.random() < 0.3:
        d['stablekey'] = True
    elif rng.random() < 0.25:
        d['pkey'] = True
    if rng.random() < 0.15:
        d['falsysrc'] = True
    if idle == 'default':
        idle = rng.choice([None, 0.05, 0.3, 1])
    d['idle'] = idle
    return d


def maxlen(rng, none=True):
    return rng.choice([1, 2, 2, 3, 4, 6, 10, 100] + ([None] if none else []))


def range_kw(rng, kmax):
    a = rng.randint(-1, kmax)
    b = a + rng.choice([0, 1, 2, 5, 9, 30]) if rng.random() < 0.9 else a - 1
    kw = {'start': a, 'stop': b}
    for k, p in (('peek', .3), ('ignore_no_item_found', .6), ('only_new_items', .35),
                 ('start_le', .3), ('stop_ge', .2)):
        if rng.random() < p:
            kw[k] = True
    if rng.random() < 0.2:
        kw['step'] = rng.choice([1, 2, 3])
    return kw


def read_kw(rng, blocking=False):
    kw = {}
    if rng.random() < 0.5:
        kw['n'] = rng.choice([1, 1, 2, 3, 5])
    if rng.random() < 0.25:
        kw['peek'] = rng.random() < 0.7
    if rng.random() < 0.6:
        kw['ignore_no_item_found'] = rng.random() < 0.8
    if rng.random() < 0.25:
        kw['strict_n'] = rng.random() < 0.8
    if blocking:
        kw['blocking'] = True
    return kw


def think(rng, scale=1.0):
    return round(rng.choice([0.0, 0.001, 0.01, 0.05, 0.1, 0.25, 0.5]) * scale * rng.random() * 2, 4)


def reader_op(rng, name, kmax, mix):
    k = rng.choice(mix)
    if k == 'read':
        return ['read', name, read_kw(rng)]
    if k == 'next':
        return ['next', name]
    if k == 'nextd':
        return ['nextd', name]
    if k == 'oldnext':
        kw = read_kw(rng)
        return ['oldnext', name, kw]
    if k == 'head':
        return ['head', name, {'peek': True} if rng.random() < 0.4 else {}]
    if k == 'tail':
        kw = {}
        for a, p in (('peek', .4), ('ignore_no_item_found', .7), ('only_new_items', .5)):
            if rng.random() < p:
                kw[a] = True
        return ['tail', name, kw]
    if k == 'range':
        return ['range', name, range_kw(rng, kmax)]
    if k == 'delcur':
        return ['delcur', name]
    if k == 'sleep':
        return ['sleep', think(rng)]
    raise AssertionError(k)


def kmax(plan):
    ks = [e[1] for s in plan['src']['sessions'] for e in s.get('script', []) if e[0] == 'i']
    return max(ks, default=3)


def consumer(rng, name, poll=None, think=None, modes=('iter', 'sbiter', 'next', 'blocking', 'chunk', 'range'),
             mkkw=None, limit=None):
    """A client that consumes until the end (or a limit)."""
    poll = rng.choice([0.05, 0.1, 0.1, 0.37]) if poll is None else poll
    mode = rng.choice(modes)
    kw = dict(mkkw or {})
    ops = [['mk', name, kw, poll]]
    if think is None:
        think = rng.choice([0, 0, 0.003, 0.02, 0.11, 0.4])
    if mode == 'sbiter':
        ops = [['sbiter', name, limit, think]]
    elif mode == 'iter':
        ops.append(['iter', name, limit, think])
    else:
        a = {'poll': poll, 'think': think}
        if limit:
            a['limit'] = limit
        if mode in ('blocking', 'chunk'):
            a['n'] = rng.choice([1, 1, 2, 3, 7])
        ops.append(['loop', name, mode, a])
    return {'name': f'c_{name}', 'ops': ops, 'finite': False}
