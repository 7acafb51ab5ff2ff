"""The usual shape of a run: a stream, clients, an end."""
import json

from dst import gen
from dst.world import World


def run_stream(sim, plan, strict=False, extra=None, cls=None):
    w = (cls or World)(sim, plan, strict)
    w.mk_buffer()
    for op in plan.get('pre', [['start']]):
        w.do(op)
    for c in plan.get('clients', []):
        w.spawn(c)
    for c in plan.get('clients', []):
        if c.get('finite', True):
            w.threads[c['name']].join()
    if plan.get('horizon'):
        sim.sleep(plan['horizon'], 'horizon')
    w.mark_end_inv = sim.seq
    for op in plan.get('post', [['stop']]):
        w.do(op)
    for c in plan.get('clients', []):
        w.threads[c['name']].join()
    if plan.get('settle'):
        sim.settle(plan['settle'])
    for op in plan.get('final', []):
        w.do(op)
    if extra:
        extra(w)
    return w


def dflts(plan, w):
    """Reader name -> keyword arguments it was made with."""
    return {r.args[0]: r.args[1] for r in w.recs if r.kind == 'mk' and r.out[0] == 'ok'}


def bad_errors(w, kinds=None):
    """Reader calls that raised something no documentation mentions."""
    from dst.lin import OK_ERRORS, READ_KINDS
    for r in w.recs:
        if r.kind in READ_KINDS and r.out and r.out[0] == 'exc' and r.out[1] not in OK_ERRORS \
                and r.out[1] not in ('StopIteration', 'InjectedError'):
            return r
    return None


def delivered(w, rname):
    """uids a reader obtained by non-peeking, cursor-following calls, with their ops."""
    out = []
    for r in w.recs:
        if r.reader == rname and r.kind in ('next', 'nextd', 'iter', 'read', 'oldnext') \
                and r.out and r.out[0] == 'ok' and r.out[1] is not None and r.out[1] != 'END':
            a = r.args if isinstance(r.args, dict) else {}
            if a.get('peek'):
                continue
            v = r.out[1]
            for u in (v if isinstance(v, list) else [v]):
                out.append((u, r))
    return out


def unexplained_end(w):
    """A session whose source was closed, or whose start failed, although nothing stopped it and
    nothing failed."""
    from dst.lin import session_stop, INF
    for r in w.recs:
        if r.kind == 'start' and r.out and r.out[0] == 'exc' and r.out[1] in (
                'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'AssertionError', 'KeyError', 'IndexError'):
            if r.out[1] not in json.dumps(w.plan):
                return f'{r!r} although nothing failed'
    for s in sorted({e.sess for e in w.events}):
        close = [e.seq for e in w.events if e.sess == s and e.kind == 'close_call']
        if not close:
            continue
        lo, hi = session_stop(w, s)
        if lo is None or lo >= close[0]:
            d = [t for t in w.sim.tasks if t.name.startswith('lib') and t.exc is not None]
            return (f'session {s} ended by itself although nothing stopped it and the source did '
                    f'not fail' + (f' ({d[0].exc!r})' if d else ''))
    return None


def client_crashes(w):
    return None


def bulk_plan(rng, auto_drop):
    """Many more items than any run of the other kind, and what is in the window in the end."""
    n = rng.choice([1100, 4200, 10100, 10500])
    ml = rng.choice([None, None, n - 50, n + 1, 3 * n] if auto_drop else [None, None, n, n + 1, 3 * n])
    return {'bulk': n, 'src': dict(gen.src(rng, [{'script': [], 'bulk': n}]), key=rng.choice(['int', 'tuple']),
                                   keypoint=False, falsysrc=False),
            'buf': {'maxlen': ml, 'auto_drop': auto_drop}, 'sched': {'mode': 'rand', 'p_line': 0.0, 'p_sync': 0.0,
                                                                      'eps': 0.0},
            'clients': [], 'horizon': 1, 'pre': [['start'], ['mk', 'z', {}]],
            'final': [['range', 'z', {'start': -1, 'stop': n, 'peek': True}], ['read', 'z', {'n': 2 * n}],
                      ['read', 'z', {'ignore_no_item_found': True}]]}


def run_bulk(sim, plan):
    sim.stuck_max = sim.stuck_at = sim.max_points = 4000000
    return run_stream(sim, plan)


def check_bulk(w, plan):
    n, ml = plan['bulk'], plan['buf']['maxlen']
    got = sum(1 for e in w.events if e.kind == 'read_item')
    if got != n:
        return f'{got} of {n} items were read with a window of {ml}'
    want = [f'0.{i}' for i in range(n)]
    if ml is not None:
        want = want[-ml:]
    outs = [r.out for r in w.recs if r.kind in ('range', 'read')]
    for what, out in zip(('range', 'read'), outs):
        if out != ('ok', want):
            v = out[1] if out[0] == 'ok' else None
            return (f'{what} of all of a window of {ml} after {n} items: '
                    + (f'{len(v)} items from {v[0]} to {v[-1]}' if isinstance(v, list) and v else repr(out)[:200])
                    + f' instead of {len(want)} from {want[0]} to {want[-1]}')
    if outs[2] != ('ok', None):
        return f'a read after all was read: {outs[2]}'
    return None
