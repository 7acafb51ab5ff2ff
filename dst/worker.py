"""Worker process: executes simulated runs of one property and reports JSON lines."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True

from dst import sim as S  # noqa

S.install(REPO)
sys.path.insert(0, REPO)
from dst import engine  # noqa
import stream2py  # noqa  (every module up front: imports are not part of a run)
import stream2py.simply, stream2py.util, stream2py.sources.http, stream2py.exceptions  # noqa
import codecs
for _e in ('idna', 'utf-8', 'utf-16', 'utf-16-le', 'utf-8-sig', 'latin-1', 'shift_jis', 'ascii'):
    codecs.lookup(_e)
import _pyio  # noqa
from dst import modstate  # noqa

modstate.load_copy()
modstate.snapshot()

assert stream2py.__file__.startswith(REPO.rstrip('/') + '/'), stream2py.__file__

clock = S.REAL.monotonic


def emit(obj):
    sys.stdout.write(json.dumps(obj) + '\n')
    sys.stdout.flush()


def explore(pid, tier, seed, k, nw, runs, cap):
    prop = engine.load_prop(pid)
    t0 = clock()
    agg = dict(runs=0, points=0, simtime=0.0, switches=0, faults={}, probes={}, leaked=0,
               nontrivial=0)
    pairs, sigs, plans = set(), set(), set()
    samples = []
    for i in range(k, runs, nw):
        if clock() - t0 > cap:
            agg['capped'] = True
            break
        plan, r = engine.run_index(prop, seed, i, tier)
        engine.tidy()
        agg['runs'] += 1
        agg['points'] += r.points
        agg['simtime'] += r.now
        agg['switches'] += r.switches
        agg['leaked'] += r.leaked
        for d, s in ((agg['faults'], r.faults), (agg['probes'], r.probes)):
            for a, b in s.items():
                d[a] = d.get(a, 0) + b
        if r.nontrivial:
            agg['nontrivial'] += 1
            sigs.add(r.sig + r.hist + str(hash_plan(plan)))
        if len(pairs) < 20000:
            pairs |= r.pairs
        if len(samples) < 1 and r.nontrivial:
            samples.append(dict(run=i, plan=plan, switches=r.switches, points=r.points,
                                deviations=len(r.deviations), simulated_s=round(r.now, 6)))
        if r.violation:
            emit(dict(kind='violation', run=i, plan=plan, cls=r.violation[0],
                      msg=r.violation[1], deviations=r.deviations,
                      seed=engine.subseed('sched', prop.ID, seed, i)))
            break
        if r.leaked:
            emit(dict(kind='leak', run=i))
    agg['wall'] = clock() - t0
    emit(dict(kind='done', agg=agg, sigs=len(sigs), siglist=sorted(sigs),
              pairs=sorted(map(repr, pairs)), samples=samples))


def hash_plan(plan):
    return engine.subseed(json.dumps({k: v for k, v in plan.items() if k != 'sched'},
                                     sort_keys=True))


def minimise(pid, budget):
    prop = engine.load_prop(pid)
    v = json.load(sys.stdin)
    dev = [tuple(d) for d in v['deviations']]
    plan, dev, r = engine.minimise(prop, v['plan'], v['seed'], dev, v['cls'],
                                   clock() + budget)
    if r is None:
        emit(dict(kind='not-reproduced'))
        return
    emit(dict(kind='min', plan=plan, deviations=dev, cls=r.violation[0], msg=r.violation[1]))


def replay(pid, path, trace):
    prop = engine.load_prop(pid)
    v = json.load(open(path))
    r = engine.execute(prop, v['plan'], 0, [tuple(d) for d in v['deviations']], True)
    if trace and r.trace:
        for line in r.trace:
            print('   ', line)
    emit(dict(kind='replayed', violation=r.violation, points=r.points, now=r.now, sig=r.sig,
              trace=r.trace[-4000:] if not trace else None))


def logs(pid, tier, seed, idx):
    """Determinism self-test: full event logs of the given run indices."""
    import hashlib
    import re

    def digest(lines):
        return hashlib.sha256(re.sub('0x[0-9a-f]+', '0x', '\n'.join(lines)).encode()).hexdigest()
    prop = engine.load_prop(pid)
    for i in idx:
        plan, r = engine.run_index(prop, seed, i, tier, trace=True)
        h = digest(r.trace)
        # and its replay from the recorded deviations
        engine.tidy()
        q = engine.execute(prop, plan, 0, r.deviations, True)
        hq = digest(q.trace)
        engine.tidy()
        emit(dict(kind='log', run=i, h=h, replay_same=(h == hq), points=r.points,
                  violation=r.violation))


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'explore':
        pid, tier, seed, k, nw, runs, cap = sys.argv[2:9]
        explore(pid, tier, int(seed), int(k), int(nw), int(runs), float(cap))
    elif cmd == 'minimise':
        minimise(sys.argv[2], float(sys.argv[3]))
    elif cmd == 'replay':
        replay(sys.argv[2], sys.argv[3], len(sys.argv) > 4)
    elif cmd == 'logs':
        logs(sys.argv[2], sys.argv[3], int(sys.argv[4]), [int(x) for x in sys.argv[5].split(',')])
    sys.stdout.flush()
    os._exit(0)
