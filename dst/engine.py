"""Runs one simulated execution of a property scenario; seeds; replay; minimisation."""
import copy
import gc
import hashlib
import importlib
import json
import random
import sys
import time as _t

from dst import sim as S
from dst import modstate
from dst.sim import Sim, SimAbort, HarnessError

_real_monotonic = S.REAL.monotonic


def load_prop(pid):
    return importlib.import_module('dst.props.' + pid.lower())


def subseed(*parts):
    h = hashlib.blake2b('/'.join(map(str, parts)).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big')


class Result:
    __slots__ = ('violation', 'deviations', 'points', 'now', 'faults', 'probes', 'pairs',
                 'sig', 'switches', 'trace', 'leaked', 'nontrivial', 'hist')

    def key(self):
        return (self.violation, self.points, round(self.now, 9), self.sig, self.hist)


def execute(prop, plan, seed=0, deviations=None, trace=False):
    """One run.  (plan, seed, code) or (plan, deviations, code) determine it."""
    plan = copy.deepcopy(plan)
    modstate.restore()
    sim = Sim(seed, plan.get('sched') or {}, deviations, plan.get('budget', 400000), trace)
    sim.wall_jumps = [tuple(j) for j in plan.get('jumps') or ()]
    sim.fail_thread_starts = tuple(plan.get('fail_thread_starts') or ())
    ctx = {}
    errors = []

    def root():
        v = prop.run(sim, plan)
        ctx['w'] = v
        for t, _ in sim.wall_jumps:
            if t <= sim.now:
                sim.fault('clock_jump')

    gc.disable()
    try:
        sim.run(root)
        r = Result()
        r.nontrivial = False
        r.hist = ''
        viol = sim.violation
        if viol is None:
            if 'w' not in ctx:
                raise HarnessError('scenario did not finish')
            got = prop.check(ctx['w'], plan)
            if got:
                viol = tuple(got[0])
        w = ctx.get('w')
        if viol is None or w is not None:
            nt = getattr(prop, 'nontrivial', None)
            r.nontrivial = bool(nt(w, plan)) if nt and w is not None else sim.switches > 2
            h = getattr(w, 'history_digest', None)
            if h:
                r.hist = h()
        r.violation = tuple(viol) if viol else None
        r.deviations = sim.deviations
        r.points, r.now = sim.n, sim.now
        r.faults, r.probes = sim.faults, sim.probes
        r.pairs, r.sig, r.switches = sim.pairs, sim.digest(), sim.switches
        r.trace = sim.trace
        r.leaked = sim.leaked
        for t in sim.tasks:
            t.thread = None
        sim.keep.clear()
        return r
    finally:
        from dst import world
        world.WORLD = None
        gc.enable()


_n_runs = 0


def tidy():
    global _n_runs
    _n_runs += 1
    if _n_runs == 1:
        gc.collect()
        gc.freeze()
    else:
        gc.collect()


def make_plan(prop, seed, i, tier):
    rng = random.Random(subseed('plan', prop.ID, seed, i))
    plan = prop.make(rng, tier)
    if 'jumps' not in plan and not getattr(prop, 'OWN_CLOCK', False):
        # the wall clock is set while the run is on: nothing may depend on it
        r = random.Random(subseed('jumps', prop.ID, seed, i))
        if r.random() < 0.2:
            plan['jumps'] = [[r.choice([0.0, 0.03, 0.2, 1.0, 2.5]), r.choice([-3600, -1, -0.01, 0.5, 100])]
                             for _ in range(r.choice([1, 1, 2]))]
    # a JSON round trip, so that a replayed plan is the same object
    return json.loads(json.dumps(plan))


def run_index(prop, seed, i, tier, trace=False):
    plan = make_plan(prop, seed, i, tier)
    return plan, execute(prop, plan, subseed('sched', prop.ID, seed, i), None, trace)


# ------------------------------------------------------------------ minimisation
def _lists(node, path=()):
    """Paths of all deletable lists in a plan."""
    out = []
    if isinstance(node, dict):
        for k, v in sorted(node.items()):
            if k in DELETABLE and isinstance(v, list) and v:
                out.append(path + (k,))
            if isinstance(v, (dict, list)):
                out += _lists(v, path + (k,))
    elif isinstance(node, list):
        for i, v in enumerate(node):
            if isinstance(v, (dict, list)):
                out += _lists(v, path + (i,))
    return out


DELETABLE = {'clients', 'ops', 'script', 'sessions', 'jumps', 'interrupts', 'segments',
             'steps', 'procs'}


def _get(node, path):
    for p in path:
        node = node[p]
    return node


def minimise(prop, plan, seed, deviations, cls, deadline, log=lambda *a: None):
    """Shrinks (plan, deviations) keeping a violation of the same class."""
    def run_dev(p, d):
        tidy()
        try:
            r = execute(prop, p, 0, d)
        except Exception:
            return None
        return r if r.violation and r.violation[0] == cls else None

    def run_any(p, d, k=8):
        """The same plan under the recorded deviations, none, or a few fresh seeds."""
        r = run_dev(p, d)
        if r:
            return r
        r = run_dev(p, [])
        if r:
            return r
        for j in range(k):
            if _real_monotonic() > deadline:
                return None
            tidy()
            try:
                r = execute(prop, p, subseed('min', seed, j))
            except Exception:
                return None
            if r.violation and r.violation[0] == cls:
                return r
        return None

    base = run_dev(plan, deviations)
    if base is None:
        return plan, deviations, None
    best_plan, best = plan, base

    changed = True
    while changed and _real_monotonic() < deadline:
        changed = False
        for path in sorted(_lists(best_plan), key=lambda p: (len(p), p)):
            try:
                cur = _get(best_plan, path)
            except (KeyError, IndexError):
                continue
            size = max(1, len(cur))
            while size >= 1 and _real_monotonic() < deadline:
                i = 0
                while i < len(_get(best_plan, path)) and _real_monotonic() < deadline:
                    cand = copy.deepcopy(best_plan)
                    lst = _get(cand, path)
                    del lst[i:i + size]
                    if not valid(prop, cand):
                        i += size
                        continue
                    r = run_any(cand, best.deviations)
                    if r:
                        best_plan, best = cand, r
                        changed = True
                    else:
                        i += size
                size //= 2
        # simplify scalars
        for path, val in simplifications(best_plan):
            if _real_monotonic() > deadline:
                break
            cand = copy.deepcopy(best_plan)
            try:
                node = _get(cand, path[:-1])
                if node[path[-1]] == val:
                    continue
                node[path[-1]] = val
            except (KeyError, IndexError, TypeError):
                continue
            if not valid(prop, cand):
                continue
            r = run_any(cand, best.deviations, 4)
            if r:
                best_plan, best = cand, r
                changed = True
    # deviations
    dev = [tuple(d) for d in best.deviations]
    r0 = run_dev(best_plan, [])
    if r0:
        dev, best = [], r0
    size = max(1, len(dev) // 2)
    while dev and size >= 1 and _real_monotonic() < deadline:
        i = 0
        while i < len(dev) and _real_monotonic() < deadline:
            cand = dev[:i] + dev[i + size:]
            r = run_dev(best_plan, cand)
            if r:
                dev = [tuple(d) for d in r.deviations]
                if len(dev) > len(cand):
                    dev = cand
                best = r
            else:
                i += size
        size //= 2
    return best_plan, dev, best


def simplifications(plan):
    src = plan.get('src')
    if src:
        if 'key' in src:
            yield ('src', 'key'), 'int'
        if 'item' in src:
            yield ('src', 'item'), 'tuple'
        if 'style' in src and src['style'] == 'sr':
            yield ('src', 'style'), 'plain'
    s = plan.get('sched') or {}
    if s.get('eps'):
        yield ('sched', 'eps'), 0.0


def valid(prop, plan):
    f = getattr(prop, 'valid', None)
    b = plan.get('bulk')
    if b and (len(plan['pre']), len(plan['final']), plan['horizon'],
              [s.get('bulk') for s in plan['src']['sessions']]) != (2, 3, 1, [b]):
        return False
    try:
        return f(plan) if f else True
    except Exception:
        return False
