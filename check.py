#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--cap S]
   check.py PROPERTY --replay FILE [--trace]

Seeded search over simulated executions of the code in /repo (or $VERIF_REPO).
Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: the check itself is broken.
"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time
import shutil
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = sys.executable


def worker(args, env, **kw):
    return subprocess.Popen([PY, '-B', '-m', 'dst.worker', *map(str, args)], cwd=HERE, env=env,
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def environment(tmp):
    env = {k: v for k, v in os.environ.items() if not k.lower().endswith('_proxy')}
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX=os.path.join(tmp, 'pyc'),
               PYTHONHASHSEED=env.get('PYTHONHASHSEED', '0'), VERIF_REPO=REPO)
    return env


def meta(pid):
    """Static facts about a check, without importing the simulator in this process."""
    with open(os.path.join(HERE, 'dst', 'budgets.json')) as f:
        return json.load(f)[pid]


def replay_file(pid, path, env, trace=False):
    p = worker(['replay', pid, path] + (['trace'] if trace else []), env)
    out, err = p.communicate(timeout=300)
    last = None
    for line in out.splitlines():
        if line.startswith('{'):
            last = json.loads(line)
        else:
            print(line)
    if last is None:
        sys.stderr.write(err)
    return last


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--workers', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--replay')
    ap.add_argument('--trace', action='store_true')
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    pid, tier, seed = a.prop, a.tier, a.seed
    tmp = tempfile.mkdtemp(prefix='dst-')
    try:
        env = environment(tmp)
        if a.replay:
            r = replay_file(pid, a.replay, env, a.trace)
            if r is None:
                return 2
            if r['violation']:
                print(f'{r["violation"][0]}: {r["violation"][1]}')
                print(f'VIOLATION property={pid} replay={a.replay}')
                return 1
            print('no violation')
            return 0
        return explore(a, pid, tier, seed, env, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def known_findings(pid):
    out = []
    path = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(path):
        for e in json.load(open(path)).get('findings', []):
            if e['property'] == pid:
                out.append(e)
    return out


def explore(a, pid, tier, seed, env, tmp):
    m = meta(pid)
    t = m[tier]
    runs = a.runs or t['runs']
    cap = a.cap or t['cap']
    nw = a.workers
    t0 = time.monotonic()
    print(f'{pid}: seed={seed} tier={tier} runs={runs} workers={nw} repo={REPO}', flush=True)
    procs = [worker(['explore', pid, tier, seed, k, nw, runs, cap], env) for k in range(nw)]
    results, violations, leaks, errs = [], [], 0, []
    lock = threading.Lock()
    first = []

    def pump(p):
        nonlocal leaks
        for line in p.stdout:
            if not line.startswith('{'):
                continue
            o = json.loads(line)
            with lock:
                if o['kind'] == 'violation':
                    violations.append(o)
                    first.append(time.monotonic())
                elif o['kind'] == 'done':
                    results.append(o)
                elif o['kind'] == 'leak':
                    leaks += 1

    errtxt = {}

    def pump_err(k, p):
        errtxt[k] = p.stderr.read()

    ths = [threading.Thread(target=pump, args=(p,)) for p in procs]
    ths += [threading.Thread(target=pump_err, args=(k, p)) for k, p in enumerate(procs)]
    for th in ths:
        th.start()
    hard = t0 + cap + 120
    while any(p.poll() is None for p in procs):
        time.sleep(0.05)
        if first and time.monotonic() > first[0] + 3:
            break
        if time.monotonic() > hard:
            break
    timeout = any(p.poll() is None for p in procs) and not violations
    for p in procs:
        if p.poll() is None:
            p.kill()
    for th in ths:
        th.join()
    bad = [(k, p.returncode) for k, p in enumerate(procs)
           if p.returncode not in (0, -9)]
    if bad and not violations:
        for k, rc in bad:
            sys.stderr.write(f'worker {k} exited {rc}\n{errtxt.get(k, "")[-1500:] if k < 2 else ""}\n')
        print(f'ERROR {pid}: the harness failed (this is not a violation)')
        return 2
    if timeout:
        print(f'ERROR {pid}: a worker did not finish in time')
        return 2
    wall = time.monotonic() - t0
    code = 0
    vinfo = None
    if violations:
        violations.sort(key=lambda v: v['run'])
        v = violations[0]
        print(f'run {v["run"]} violates {pid}: {v["cls"]}: {v["msg"]}')
        rep = None
        if not a.no_min:
            p = worker(['minimise', pid, 40 if tier == 'quick' else 120], env,
                       stdin=subprocess.PIPE)
            try:
                out, err = p.communicate(json.dumps(v), timeout=300)
                for line in out.splitlines():
                    if line.startswith('{'):
                        rep = json.loads(line)
                if rep is None:
                    sys.stderr.write(err[-2000:])
            except subprocess.TimeoutExpired:
                p.kill()
        if rep is None or rep['kind'] != 'min':
            rep = dict(plan=v['plan'], deviations=v['deviations'], cls=v['cls'], msg=v['msg'],
                       unminimised=True)
        rep.update(property=pid, seed=seed, run=v['run'], sched_seed=v['seed'])
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join('replays', f'{pid}-seed{seed}-run{v["run"]}.json')
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump(rep, f, indent=1)
        got = replay_file(pid, os.path.join(HERE, path), env)
        if got is None or not got['violation']:
            print('note: the minimised file does not reproduce; keeping the original run')
            rep.update(plan=v['plan'], deviations=v['deviations'], unminimised=True)
            with open(os.path.join(HERE, path), 'w') as f:
                json.dump(rep, f, indent=1)
            got = replay_file(pid, os.path.join(HERE, path), env)
        same = bool(got and got['violation'])
        if same:
            rep['trace'] = got['trace']
            rep['cls'], rep['msg'] = got['violation']
            with open(os.path.join(HERE, path), 'w') as f:
                json.dump(rep, f, indent=1)
        print(f'minimised: {rep["cls"]}: {rep["msg"]} ({len(rep["deviations"])} schedule '
              f'deviations; replayed in a fresh process: {"same" if same else "NOT reproduced"})')
        print(f'VIOLATION property={pid} replay={path}')
        vinfo = dict(cls=rep['cls'], msg=rep['msg'], replay=path, replayed=same)
        code = 1
    if not a.no_evidence:
        write_evidence(pid, tier, seed, m, results, wall, vinfo, nw, leaks, runs)
    if code == 0:
        n = sum(r['agg']['runs'] for r in results)
        d = len(set(s for r in results for s in r['siglist']))
        if any(r['agg'].get('capped') for r in results) and n < 0.02 * runs:
            print(f'ERROR {pid}: only {n} of {runs} runs fitted in the time cap')
            return 2
        print(f'{pid}: held on {n} simulated runs ({d} distinct non-trivial) in {wall:.1f} s')
    return code


def write_evidence(pid, tier, seed, m, results, wall, vinfo, nw, leaks, planned):
    def merge(name):
        out = {}
        for r in results:
            for k, v in r['agg'][name].items():
                out[k] = out.get(k, 0) + v
        return dict(sorted(out.items()))

    n = sum(r['agg']['runs'] for r in results)
    sim_t = sum(r['agg']['simtime'] for r in results)
    sigs = set(s for r in results for s in r['siglist'])
    pairs = set(s for r in results for s in r['pairs'])
    samples = [s for r in results for s in r['samples']][:3]
    cov = dict(
        evaluations=n,
        distinct_nontrivial=len(sigs),
        rule=m.get('rule') or
        'each case is a generated plan (sources, clients, operations, faults) run under a '
        'seeded schedule; it is non-trivial if ' + m['nontrivial'] + '; two cases are the same '
        'if plan, recorded context-switch sequence and history digest agree',
        samples=samples,
        planned_runs=planned,
        runs_per_hour=round(n / wall * 3600) if wall else 0,
        seeds_per_hour=round(n / wall * 3600) if wall else 0,
        simulated_seconds=round(sim_t, 1),
        scheduling_points=sum(r['agg']['points'] for r in results),
        context_switches=sum(r['agg']['switches'] for r in results),
        distinct_switch_site_pairs=len(pairs),
        distinct_interleavings_measure='distinct hashes of (plan, sequence of (point number, '
        'task) context switches) among non-trivial runs',
        faults_injected=merge('faults'),
        probes=merge('probes'),
        workers=nw,
        real_components=m.get('real', REALC),
        stub_components=m.get('stub', STUBC),
        leaked_threads=leaks,
    )
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=m.get('assumptions', []) + [
                  'threads switch only at synchronisation operations, sleeps and source-line '
                  'boundaries of the repository code',
                  'virtual time advances only when no thread can run, at injected stalls, and '
                  'by a small per-point amount in runs that ask for it'],
              wall_s=round(wall, 2), violations=1 if vinfo else 0)
    if vinfo:
        ev['violation'] = vinfo
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    tmp = os.path.join(HERE, 'evidence', pid + '.json.tmp')
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', pid + '.json'))


REALC = ['stream2py.StreamBuffer and its reading thread', 'stream2py.BufferReader',
         'RWLock / RWLockSortedDeque / SortedDeque / SortedCollection',
         'threading.Event/Condition/RLock/Semaphore and queue.* (pure Python, on simulated locks)']
STUBC = ['thread primitives (_thread.allocate_lock, Thread.start/join)', 'time.sleep and clocks',
         'data sources (scripted)']

if __name__ == '__main__':
    try:
        sys.exit(main())
    except BrokenPipeError:
        os._exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        print('ERROR: the harness failed (this is not a violation)')
        sys.exit(2)
