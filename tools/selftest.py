"""Self-tests of the simulator.

--setup     quick sanity check that the harness can run here (used as setup_cmd)
(default)   determinism: every property, many seeds, run twice in fresh processes, under
            another PYTHONHASHSEED and in another order, event logs compared; and every run
            replayed from its recorded schedule.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.chdir(HERE)


def logs(pid, seed, idx, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, '-B', '-m', 'dst.worker', 'logs', pid, 'quick', str(seed),
                        ','.join(map(str, idx))], env=env, capture_output=True, text=True)
    out = {}
    for line in p.stdout.splitlines():
        if line.startswith('{'):
            d = json.loads(line)
            out[d['run']] = (d['h'], d['points'], repr(d['violation']))
            if not d['replay_same']:
                print(f'{pid} seed {seed} run {d["run"]}: replay differs')
    if len(out) != len(idx):
        print(p.stderr[-2000:])
        sys.exit(f'{pid}: worker failed')
    return out


def main():
    pids = [c['property'] for c in json.load(open('MANIFEST.json'))['checks']]
    if '--setup' in sys.argv:
        a = logs('C01', 1, [0, 1, 2], 0)
        b = logs('C01', 1, [2, 1, 0], 1)
        if a != b:
            sys.exit('the simulator is not deterministic here')
        print('ok')
        return
    from concurrent.futures import ThreadPoolExecutor
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
    only = sys.argv[2:] or pids
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        jobs = []
        for pid in only:
            for seed in (1, 7):
                idx = list(range(n))
                mixed = idx[::-1]
                jobs.append((pid, seed, ex.submit(logs, pid, seed, idx, 0), ex.submit(logs, pid, seed, mixed, 12345),
                             ex.submit(logs, pid, seed, idx[::3], 99)))
        for pid, seed, a, b, c in jobs:
            a, b, c = a.result(), b.result(), c.result()
            for i in a:
                if a[i] != b[i] or (i in c and a[i] != c[i]):
                    print(f'{pid} seed {seed} run {i}: {a[i]} {b[i]} {c.get(i)}')
                    bad += 1
    print('differences:', bad)
    sys.exit(bad > 0)


if __name__ == '__main__':
    main()
