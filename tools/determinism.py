"""Self-test of the simulator: the same plan gives the same execution whatever
the worker did before.  usage: determinism.py N [PROP...]"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from concurrent.futures import ThreadPoolExecutor
from dst.run import Worker, RUNS

n = int(sys.argv[1])
props = sys.argv[2:] or sorted(RUNS)


def go(prop, order):
    w = Worker(0, 0, None)
    out = {}
    for i in order:
        r = w.call({'cmd': 'gen', 'prop': prop, 'seed': 1, 'i': i})
        out[i] = [r.get(k) for k in ('hash', 'sw', 'steps', 'ops', 'fired', 'clock', 'stats', 'bad')]
        if 'harness' in r:
            print(prop, i, r['harness'])
    w.kill()
    return out


def one(prop):
    if prop == 'C09':
        return prop, []
    idx = list(range(n))
    a = go(prop, idx)
    b = go(prop, idx[::-1])
    return prop, [(i, a[i], b[i]) for i in idx if a[i] != b[i]]


bad = 0
with ThreadPoolExecutor(8) as ex:
    for prop, diff in ex.map(one, props):
        print(prop, 'differences', len(diff), diff[:2])
        bad += len(diff)
sys.exit(bool(bad))
