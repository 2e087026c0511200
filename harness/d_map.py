"""A run over an aeroperformance map, and runs of each of its points alone"""
import copy
import json
import os

from drivers import num
from d_vlm import write_project, standard

FILE_KEYS = {'F': 'global_forces', 'M': 'global_forces', 'C': 'global_coeffs'}


def result_key(k):
    """Fx -> (global_forces, x), Mx -> (global_forces, l), Cl -> (global_coeffs, l), ..."""
    if k[0] == 'M':
        return 'global_forces', {'x': 'l', 'y': 'm', 'z': 'n'}[k[1]]
    return FILE_KEYS[k[0]], k[1]


def attempt(path):
    try:
        return standard(os.path.abspath(path)), 'ok'
    except Exception as e:
        return None, f'refused: {type(e).__name__} {e}'[:200]


def run(case):
    p = case['project']
    aero = p['state']['aero']
    n = len(aero['alpha'])
    singles = {}

    def do_singles(order):
        for i in order:
            q = copy.deepcopy(p)
            q['state']['aero'] = {k: [v[i]] if v is not None else None for k, v in aero.items()}
            q['name'] = f'one{i}'
            os.makedirs(f'single{i}')
            res, out = attempt(write_project(q, f'single{i}'))
            singles[i] = (out, {k: num(v[0]) for k, v in res['state'].results.items()} if res else {})

    order = case['order']
    do_singles(order[:case['before']])
    os.makedirs('proj')
    res, out = attempt(write_project(p, 'proj'))
    do_singles(order[case['before']:])

    name = p.get('name', 'run')
    o = {'kind': out, 'n': n, 'points': []}
    if res is None:
        return o
    results = res['state'].results
    o['lens'] = {k: len(v) for k, v in results.items()}
    o['folders'] = sorted(d for d in os.listdir('proj/_results') if os.path.isdir(f'proj/_results/{d}'))
    for i in range(n):
        d = f'proj/_results/{name}_{i:03d}/global.json'
        g = json.load(open(d)) if os.path.exists(d) else {}
        f = {}
        for k in results:
            a, b = result_key(k)
            if a in g and b in g[a]:
                f[k] = num(g[a][b])
        o['points'].append({'single': singles[i][1], 'outcome': singles[i][0],
                            'map': {k: num(v[i]) if i < len(v) else 'NaN' for k, v in results.items()},
                            'file': f, 'aero': {k: num(v) for k, v in g.get('aero', {}).items()}})
    return o
