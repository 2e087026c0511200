"""Runs of one project with different save options, and the files they leave"""
import copy
import hashlib
import json
import os

from drivers import num, nums
from d_vlm import write_project, standard, tree

PANEL = ('gamma', 'vx', 'vy', 'vz', 'vmag', 'fx', 'fy', 'fz', 'fmag', 'cp')


def snapshot(root):
    out = {}
    for f in tree(root):
        with open(os.path.join(root, f), 'rb') as fp:
            out[f] = hashlib.sha1(fp.read()).hexdigest()[:16]
    return out


def table(path):
    """Header words and rows of a printed table"""
    head, rows = [], []
    with open(path) as fp:
        for line in fp.read().splitlines():
            if line.startswith('#'):
                head += line[1:].split()
            elif line.strip():
                rows.append([x.strip() for x in line.split(',')])
    return head, rows


def points_of(state):
    aero = state['aero']
    n = len(aero['alpha'])
    return [{'aero': {k: [v[i]] if v is not None else None for k, v in aero.items()}} for i in range(n)]


def flat(d):
    """A dictionary of numbers and number lists as strings"""
    return {k: nums(v) for k, v in d.items()}


def run(case):
    p = case['project']
    root = case.get('root', 'proj')
    os.makedirs(root)
    name = p['name']
    out = []
    for r, step in enumerate(case['runs']):
        q = copy.deepcopy(p)
        q['state'] = step['state']
        q['settings'].update(step['settings'])
        path = os.path.abspath(write_project(q, root))
        # the same analyses without any file, as a whole and point by point
        plainq = copy.deepcopy(q)
        plainq['settings']['save_results'] = {'global': False, 'panelwise': False, 'aeroperformance': False, 'matrix_system': False}
        os.makedirs(f'plain{r}')
        plain = standard(os.path.abspath(write_project(plainq, f'plain{r}')))
        singles = []
        for i, st in enumerate(points_of(q['state'])):
            os.makedirs(f'one{r}_{i}')
            s = standard(os.path.abspath(write_project({**plainq, 'state': st}, f'one{r}_{i}')))['vlmdata']
            singles.append(s)
        before = snapshot(root)
        if step['clean']:
            from pytornado.stdfun.run import clean_project_dir, get_settings
            clean_project_dir(get_settings(path))
        try:
            res = standard(path)
        except Exception as e:
            out.append({'kind': f'refused: {type(e).__name__} {e}'[:300]})
            continue
        after = snapshot(root)
        n = len(singles)
        o = {'kind': 'ok', 'n': n, 'before': before, 'after': after,
             'results': flat(res['state'].results), 'plain': flat(plain['state'].results),
             'aero': {k: nums(v) if v is not None else [] for k, v in res['state'].aero.items()},
             'last': {**{k: nums(v) for k, v in res['vlmdata'].panelwise.items()},
                      'A': nums(res['vlmdata'].matrix_downwash), 'rhs': nums(res['vlmdata'].array_rhs)},
             'lastplain': {**{k: nums(v) for k, v in plain['vlmdata'].panelwise.items()},
                           'A': nums(plain['vlmdata'].matrix_downwash), 'rhs': nums(plain['vlmdata'].array_rhs)},
             'points': [], 'apm': {}, 'apmdata': {}}
        for i in range(n):
            d = f'{root}/_results/{name}_{i:03d}'
            pt = {}
            s = singles[i]
            if os.path.exists(f'{d}/global.json'):
                g = json.load(open(f'{d}/global.json'))
                pt['global'] = {k: flat(v) for k, v in g.items()}
            if os.path.exists(f'{d}/panelwise.dat'):
                pt['phead'], pt['panel'] = table(f'{d}/panelwise.dat')
                pt['panelx'] = [list(x) for x in zip(*(nums(s.panelwise[k]) for k in PANEL))]
            if os.path.exists(f'{d}/matrix.dat'):
                pt['mhead'], pt['matrix'] = table(f'{d}/matrix.dat')
                pt['matrixx'] = [a + [b] for a, b in zip(nums(s.matrix_downwash), nums(s.array_rhs))]
            o['points'].append(pt)
        f = f'{root}/_results/{name}_aeroperformance.json'
        if os.path.exists(f):
            o['apmdata'] = flat(json.load(open(f)))
        out.append(o)
    return {'kind': 'ok', 'runs': out}
