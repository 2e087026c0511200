"""Several analyses in one case: the laws that relate their results"""
import os

from drivers import num, nums
from d_vlm import write_project, standard, COEFFS, entries


def run(case):
    out = []
    for i, p in enumerate(case['projects']):
        root = f'p{i}'
        os.makedirs(root)
        path = os.path.abspath(write_project(p, root))
        try:
            res = standard(path)
        except Exception as e:
            out.append({'outcome': f'refused: {type(e).__name__} {e}'[:200]})
            continue
        lat, vd = res['lattice'], res['vlmdata']
        o = {'outcome': 'ok', 'gamma': nums(vd.panelwise['gamma']),
             'forces': {k: num(vd.forces[k]) for k in COEFFS}, 'coeffs': {k: num(vd.coeffs[k]) for k in COEFFS}}
        if case.get('panels'):
            o['p'], o['c'], o['a'], o['n'], o['m'] = (nums(x) for x in (lat.p, lat.c, lat.a, lat.n, lat.bound_leg_midpoints))
            o['entries'] = []
            for b, e in zip(lat.panel_bookkeeping, entries(lat)):
                o['entries'].append({**{k: e[k] for k in ('w', 's', 'ea', 'eb', 'type', 'u', 'n', 'mirror', 'idx')},
                                     'hinge': [nums(b.subarea.abs_hinge_vertices(b.mirror)[k]) for k in sorted(b.subarea.abs_hinge_vertices(b.mirror))]
                                     if b.subarea.parent_control is not None else []})
        out.append(o)
    return {'kind': 'ok', 'runs': out}
