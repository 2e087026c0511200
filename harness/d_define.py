"""Aircraft files: loading and running them; models built with the API"""
import json
import os

from d_storage import foil, nums
from d_vlm import standard, tree, write_project
from drivers import num


def opt(x):
    return '' if x is None else num(x)


def text(x):
    return '' if x is None else str(x)


def model(ac, root):
    out = {'uid': ac.uid, 'comment': text(ac.refs.get('comment')), 'refs': {k: num(ac.refs[k]) for k in ('area', 'chord', 'span')}, 'wings': []}
    for k in ('gcenter', 'rcenter'):
        out['refs'][k] = nums(ac.refs[k])
    for w in ac.wings.values():
        we = {'uid': w.uid, 'sym': num(w.symmetry), 'segs': [], 'ctls': []}
        for s in w.segments.values():
            we['segs'].append({'uid': s.uid, **{k: nums(s.vertices[k]) for k in 'abcd'},
                               **{'f' + k[0]: foil(s.airfoils[k], root, False)['n'] for k in ('inner', 'outer')},
                               **{k: opt(s.panels[k]) for k in ('num_c', 'num_s')}})
        for c in w.controls.values():
            we['ctls'].append({'u': c.uid, 'type': text(c.device_type), 'defl': opt(c.deflection), 'deflm': defl(c.deflection_mirror),
                               'si': text(c.segment_uid['inner']), 'so': text(c.segment_uid['outer']),
                               **{k: opt(c.rel_vertices[k]) for k in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer')},
                               **{'h_' + k: opt(c.rel_hinge_vertices[k]) for k in ('xsi_inner', 'xsi_outer')},
                               'num_c': opt(c.panels['num_c'])})
        out['wings'].append(we)
    return out


def defl(x):
    """An ignored mirror deflection can be anything"""
    return num(x) if isinstance(x, (int, float)) else ''


def run(case):
    os.makedirs('proj')
    path = os.path.abspath(write_project(case['project'], 'proj'))
    root = os.path.abspath('proj')
    out = {}
    from pytornado.fileio.native import aircraft as io_aircraft, settings as io_settings
    try:
        ac = io_aircraft.load(io_settings.load(path))
    except Exception as e:
        out['load'] = {'outcome': f'refused {type(e).__name__}: {e}'[:200], 'state': False}
    else:
        out['load'] = {'outcome': 'ok', 'state': bool(ac.state)}
        try:
            out['load']['model'] = model(ac, root)
        except Exception as e:
            out['load']['outcome'] = f'unreadable {type(e).__name__}: {e}'
    try:
        standard(path)
        out['run'] = 'ok'
    except Exception as e:
        out['run'] = f'refused {type(e).__name__}: {e}'[:200]
    out['files'] = [f for f in tree('proj') if f.startswith('_results')]
    return {'kind': 'ok', **out}
