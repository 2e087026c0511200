"""Whole analyses: a project folder is written and run the standard way"""
import json
import os

from drivers import num, nums

COEFFS = ('x', 'y', 'z', 'D', 'C', 'L', 'l', 'm', 'n')


def write_project(p, root):
    for d in ('aircraft', 'airfoils', 'deformation', 'settings', 'state'):
        os.makedirs(f'{root}/{d}', exist_ok=True)
    se = p['settings']
    with open(f'{root}/aircraft/{se["aircraft"]}', 'w') as fp:
        json.dump(p['aircraft'], fp)
    with open(f'{root}/state/{se["state"]}', 'w') as fp:
        json.dump(p['state'], fp)
    if p.get('deformation') is not None:
        with open(f'{root}/deformation/{se["deformation"]}', 'w') as fp:
            json.dump(p['deformation'], fp)
    for name, text in p.get('files', {}).items():
        with open(f'{root}/{name}', 'w') as fp:
            fp.write(text)
    name = p.get('name', 'run')
    path = f'{root}/settings/{name}.json'
    with open(path, 'w') as fp:
        json.dump(se, fp)
    return path


def standard(path):
    from pytornado.stdfun.run import standard_run, StdRunArgs
    return standard_run(StdRunArgs(run=path))


def patch_obs(sa):
    rv = sa.rel_vertices
    return {'xsi': [num(rv[f'xsi_{k}']) for k in 'abcd'],
            'h': [num(sa.rel_hinge_vertices[k]) for k in ('xsi_h1', 'xsi_h2')] if sa.parent_control is not None else [],
            'u': sa.parent_control.uid if sa.parent_control is not None else ''}


NOPATCH = {'xsi': [], 'h': [], 'u': ''}


def strips(segment):
    out = []
    for sd in segment.subdivision.values():
        row = {'eta': [num(sd.rel_vertices[f'eta_{k}']) for k in 'abcd']}
        for t in ('slat', 'segment', 'flap'):
            row[t] = patch_obs(sd.subarea[t]) if t in sd.subarea else NOPATCH
        row['extra'] = sorted(set(sd.subarea) - {'slat', 'segment', 'flap'})
        out.append(row)
    return sorted(out, key=lambda r: (float(r['eta'][0]), float(r['eta'][1])))


def aircraft_of(lattice):
    """The wings as modelled, from the bookkeeping"""
    wings = {}
    for e in lattice.panel_bookkeeping:
        wings.setdefault(e.subarea.parent_wing.uid, e.subarea.parent_wing)
    return wings


def model_obs(wings):
    return [{'uid': w.uid, 'sym': int(w.symmetry),
             'segs': [{'uid': s.uid, 'num_c': int(s.panels['num_c']), 'num_s': int(s.panels['num_s']),
                       'strips': strips(s)} for s in w.segments.values()],
             'ctls': [{'u': c.uid, 'num_c': int(c.panels['num_c'])} for c in w.controls.values()]}
            for w in wings]


def entries(lattice):
    out = []
    for e in lattice.panel_bookkeeping:
        sa = e.subarea
        idx = [int(i) for i in e.pan_idx]
        sd = sa.parent_subdivision.rel_vertices
        out.append({'w': sa.parent_wing.uid, 's': sa.parent_segment.uid,
                    'ea': num(sd['eta_a']), 'eb': num(sd['eta_b']), 'type': sa.type,
                    'u': sa.parent_control.uid if sa.parent_control is not None else '',
                    'n': int(e.num_chordwise_panels), 'idx': idx, 'mirror': bool(e.mirror),
                    'rect': patch_obs(sa)})
    return out


def foil_slope(name, x):
    """Slope of the camber line, from the airfoil library (not from the code under test)"""
    from airfoils import Airfoil
    from airfoils.fileio import import_airfoil_data
    if name not in FOILS:
        if os.path.isfile(f'proj/{name}'):
            up, lo = import_airfoil_data(f'proj/{name}')
            FOILS[name] = Airfoil(up, lo)
        else:
            FOILS[name] = Airfoil.NACA4(name[4:])
    f, h = FOILS[name], 1e-6
    return float((f.camber_line(x + h) - f.camber_line(x - h))/(2*h))


FOILS = {}


def camber(lattice, ac):
    """Per entry and panel: chordwise position and camber slopes of the segment's inner and outer airfoil there"""
    foils = {(w['uid'], s['uid']): s['airfoils'] for w in ac['wings'] for s in w['segments']}
    out = []
    for e in lattice.panel_bookkeeping:
        sa = e.subarea
        f = foils[sa.parent_wing.uid, sa.parent_segment.uid]
        rv = {k: float(sa.rel_vertices[f'xsi_{k}']) for k in 'abcd'}
        le, te, n = (rv['a'] + rv['b'])/2, (rv['c'] + rv['d'])/2, len(e.pan_idx)
        xs = [le + (k + 0.75)/n*(te - le) for k in range(n)]
        out.append([[num(x), num(foil_slope(f['inner'], x)), num(foil_slope(f['outer'], x))] for x in xs])
    return out


INTS = ('num_wings', 'num_segments', 'num_controls', 'num_panels', 'num_strips')
FLTS = ('aspect_min', 'aspect_max', 'aspect_avg', 'area_min', 'area_max', 'area_avg')


def observe(res, want, project=None):
    lat, vd, st = res['lattice'], res['vlmdata'], res['state']
    o = {}
    if 'model' in want:
        o['wings'] = model_obs(aircraft_of(lat).values())
        o['entries'] = entries(lat)
        at = {id(e): i + 1 for i, e in enumerate(lat.panel_bookkeeping)}
        o['bywing'] = [{'w': w, 'mirror': m, 'at': [at.get(id(e), 0) for e in by[w]]} for w in aircraft_of(lat)
                       for m, by in ((False, lat.bookkeeping_by_wing_uid), (True, lat.bookkeeping_by_wing_uid_mirror)) if w in by]
        o['info'] = {k: int(lat.info[k]) for k in INTS}
        o['rows'] = [len(lat.p), len(lat.v), len(lat.c), len(lat.n), len(lat.a), len(lat.bound_leg_midpoints),
                     len(vd.matrix_downwash), len(vd.array_rhs)] + [len(vd.panelwise[k]) for k in sorted(vd.panelwise)]
    if 'lattice' in want:
        for k in ('p', 'v', 'c', 'n', 'a'):
            o[k] = nums(getattr(lat, k))
        o['m'] = nums(lat.bound_leg_midpoints)
        o['info'] = {**{k: int(lat.info[k]) for k in INTS}, **{k: num(lat.info[k]) for k in FLTS}}
    if 'foils' in want:
        o['cam'] = camber(lat, project['aircraft'])
    if 'system' in want:
        o['A'] = nums(vd.matrix_downwash)
        o['rhs'] = nums(vd.array_rhs)
        o['gamma'] = nums(vd.panelwise['gamma'])
    if 'loads' in want:
        o['pw'] = {k: nums(x) for k, x in vd.panelwise.items()}
        o['forces'] = {k: num(vd.forces[k]) for k in COEFFS}
        o['coeffs'] = {k: num(vd.coeffs[k]) for k in COEFFS}
    if 'map' in want:
        o['results'] = {k: nums(x) for k, x in st.results.items()}
        o['npts'] = int(st.num_apm_entries)
    if 'files' in want:
        o['files'] = tree('.')
    return o


def tree(root):
    out = []
    for d, dirs, files in os.walk(root):
        for f in files:
            out.append(os.path.relpath(os.path.join(d, f), root))
    return sorted(out)


def run(case):
    os.makedirs('proj')
    path = write_project(case['project'], 'proj')
    try:
        res = standard(os.path.abspath(path))
    except Exception as e:
        return {'kind': 'refused', 'type': type(e).__name__, 'msg': str(e)[:300]}
    return {'kind': 'ok', **observe(res, case['want'], case['project'])}
