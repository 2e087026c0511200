"""C19: Plots are made exactly as requested and never change results"""
import math

from vt import gen
from vt.engine import Check, Model, Part
from vt.vlmtrace import npanels

S, V = gen.S, gen.V


def q4(x):
    return round(x*4)/4


def tidy(rng, ac):
    """Numbers for which all sums and products are exact"""
    for w in ac['wings']:
        done = {}
        # also symmetric wings that are given on the other side
        by = [0, 0, 0]
        if w['symmetry'] and rng.random() < 0.4:
            by[3 - w['symmetry']] = {1: -8, 2: -20, 3: -30}[w['symmetry']]
        for s in w['segments']:
            s['vertices'] = {k: done.setdefault(tuple(p), [q4(x + y) for x, y in zip(p, by)]) for k, p in s['vertices'].items()}
        for c in w.get('controls', []):
            rv = c['rel_vertices']
            ea, eb = round(rv['eta_inner']*8), round(rv['eta_outer']*8)
            if c['segment_uid']['inner'] == c['segment_uid']['outer'] and ea >= eb:
                ea, eb = max(0, eb - 1), max(eb, 1)
            rv['eta_inner'], rv['eta_outer'] = ea/8, eb/8
            for r in (rv, c['rel_hinge_vertices']):
                for k in ('xsi_inner', 'xsi_outer'):
                    r[k] = min(7, max(1, round(r[k]*8)))/8
    ac['refs']['gcenter'] = [q4(x) for x in ac['refs']['gcenter']]
    return ac


def aircraft(rng, large=False):
    while True:
        # controls on different segments: no clash can come from rounding
        kw = {'wings': (1, 1), 'segs': (10, 12), 'num_c': (1, 1), 'num_s': (1, 1)} if large else {}
        ac = tidy(rng, gen.aircraft(rng, **{'wings': (1, 2), 'segs': (1, 2), 'ctls': (0, 1), 'num_c': (1, 2), 'num_s': (1, 2), 'twist': 0.4, 'given': 1, 'multi': True, **kw}))
        for w in ac['wings']:
            # controls across segments, on either edge
            if w.get('controls') and len(w['segments']) == 2 and rng.random() < 0.6:
                c = w['controls'][0]
                c['device_type'] = rng.choice(['flap', 'slat'])
                c['segment_uid'] = {'inner': w['segments'][0]['uid'], 'outer': w['segments'][1]['uid']}
                c['rel_vertices'].update(eta_inner=rng.randint(1, 7)/8, eta_outer=rng.randint(1, 7)/8)
        ac['uid'] = rng.choice(['ac', 'My Plane', 'D150', 'x'])
        if npanels(ac) <= (30 if large else 14):
            return ac


def image(p, sym):
    return [-x if sym and i == 3 - sym else x for i, x in enumerate(p)]


def norm(ac):
    out = {'gcenter': V(ac['refs']['gcenter']), 'wings': []}
    for w in ac['wings']:
        uids = [s['uid'] for s in w['segments']]
        out['wings'].append({
            'sym': w['symmetry'], 'segs': [{k: V(s['vertices'][k]) for k in 'abcd'} for s in w['segments']],
            'ctls': [{'type': c['device_type'], 'si': uids.index(c['segment_uid']['inner']) + 1, 'so': uids.index(c['segment_uid']['outer']) + 1,
                      'ei': S(c['rel_vertices']['eta_inner']), 'eo': S(c['rel_vertices']['eta_outer']),
                      'xi': S(c['rel_vertices']['xsi_inner']), 'xo': S(c['rel_vertices']['xsi_outer']),
                      'hi': S(c['rel_hinge_vertices']['xsi_inner']), 'ho': S(c['rel_hinge_vertices']['xsi_outer'])} for c in w.get('controls', [])]})
    return out


def size(ac):
    pts = [q for w in ac['wings'] for s in w['segments'] for p in s['vertices'].values() for q in (p, image(p, w['symmetry']))]
    return math.dist([min(x) for x in zip(*pts)], [max(x) for x in zip(*pts)])


def field(rng, w, mirror):
    pts = [p for s in w['segments'] for p in s['vertices'].values()]
    rows = []
    for _ in range(rng.randint(1, 3)):
        p = [q4(x + rng.uniform(-1, 1)) for x in rng.choice(pts)]
        rows.append((image(p, w['symmetry']) if mirror else p) + [rng.choice([0, 0.25, -0.125]) for _ in range(3)] + [0, rng.choice([0, 0.03125]), 0])
    return [[float(x) for x in r] for r in rows]


def case(rng, hist, i):
    ac = aircraft(rng, i % 40 == 7)
    p = gen.project(ac, None, gen.settings())
    if rng.random() < 0.35:
        d = {}
        for w in ac['wings']:
            for m in ([False, True] if w['symmetry'] else [False]):
                if rng.random() < 0.6:
                    d[w['uid'] + '_m'*m] = field(rng, w, m)
        if d:
            p['deformation'] = d
            p['settings']['deformation'] = 'd.json'
    hist = [dict(e) for e in hist]
    for e in hist:
        if e['op'] == 'run':
            e['c'] = {k: dict(v) for k, v in e['c'].items()}
            if rng.random() < 0.4:
                e['c']['lattice']['opt'] = ['deformation']
    p['settings']['save_results'] = {k: rng.random() < 0.6 for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}
    # slow ones too: small values make a small range of colours no less
    kw = {'rates': False, 'airspeed': (0.001, 0.005)} if rng.random() < 0.3 else {}
    states = [gen.state(rng, n, **kw) for n in (1, 2)]
    return {'driver': 'plots', 'tag': f'{i} ' + ' '.join(e['op'] for e in hist), 'project': p, 'states': states, 'hist': hist}


def cases(ctx):
    rng = ctx.rng('histories')
    short = [x['hist'] for x in ctx.mc['MC_Plots_gen']]
    # those where much is drawn are the slow ones
    walks = [x['hist'] for x in ctx.mc['MC_Plots_walk'] if len(x['hist']) == 4]
    pool = rng.sample(short, ctx.pick(70, min(len(short), 1200))) + rng.sample(walks, min(len(walks), ctx.pick(25, 400)))
    return [case(rng, h, i) for i, h in enumerate(pool)]


def trace(case, obs):
    ac = case['project']['aircraft']
    d = case['project'].get('deformation', {})
    top = {'ac': norm(ac), 'uid': ac['uid'], 'size': S(size(ac)), 'gcenter': V(ac['refs']['gcenter']),
           'info': [len(ac['wings']), sum(len(w['segments']) for w in ac['wings']), sum(len(w.get('controls', [])) for w in ac['wings'])],
           'deformed': bool(d), 'field': [V(r[:3]) for rows in d.values() for r in rows],
           'speeds': [S(s['aero']['airspeed'][-1]) for s in case['states']], 'flows': [[S(s['aero'][k][-1]) for k in ('alpha', 'beta')] for s in case['states']], 'base': 'run'}
    if obs['kind'] != 'ok':
        return {'ev': [{'op': 'failed', 'kind': obs['kind'], 'msg': obs.get('msg', ''), 'where': obs.get('where', '')[-300:]}], **top}
    return {'ev': obs['ev'], **top}


class C19(Check):
    prop = 'C19'
    models = [Model('MC_Plots', quick=True, min_states=1000), Model('MC_Plots', 'MC_Plots_deep', quick=False, min_states=40000),
              Model('MC_Plots', 'MC_Plots_gen', quick=True, min_states=1000),
              Model('MC_Plots', 'MC_Plots_walk', quick=True, min_states=0, args=['-simulate', 'num=20', '-depth', '5', '-seed', '7'])]
    parts = [Part('histories', 'T_Plots', cases, trace)]
    assumptions = ['Windows are not opened: the figures that exist when matplotlib.pyplot.show is called are those shown',
                   'What is drawn is read from the figure objects when they are saved (with 15 dpi, and surfaces of 3D plots with fewer points, to save time)',
                   'Aircraft with coordinates that are multiples of 1/4 and control positions that are multiples of 1/8, for which positions are exact']


CHECK = C19()
