"""C02: each point of an aeroperformance map is analysed on its own, in order"""
from vt import gen
from vt.engine import Check, Model, Part
from vt.vlmtrace import small_aircraft

PARAMS = ['airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R', 'mach', 'altitude']


def point_kinds(rng):
    """Three points that have nothing in common"""
    out = {}
    for name, (al, be) in {'A': (8, 0), 'B': (12, 10), 'C': (70, 50)}.items():
        out[name] = {k: v[0] for k, v in gen.state(rng, 1, alpha=al, beta=be)['aero'].items() if v is not None}
    for k in ('rate_P', 'rate_Q', 'rate_R', 'beta'):
        out['A'][k] = 0.0
    for k in ('rate_P', 'rate_Q', 'rate_R'):
        out['B'][k] = out['B'][k] or 0.7
    return out


def with_altitude(rng, st):
    """The same map given by altitude"""
    n = len(st['aero']['alpha'])
    st['aero']['density'] = None
    st['aero']['altitude'] = [gen.r3(rng.uniform(0, 15000)) for _ in range(n)]
    if rng.random() < 0.5:
        st['aero']['airspeed'] = None
        st['aero']['mach'] = [gen.r3(rng.uniform(0.1, 0.7)) for _ in range(n)]
    return st


def make(rng, st, tag):
    n = len(st['aero']['alpha'])
    ac = small_aircraft(rng, 30, wings=(1, 2), segs=(1, 2), ctls=(0, 2), num_c=(1, 3), num_s=(1, 3), twist=0.5,
                        foils=['NACA0012', 'NACA2412', 'NACA4415'])
    order = list(range(n))
    rng.shuffle(order)
    p = gen.project(ac, st, gen.settings(save_results={'global': True, 'panelwise': False, 'aeroperformance': True,
                                                       'matrix_system': False}), name=rng.choice(['run', 'my.set', 'x_1']))
    return {'driver': 'map', 'tag': tag, 'project': p, 'order': order, 'before': rng.choice([0, n, n//2])}


def cases(ctx):
    rng = ctx.rng('runs')
    out = []
    seqs = [x['map'] for x in ctx.mc['RunLoop'] + ctx.mc.get('RunLoop_deep', [])]
    for seq in rng.sample(seqs, min(len(seqs), ctx.pick(70, 900))):
        kinds = point_kinds(rng)
        aero = {k: [kinds[c][k] for c in seq] for k in PARAMS[:7]}
        out.append(make(rng, {'aero': {**aero, 'mach': None, 'altitude': None}}, 'sequence ' + ''.join(seq)))
    for i in range(ctx.pick(30, 300)):
        st = gen.state(rng, rng.randint(1, 6), alpha=30, beta=20)
        if i % 2:
            st = with_altitude(rng, st)
        out.append(make(rng, st, 'random map'))
    out.append(make(rng, gen.state(rng, 12), 'long map'))
    for n in ctx.pick([33, 105], [33, 105, 260]):
        out.append(make(rng, with_altitude(rng, gen.state(rng, n, alpha=20, beta=10)), 'very long map'))
    return out


def trace(case, obs):
    p = case['project']
    aero = p['state']['aero']
    n = obs['n'] if 'n' in obs else 0
    ev = [{'e': 'map', 'outcome': obs['kind'], 'n': n, 'lens': obs.get('lens', {}), 'folders': obs.get('folders', []),
           'expected': [f'{p["name"]}_{i:03d}' for i in range(n)]}]
    for i, x in enumerate(obs.get('points', [])):
        ev.append({'e': 'point', 'i': i, **x, 'given': {k: gen.S(v[i]) for k, v in aero.items()
                                                        if v is not None and k not in ('mach', 'altitude')}})
    ev.append({'e': 'end'})
    return ev


class C02(Check):
    prop = 'C02'
    models = [Model('RunLoop', min_states=500, actions=['Lattice', 'Solve', 'Store']),
              Model('RunLoop', 'RunLoop_deep', quick=False)]
    parts = [Part('runs', 'T_Map', cases, trace)]
    assumptions = ['Results are compared to 1e-9 of the largest component', 'Fewer than 1000 points (three-digit folder numbers)']


CHECK = C02()
