"""C06: panels tile the wing and carry correct vortices, points, normals, areas"""
from vt import gen
from vt.engine import Check, Model, Part
from vt.shapes import shape_aircraft
from vt.vlmtrace import case, patches


def cases(ctx):
    rng = ctx.rng('runs')
    out = []
    mc = ctx.mc['MC_Panelling']
    rot = {'_do_normal_rotations': False}
    for x in rng.sample(mc, min(len(mc), ctx.pick(60, 800))):
        out.append(case(shape_aircraft(x, rng), gen.state(rng, rng.choice([1, 1, 3])), 'model shape', ['model', 'lattice'],
                        se={**rot, 'vlm_autopanels_c': x['auto'], 'vlm_autopanels_s': x['auto']}))
    for i in range(ctx.pick(140, 2000)):
        big = i % 20 == 0
        ac = gen.aircraft(rng, wings=(1, 3), ctls=(0, 2), num_s=(1, 4), num_c=(4, 9) if big else (1, 4), twist=0.6, given=1)
        out.append(case(ac, gen.state(rng, rng.choice([1, 1, 3]), alpha=rng.choice([10, 60, 89]), beta=rng.choice([0, 8, 80])),
                        'random aircraft', ['model', 'lattice'], se=rot))
    for i in range(ctx.pick(5, 50)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'num_c', 'num_s'][i % 5], twist=0.6)
        out.append(case(ac, gen.state(rng, 1, alpha=10, beta=8), 'large aircraft', ['model', 'lattice'], se=rot))
    return out


def trace(case, obs):
    p = case['project']
    ev = [{'e': 'run', 'outcome': obs['kind']}]
    if obs['kind'] == 'ok':
        ev += patches(obs)
        ev.append({'e': 'info', 'info': obs['info'], 'num': obs['info']['num_panels']})
    n = len(p['state']['aero']['alpha'])
    return {'ev': ev, 'ac': gen.norm_aircraft(p['aircraft']), 'pt': gen.norm_point(p['state'], n - 1)}


class C06(Check):
    prop = 'C06'
    models = [Model('MC_Panelling', min_states=1000, must=[
        ('a symmetric wing', lambda x: x['sym'] == 3), ('a control', lambda x: x['ctls'] != [])]),
        Model('MC_Lattice', min_states=50)]
    parts = [Part('runs', 'T_Lattice', cases, trace)]
    assumptions = ['Coordinates are compared to 1e-9 m, normals to 1e-8', 'Wings that are not deformed']


CHECK = C06()
