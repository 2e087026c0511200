"""C04: control surfaces occupy exactly their declared place"""
from vt import gen
from vt.engine import Check, Model, Part
from vt.shapes import shape_aircraft


def case(rng, ac, tag):
    return {'driver': 'vlm', 'tag': tag, 'want': ['model'],
            'project': gen.project(ac, gen.state(rng, 1), gen.settings(vlm_autopanels_c=2, vlm_autopanels_s=rng.randint(1, 4)))}


def cases(ctx):
    rng = ctx.rng('runs')
    out = []
    mc = [x for x in ctx.mc['MC_Panelling'] + ctx.mc.get('MC_Panelling_deep', []) if x['ctls']]
    two = ctx.mc['MC_Panelling_two']
    clash = [x for x in two if x['phase'] == 'refused']
    fit = [x for x in two if x['phase'] != 'refused']
    for x in (rng.sample(mc, min(len(mc), ctx.pick(120, 2000))) + rng.sample(clash, min(len(clash), ctx.pick(60, 600)))
              + rng.sample(fit, min(len(fit), ctx.pick(80, 900)))):
        out.append(case(rng, shape_aircraft(x, rng), f'model shape {x["phase"]}'))
    for i in range(ctx.pick(140, 2000)):
        ac = gen.aircraft(rng, wings=(1, 2), segs=(1, 4), ctls=(1, 4), num_s=(1, 6), clash=0.3)
        out.append(case(rng, ac, 'random aircraft'))
    for i in range(ctx.pick(6, 80)):
        out.append(case(rng, gen.large(rng, ['segs', 'ctls', 'wings'][i % 3], clash=0.2), 'large aircraft'))
    return out


def trace(case, obs):
    ev = [{'e': 'run', 'ac': gen.norm_aircraft(case['project']['aircraft']), 'outcome': obs['kind']}]
    if obs['kind'] == 'ok':
        ev += [{'e': 'wing', **w} for w in obs['wings']] + [{'e': 'end'}]
    return ev


class C04(Check):
    prop = 'C04'
    models = [Model('MC_Panelling', min_states=1000, must=[
        ('a control over three segments', lambda x: any(c['so'] - c['si'] == 2 for c in x['ctls'])),
    ]), Model('MC_Panelling', 'MC_Panelling_two', min_states=1000, must=[
        ('two controls clash', lambda x: x['phase'] == 'refused'),
        ('a slat and a flap', lambda x: x['phase'] == 'done' and {c['type'] for c in x['ctls']} == {'slat', 'flap'}),
    ]), Model('MC_Panelling', 'MC_Panelling_deep', quick=False)]
    parts = [Part('runs', 'T_Controls', cases, trace)]
    assumptions = ['Controls run from an inner to an outer segment in declaration order, on one segment with eta_outer > eta_inner',
                   'Positions are never exactly at the minimum distance (0.01) of each other']


CHECK = C04()
