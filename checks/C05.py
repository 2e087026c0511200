"""C05: panel counts follow the settings and panel numbers are a partition"""
from vt import gen
from vt.engine import Check, Model, Part
from vt.shapes import shape_aircraft


def cases(ctx):
    rng = ctx.rng('runs')
    out = []
    mc = ctx.mc['MC_Panelling']
    for x in rng.sample(mc, min(len(mc), ctx.pick(120, 1500))):
        ac = shape_aircraft(x, rng)
        out.append(case(rng, ac, 'model shape', {'c': x['auto'], 's': x['auto']}))
    for i in range(ctx.pick(100, 1500)):
        ac = gen.aircraft(rng, wings=(1, 3), ctls=(0, 3), num_s=(1, 7), num_c=(1, 6), given=rng.choice([0, 0.5, 1]))
        auto = {'c': rng.randint(1, 7), 's': rng.randint(1, 9)}
        if rng.random() < 0.15:
            auto = None
        out.append(case(rng, ac, 'random aircraft', auto))
    for i in range(ctx.pick(5, 50)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'num_c', 'num_s'][i % 5], given=rng.choice([0.5, 1]))
        out.append(case(rng, ac, 'large aircraft', {'c': rng.choice([1, 2, 15]), 's': rng.choice([1, 2, 25])} if i % 5 > 2 else {'c': 1, 's': 2}))
    return out


def case(rng, ac, tag, auto):
    se = gen.settings()
    if auto:
        se.update(vlm_autopanels_c=auto['c'], vlm_autopanels_s=auto['s'])
    return {'driver': 'vlm', 'tag': tag, 'want': ['model'], 'auto': auto or {'c': 4, 's': 4},
            'project': gen.project(ac, gen.state(rng, rng.choice([1, 1, 2])), se)}


def trace(case, obs):
    ev = [{'e': 'run', 'ac': gen.norm_aircraft(case['project']['aircraft']), 'auto': case['auto'],
           'outcome': obs['kind']}]
    if obs['kind'] == 'ok':
        ev.append({'e': 'count', **{k: obs[k] for k in ('wings', 'entries', 'bywing', 'info', 'rows')}})
    return ev


class C05(Check):
    prop = 'C05'
    models = [Model('MC_Panelling', min_states=1000, must=[
        ('a control over three segments', lambda x: any(c['so'] - c['si'] == 2 for c in x['ctls'])),
        ('a symmetric wing', lambda x: x['sym'] != 0),
        ('autopanels', lambda x: 0 in x['num_s']),
    ]), Model('MC_Panelling', 'MC_Panelling_deep', quick=False)]
    parts = [Part('runs', 'T_Panels', cases, trace)]
    assumptions = ['Panel counts that are a rounded-up real number may go either way when that number is within 1e-9 of an integer',
                   'Divisions k/num_s are never exactly at the minimum distance of another division']


CHECK = C05()
