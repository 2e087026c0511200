"""C07: symmetry means an exact mirror image"""
from vt import gen, laws
from vt.engine import Check, Model, Part

FLAT = ['NACA0012', 'NACA0009']


def image_cases(ctx):
    rng = ctx.rng('images')
    out = []
    for i in range(ctx.pick(120, 1500)):
        sym = [0, 1, 2, 3, 2][i % 5]
        ac = gen.aircraft(rng, syms=(sym, sym, 0), wings=(1, 2), ctls=(0, 3), num_s=(1, 3), num_c=(1, 4), given=1, twist=0.5,
                          foils=['NACA0012'] if i % 2 else laws.FOILS, vertical=0.3)
        for w in ac['wings']:
            for c in w.get('controls', []):
                if i % 3 == 0:
                    c.pop('deflection_mirror', None)
        out.append({'driver': 'pair', 'tag': f'images {sym}', 'panels': True,
                    'projects': [gen.project(ac, gen.state(rng, 1), gen.settings())]})
    for i in range(ctx.pick(4, 40)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'num_c'][i % 4], syms=(1, 2, 2, 3), foils=['NACA0012'], vertical=0.3)
        out.append({'driver': 'pair', 'tag': 'images large', 'panels': True, 'projects': [gen.project(ac, gen.state(rng, 1), gen.settings())]})
    return out


def image_trace(case, obs):
    ac = case['projects'][0]['aircraft']
    o = obs['runs'][0] if 'runs' in obs else {'outcome': obs['kind']}
    ev = [{'e': 'run', 'outcome': o['outcome']}]
    if o['outcome'] == 'ok':
        for w in ac['wings']:
            es = [e for e in o['entries'] if e['w'] == w['uid']]

            def patch(e):
                ix = e['idx']
                return {**{k: e[k] for k in ('s', 'ea', 'eb', 'type', 'u', 'n', 'hinge')}, 'panels': [o['p'][i] for i in ix],
                        'a': [o['a'][i] for i in ix], 'c': [o['c'][i] for i in ix], 'm': [o['m'][i] for i in ix], 'nv': [o['n'][i] for i in ix]}

            # patches of the image in the order of their originals
            def key(e):
                return e['s'], float(e['ea']), float(e['eb']), e['type'], e['u']
            main = sorted((e for e in es if not e['mirror']), key=key)
            image = sorted((e for e in es if e['mirror']), key=key)
            ev.append({'e': 'wing', 'w': w['uid'], 'main': [patch(e) for e in main], 'image': [patch(e) for e in image]})
    return {'ev': ev, 'ac': gen.norm_aircraft(ac)}


def law_cases(ctx):
    rng = ctx.rng('laws')
    out = []
    for _ in range(ctx.pick(50, 500)):
        for law in ('mirror', 'symmetric', 'two wings'):
            c = laws.case(rng, law)
            c['panels'] = True
            out.append(c)
    return out


class C07(Check):
    prop = 'C07'
    models = [Model('MC_Vlm', min_states=200), Model('MC_Vlm', 'MC_Vlm_deep', min_states=500, quick=False)]
    parts = [Part('images', 'T_Mirror', image_cases, image_trace), Part('flows', 'T_Laws', law_cases, laws.trace)]
    assumptions = ['Relative tolerance 1e-7 of the largest component for flows, 1e-9 m for points',
                   'Normals are compared where the image is in the xz plane and has the same deflections; '
                   'equal deflections of both sides of such a wing are symmetric',
                   'The front of an image in the yz plane faces the flow, so only its panels, controls and hinge lines are mirrored']


CHECK = C07()
