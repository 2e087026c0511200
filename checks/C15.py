"""C15: saving and reloading a model preserves it"""
from vt import gen
from vt.engine import Check, Model, Part

NAMES = {'rel': ['airfoils/blade.p4', 'airfoils/p4.dat', 'airfoils/sub/blade.m2', 'airfoils/blade.sub.p1', 'airfoils/A b.txt'],
         'inside': ['@HERE@/proj/airfoils/blade.p4', '@HERE@/proj/airfoils/p4.dat', '@HERE@/proj/airfoils/sub/blade.m2'],
         'path': ['@HERE@/ext/blade.out', '@HERE@/ext/out.dat', '@HERE@/ext/airfoils/blade.out'],
         'name': ['NACA2412', 'naca0012', 'NACA0000']}


def project(rng, foilkind, large=''):
    if large and large != 'points':
        ac = gen.large(rng, large)
    else:
        ac = gen.aircraft(rng, wings=(1, 2), segs=(1, 2), ctls=(0, 2), num_c=(1, 2), num_s=(1, 2), given=0.5, clash=0.0)
    p4, m2 = gen.parabola_foil(0.04), gen.parabola_foil(-0.02)
    for w in ac['wings']:
        for s in w['segments']:
            for k in ('inner', 'outer'):
                s['airfoils'][k] = rng.choice(NAMES[foilkind if rng.random() < 0.7 else rng.choice(['name', 'rel'])])
            if rng.random() < 0.3:
                s['vertices']['a'] = [float(x) for x in s['vertices']['a']]
    if rng.random() < 0.4:
        ac['refs']['comment'] = rng.choice(['', 'from "somewhere"', 'ü'])
    if rng.random() < 0.3:
        ac['refs']['area'] = 7
    n = rng.choice([9, 11, 13]) if large == 'points' else rng.choice([1, 1, 2, 3])
    st = gen.state(rng, n)
    a = st['aero']
    kind = rng.choice(['speed', 'speed', 'mach', 'height'])
    if kind != 'speed':
        a['density'] = None
        a['altitude'] = [round(rng.uniform(0, 12000), 1) for _ in range(n)]
        if kind == 'mach':
            a['airspeed'], a['mach'] = None, [round(rng.uniform(0.05, 0.6), 3) for _ in range(n)]
    if n == 1 and rng.random() < 0.6:
        a.update({k: v[0] for k, v in a.items() if v is not None})
    if rng.random() < 0.3:
        for k in [k for k, v in a.items() if v is None]:
            del a[k]
    se = {'aircraft': rng.choice(['ac.json', 'b.c.JSON']), 'state': rng.choice(['st.json', 'plain']),
          'vlm_autopanels_c': rng.randint(1, 2), 'vlm_autopanels_s': rng.randint(1, 4)}
    if rng.random() < 0.5:
        se['save_results'] = {'global': True, 'panelwise': rng.random() < 0.5}
    if rng.random() < 0.5:
        se['plot'] = {'results': {'opt': ['cp', 'gamma']}, 'lattice': {'opt': ['deformation']}}
    files = {'airfoils/blade.p4': p4, 'airfoils/p4.dat': p4, 'airfoils/sub/blade.m2': m2, 'airfoils/blade.sub.p1': m2, 'airfoils/A b.txt': p4}
    return gen.project(ac, st, se, name=rng.choice(['run', 'a.b']), files=files), {'ext/blade.out': m2, 'ext/out.dat': p4, 'ext/airfoils/blade.out': p4}


def case(rng, h, large=''):
    p, outside = project(rng, h['foil'], large)
    return {'driver': 'storage', 'tag': h['foil'] + ': ' + ' '.join(c['op'] + ('.' + c['k'][:2] if 'k' in c else '') for c in h['hist']),
            'project': p, 'outside': outside, 'hist': h['hist'], 'seed': rng.random()}


def worth(h):
    ops = [c['op'] for c in h['hist']]
    return ops.count('save')*2 + ops.count('run') + ops.count('compute') + ops.count('edit')


def cases(ctx):
    rng = ctx.rng('histories')
    out = []
    hs = [h for h in ctx.mc['MC_Storage_gen'] if any(c['op'] == 'save' for c in h['hist'])]
    good = [h for h in hs if worth(h) >= 3]
    for h in rng.sample(good, min(len(good), ctx.pick(90, 1500))) + rng.sample(hs, min(len(hs), ctx.pick(40, 500))):
        out.append(case(rng, h))
    walks = {}
    for h in ctx.mc['MC_Storage_walk']:
        if len(h['hist']) == 12 and worth(h) >= 4:
            walks.setdefault(str(h['hist'][:-1]), []).append(h)
    for k in rng.sample(sorted(walks), min(len(walks), ctx.pick(90, 900))):
        out.append(case(rng, rng.choice(walks[k])))
    # the whole way: everything is loaded, edited, saved and used again, in another place
    for _ in range(ctx.pick(40, 500)):
        h = []
        kinds = ['aircraft', 'state', 'settings']
        for _ in range(rng.choice([1, 2, 3])):
            h += [{'op': 'load', 'k': 'settings'}] + [{'op': rng.choice(['load', 'load', 'load', 'make']), 'k': k} for k in ('aircraft', 'state')]
            h += [{'op': 'edit', 'k': rng.choice(kinds)} for _ in range(rng.randint(0, 2))]
            h += rng.choice([[], [{'op': 'compute'}]])
            h += [{'op': 'save', 'k': k} for k in rng.choice([kinds, kinds, kinds*2])] + [{'op': 'run'}]
            h += rng.choice([[], [{'op': 'move'}, {'op': 'run'}]])
        out.append(case(rng, {'foil': rng.choice(['rel', 'rel', 'name', 'path', 'inside']), 'hist': h}))
    for i in range(ctx.pick(8, 60)):
        h = [{'op': op, 'k': k} for op in ('load', 'save') for k in ('settings', 'aircraft', 'state')] + [{'op': 'run'}]
        out.append(case(rng, {'foil': rng.choice(['rel', 'name']), 'hist': h + h[:3] + [{'op': 'edit', 'k': 'aircraft'}] + h[3:]},
                        ['wings', 'segs', 'ctls', 'points'][i % 4]))
    return out


def trace(case, obs):
    return obs.get('ev') or [{'op': 'load', 'outcome': str(obs.get('msg')), 'k': 'state', 'mem': {}, 'file': {}, 'text': {}}]


class C15(Check):
    prop = 'C15'
    models = [Model('MC_Storage', min_states=15000), Model('MC_Storage', 'MC_Storage_deep', quick=False),
              Model('MC_Storage', 'MC_Storage_gen', min_states=3000),
              Model('MC_Storage', 'MC_Storage_walk', min_states=0, args=['-simulate', 'num=300', '-depth', '13', '-seed', '7'])]
    parts = [Part('histories', 'T_Storage', cases, trace)]
    assumptions = ['Hidden settings are not part of the settings file (they return to their defaults)',
                   'Segments are given by their four corner points',
                   'Results are compared with a relative tolerance of 1e-9']


CHECK = C15()
