"""C08: deflections and camber turn exactly the right normals by the right angle"""
from checks.C16 import field
from vt import gen
from vt.engine import Check, Model, Part
from vt.vlmtrace import case, patches

FOILS = ['NACA0012', 'NACA2412', 'NACA4415', 'naca1408', *gen.PARABOLAS, *gen.PARABOLAS]
SMOOTH = ['NACA0012', *gen.PARABOLAS]
FILES = {name: gen.parabola_foil(k) for name, k in gen.PARABOLAS.items()}


def cases(ctx):
    rng = ctx.rng('runs')
    out = []
    for i in range(ctx.pick(220, 2500)):
        rot = i % 8 != 0
        flat = i % 3 == 0
        ac = gen.aircraft(rng, wings=(1, 2), ctls=(0, 3), num_s=(1, 3), num_c=(1, 4), given=1, twist=0.5,
                          syms=(0, 2, 2, 2, 1), foils=['NACA0012', 'NACA0009'] if flat else FOILS)
        for w in ac['wings']:
            # NACA camber lines from the library are too rough at the leading edge
            if any(c['device_type'] == 'slat' for c in w.get('controls', [])):
                for sg in w['segments']:
                    sg['airfoils'] = {k: f if f in SMOOTH else rng.choice(SMOOTH) for k, f in sg['airfoils'].items()}
        if i % 10 == 1:
            # mirrored about the yz plane: symmetric airfoils only
            ac = gen.aircraft(rng, wings=(1, 2), ctls=(1, 3), num_s=(1, 3), num_c=(1, 4), given=1, syms=(3,))
        if i % 5 == 2:
            for w in ac['wings']:
                for c in w.get('controls', []):
                    c['deflection'] = rng.choice([90.0, -90.0, 0, 45.0, 0.0])
        se = {'_do_normal_rotations': False} if not rot else rng.choice([{}, {'_do_normal_rotations': True}])
        kw = {}
        if i % 3 == 1:
            # the wings, or some of their halves, are deformed
            d = {w['uid'] + '_m'*m: field(rng, w, m, rng.choice(['shift', 'turn', 'turn']))
                 for w in ac['wings'] for m in ([False, True] if w['symmetry'] else [False]) if rng.random() < 0.7}
            if d:
                se, kw = {**se, 'deformation': 'd.json'}, {'deformation': d}
        out.append(case(ac, gen.state(rng, 1), f'{"no " if not rot else ""}rotations{" deformed" if kw else ""}', ['model', 'lattice', 'foils'],
                        se=se, files=FILES, **kw))
    for i in range(ctx.pick(4, 40)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'num_c'][i % 4], syms=(0, 2, 2, 1), foils=['NACA0012', 'NACA0009'])
        out.append(case(ac, gen.state(rng, 1), 'large', ['model', 'lattice', 'foils'], se={}, files=FILES))
    return out


def trace(case, obs):
    p = case['project']
    ev = [{'e': 'run', 'outcome': obs['kind']}]
    if obs['kind'] == 'ok':
        ev += patches(obs)
    return {'ev': ev, 'ac': gen.norm_aircraft(p['aircraft']), 'rot': p['settings'].get('_do_normal_rotations', True),
            'fields': {k: [[gen.S(x) for x in row] for row in v] for k, v in p.get('deformation', {}).items()},
            'para': {k: gen.S(v) for k, v in gen.PARABOLAS.items()}}


class C08(Check):
    prop = 'C08'
    models = [Model('MC_Normals', min_states=5000, must=[])]
    parts = [Part('runs', 'T_Normals', cases, trace)]
    assumptions = ['Deformed wings: normals, hinge lines and camber axes are those of the moved strips', 'Normals are compared to 2e-4 (the airfoil library differentiates the camber line numerically)',
                   'Camber slopes of NACA airfoils are those of the airfoil library; parabolic camber lines (airfoil files) '
                   'are computed by the specification', 'Wings mirrored about the yz plane have symmetric airfoils',
                   'Wings with slats have symmetric airfoils or parabolic camber lines (the library is inaccurate near the nose of others)',
                   'Camber angles below 50 degrees (the airfoil library ignores steeper ones)']


CHECK = C08()
