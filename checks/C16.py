"""C16: deformation fields move exactly the wings they name"""
from vt import gen
from vt.engine import Check, Model, Part
from vt.vlmtrace import case, patches

# ways to have no deformation
NONE = [{}, {'deformation': None}, {'deformation': False}]
UIDS = ['w0', 'w_main', 'a_m_b', 'm', 'main_m_x', 'Wing']
IGNORED = ['_w0', '_', '_w0_m', '_w_main', '__zz']
UNKNOWN = ['zz', 'wain_m', 'W0', 'ab', 'zz_m', 'w0_M', 'w0_mirror', ' w0', 'w0_m_m']


def names(rng, ac):
    for w, uid in zip(ac['wings'], rng.sample(UIDS, len(ac['wings']))):
        w['uid'] = uid
    return ac


def mirrored(sym, p):
    return [-x if sym and i == 3 - sym else x for i, x in enumerate(p)]


def field(rng, w, mirror, kind):
    """Entries near the (mirrored) wing"""
    pts = [p for s in w['segments'] for p in s['vertices'].values()]
    n = 1 if rng.random() < 0.2 else rng.randint(2, 6)
    rows = []
    for _ in range(n):
        p = [x + rng.uniform(-0.7, 0.7) for x in rng.choice(pts)]
        if mirror:
            p = mirrored(w['symmetry'], p)
        if kind == 'zero':
            d = [0.0]*6
        else:
            d = [round(rng.uniform(-0.3, 0.3), 3) if rng.random() < 0.7 else 0.0 for _ in range(3)]
            d += [round(rng.uniform(-0.15, 0.15), 3) if kind == 'turn' and rng.random() < 0.6 else 0.0 for _ in range(3)]
        rows.append([round(x, 4) for x in p] + d)
    return rows


def deform(rng, ac, extra):
    out = {}
    for w in ac['wings']:
        for mirror in ([False, True] if w['symmetry'] else [False]):
            if rng.random() < 0.6:
                out[w['uid'] + ('_m' if mirror else '')] = field(rng, w, mirror, rng.choice(['shift', 'turn', 'turn', 'zero']))
    for n in extra:
        if n not in out:
            out[n] = field(rng, rng.choice(ac['wings']), False, 'shift')
    items = list(out.items())
    rng.shuffle(items)
    return dict(items)


def run_case(rng, ac, d, tag, n):
    return case(ac, gen.state(rng, n), tag, ['model', 'lattice'], se={'_do_normal_rotations': False, 'deformation': 'd.json'}, deformation=d)


def cases(ctx):
    rng = ctx.rng('fields')
    out = []
    for i in range(ctx.pick(110, 1500)):
        ac = names(rng, gen.aircraft(rng, wings=(1, 3), ctls=(0, 2), num_s=(1, 3), num_c=(1, 3), twist=0.5, given=1, syms=(0, 2, 2, 1, 3)))
        extra = rng.sample(IGNORED, rng.choice([0, 0, 1, 2]))
        d = deform(rng, ac, extra)
        out.append(run_case(rng, ac, d, 'fields of ' + ' '.join(sorted(d)), rng.choice([1, 1, 2, 3])))
    for i in range(ctx.pick(5, 40)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'num_c', 'num_s'][i % 5], twist=0.5)
        d = deform(rng, ac, [])
        # a fine field as well
        w = rng.choice(ac['wings'])
        d[w['uid']] = [row for _ in range(40) for row in field(rng, w, False, 'turn')][:rng.choice([101, 120])]
        out.append(run_case(rng, ac, d, 'large ' + ' '.join(sorted(d)), 1))
    # every combination of names, from the model
    mc = ctx.mc['MC_Deformation']
    refused = [x for x in mc if x['outcome'] == 'refused']
    good = [x for x in mc if x['outcome'] == 'ok']
    wide = {}
    for x in rng.sample(good, min(len(good), ctx.pick(40, 500))) + rng.sample(refused, ctx.pick(30, 300)):
        ac = gen.aircraft(rng, wings=(4, 4), segs=(1, 1), ctls=(0, 0), num_s=(1, 2), num_c=(1, 1), given=1, syms=(1, 2, 3))
        for w, uid in zip(ac['wings'], ['w0', 'w_main', 'a_m_b', 'm']):
            w['uid'] = uid
        by = {w['uid']: w for w in ac['wings']}
        d = {}
        for n in sorted(x['file']):
            m = n.endswith('_m')
            w = by.get(n[:-2] if m else n) or rng.choice(ac['wings'])
            d[n] = field(rng, w, m, rng.choice(['shift', 'turn']))
        out.append(run_case(rng, ac, d, 'names ' + ' '.join(sorted(d)), 1))
    for _ in range(ctx.pick(20, 200)):
        ac = names(rng, gen.aircraft(rng, wings=(1, 2), ctls=(0, 1), num_s=(1, 2), num_c=(1, 2), given=1))
        d = deform(rng, ac, [rng.choice(UNKNOWN)])
        out.append(run_case(rng, ac, d, 'unknown ' + ' '.join(sorted(d)), 1))
    return out


def trace(case, obs):
    p = case['project']
    d = p['deformation']
    ev = [{'e': 'run', 'outcome': obs['kind'], 'names': sorted(d), 'ignored': sorted(n for n in d if n.startswith('_'))}]
    if obs['kind'] == 'ok':
        ev += patches(obs)
    n = len(p['state']['aero']['alpha'])
    return {'ev': ev, 'ac': gen.norm_aircraft(p['aircraft']), 'pt': gen.norm_point(p['state'], n - 1),
            'fields': {k: [[gen.S(x) for x in row] for row in v] for k, v in d.items() if not k.startswith('_')}}


def rigid_cases(ctx):
    rng = ctx.rng('rigid')
    out = []
    for i in range(ctx.pick(60, 700)):
        ac = names(rng, gen.aircraft(rng, wings=(1, 2), ctls=(0, 2), num_s=(1, 3), num_c=(1, 3), twist=0.5, given=1,
                                     foils=['NACA0012'] if i % 2 else gen.FOILS))
        st = gen.state(rng, rng.choice([1, 1, 2]), rates=False)
        by = [round(rng.uniform(-0.4, 0.4), 2) for _ in range(3)]
        moved = {**ac, 'refs': {**ac['refs'], 'rcenter': [x + y for x, y in zip(ac['refs']['rcenter'], by)],
                                'gcenter': [x + y for x, y in zip(ac['refs']['gcenter'], by)]}}
        zero, shift = {}, {}
        for w in ac['wings']:
            for m in ([False, True] if w['symmetry'] else [False]):
                f = field(rng, w, m, 'zero')
                name = w['uid'] + ('_m' if m else '')
                # a half without a field stays where it is, as with zeros
                if rng.random() < 0.8 or not zero:
                    zero[name] = f
                shift[name] = [row[:3] + by + [0.0]*3 for row in f]
        se = gen.settings(deformation='d.json')
        out.append({'driver': 'pair', 'tag': 'rigid', 'panels': True, 'by': by, 'projects': [
            gen.project(ac, st, gen.settings(**rng.choice(NONE))), gen.project(ac, st, se, deformation=zero), gen.project(moved, st, se, deformation=shift)]})
    return out


def rigid_trace(case, obs):
    runs = obs['runs'] if 'runs' in obs else [{'outcome': obs['kind']}]*3
    a = case['projects'][0]['state']['aero']
    q = max(0.5*r*v*v for r, v in zip(a['density'], a['airspeed']))
    e = {'e': 'rigid', 'by': gen.V(case['by'])}
    area = 1.0
    for k, r in zip(('none', 'zero', 'shifted'), runs):
        e[k] = {x: r[x] for x in ('outcome', 'p', 'n', 'forces') if x in r}
        area = sum(float(x) for x in r.get('a', [])) or area
    # strongly loaded lattices, almost singular ones among them, have forces beyond that
    e['scale'] = gen.S(max([q*area] + [abs(float(x)) for x in runs[0].get('forces', {}).values()]))
    return {'ev': [e], 'ac': gen.norm_aircraft(case['projects'][0]['aircraft'])}


class C16(Check):
    prop = 'C16'
    models = [Model('MC_Deformation', min_states=50000)]
    parts = [Part('fields', 'T_Deform', cases, trace), Part('rigid', 'T_Deform', rigid_cases, rigid_trace)]
    assumptions = ['A point moves as if rigidly attached to the closest entry of the field (rotations in radians), as in the AeroFrame library',
                   'uids that end in _m or start with an underscore are not used for wings',
                   'Forces are compared to 1e-5 of dynamic pressure times area (of the largest force or moment if that is more), normals to 1e-6, panels to 1e-9 m']


CHECK = C16()
