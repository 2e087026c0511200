"""C18: CPACS import and export"""
from vt import gen
from vt.engine import Check, Model, Part


def num(x):
    return repr(float(x))


def foil(rng):
    """Points from the trailing edge over the upper side back along the lower side"""
    c = rng.uniform(-0.04, 0.05)
    xs = [1.0, 0.9, 0.7, 0.5, 0.3, 0.15, 0.05, 0.01, 0.0]
    top = [(x, 4*c*x*(1 - x) + 0.3*(x**0.5 - x)*0.2) for x in xs]
    low = [(x, 4*c*x*(1 - x) - 0.3*(x**0.5 - x)*0.2) for x in reversed(xs)]
    return [[f'{x:.6f}', f'{z:.9f}'] for x, z in top + low[1:]]


def document(rng, plain, large=False):
    """An aircraft of the shape of the specification's: two wings, three controls"""
    def q(a, b, n=256):
        return round(rng.uniform(a, b)*n)/n
    fancy = [] if plain else rng.sample(['.', ' ', '(x)'], 1)
    names = [f'f{i}' + ''.join(fancy) for i in (1, 2)]

    def segments(uid, n, fin, down):
        out, y, x, z, c = [], 0.0, q(0, 4), q(-1, 1), q(1, 3)
        if fin:
            y = q(-1, 1)
        for i in range(n):
            s, dx, c2 = q(0.5, 3), q(-0.5, 1), q(0.5, 2)
            dz = q(-0.25, 0.25)
            y2, z2 = (y, z + s) if fin else (y + s, z + dz)
            p = {'a': [x, y, z], 'b': [x + dx, y2, z2], 'c': [x + dx + c2, y2, z2], 'd': [x + c, y, z]}
            if not fin and rng.random() < 0.4:
                p['c'][2] += q(-0.1, 0.1)
            out.append({'uid': f'{uid}{rng.choice(["_", ".", "-"])}s{i}', 'p': {k: [num(v) for v in u] for k, u in p.items()},
                        't': [num(0), num(0.0 if not fin else 0.125), num(0.125 if not fin else 0.0)], 'fi': rng.choice(names), 'fo': rng.choice(names)})
            x, y, z, c = x + dx, y2, z2, c2
        return out

    def ctl(uid, a, b):
        te = (num(a + q(-0.02, 0.02)), num(b + q(-0.02, 0.02)))
        return {'uid': uid, 'ei': num(a), 'eo': num(b), 'tei': te[0], 'teo': te[1], 'xi': num(q(0.6, 0.8)), 'xo': num(q(0.6, 0.8)),
                'hi': num(q(0.6, 0.8)), 'ho': num(q(0.6, 0.8))}
    fin = rng.random() < 0.4
    w1 = {'uid': 'W1' if plain else 'Wing.1', 'named': True, 'sym': rng.choice(['2', '2', '0', '1', '3']), 'segs': segments('A', 2, False, False),
          'csegs': [{'uid': 'c1', 'segs': [1, 2], 'borders': ['0.0', num(q(0.45, 0.55)), '1.0'], 'shift': num(rng.choice([0, 0.0625])),
                     'ctls': [ctl('k1', q(0.05, 0.15), q(0.2, 0.3)), ctl('k2', q(0.35, 0.4), q(0.6, 0.95))]}]}
    w2 = {'uid': 'W2' if plain else 'fin 2', 'named': rng.random() < 0.8, 'sym': rng.choice(['0', '2']) if not fin else '0', 'segs': segments('B', 1, fin, False),
          'csegs': [{'uid': 'c2', 'segs': [1], 'borders': ['0.0', '1.0'], 'shift': '0.0', 'ctls': [ctl('k3', q(0.1, 0.4), q(0.5, 0.9))]}]}
    # far enough apart that no horseshoe passes through the other wing
    for s in w2['segs']:
        for p in s['p'].values():
            p[2] = num(float(p[2]) + 8)

    wings = [w1, w2]
    if large:
        # one more wing, of many segments and controls
        borders = [k/16 for k in range(17)]
        w3 = {'uid': 'W3', 'named': True, 'sym': rng.choice('0213'), 'segs': segments('D', rng.randint(10, 13), False, False), 'csegs': []}
        w3['csegs'] = [{'uid': 'c3', 'segs': list(range(1, len(w3['segs']) + 1)), 'borders': [num(b) for b in borders[:len(w3['segs'])]] + ['1.0'], 'shift': '0.0',
                        'ctls': [ctl(f'q{k}', borders[k] + 0.01, borders[k] + 0.05) for k in rng.sample(range(len(w3['segs'])), 9)]}]
        for s in w3['segs']:
            for p in s['p'].values():
                p[2] = num(float(p[2]) - 8)
        wings.append(w3)

    def points(n):
        return {'alt': [num(q(0, 5000, 1)) for _ in range(n)], 'mach': [num(q(0.1, 0.6)) for _ in range(n)],
                'aoa': [num(q(-8, 8, 8)) for _ in range(n)], 'aos': [num(q(-5, 5, 8)) for _ in range(n)]}
    doc = {'hasWings': True, 'uid': 'my aircraft' if not plain else 'ac', 'refs': {'p': [num(q(0, 3)), num(q(-1, 1)), num(q(-1, 1))], 'area': num(q(3, 30)), 'length': num(q(1, 9))},
           'wings': wings, 'devs': [{'uid': 'k1', 'd': num(q(-15, 15)), 'dm': num(q(-15, 15))}, {'uid': 'k3', 'd': num(q(-15, 15)), 'dm': ''}],
           'maps': [{'uid': 'm1', **points(rng.randint(10, 13) if large else 2)}, {'uid': 'm2', **points(1)}], 'sel': rng.choice(['m1', 'm1', 'm2'])}
    extra = {'foils': {n: foil(rng) for n in names}, 'leading': rng.random() < 0.4, 'nodevices': rng.random() < 0.5}
    return doc, extra


def case(rng, h, large=False):
    doc, extra = document(rng, rng.random() < 0.4, large)
    h = [dict(e) for e in h]
    for e in h:
        if e['op'] == 'sym':
            e['v'] = rng.choice('0123')
        if e['op'] == 'deflect':
            e['v'], e['m'] = (num(rng.randint(-90, 90)/8) if x else '' for x in (e['v'], e['m']))
        if e['op'] == 'point':
            e.update(alt=num(rng.randint(0, 9000)), mach=num(rng.randint(10, 60)/100), aoa=num(rng.randint(-9, 9)), aos=num(rng.randint(-9, 9)))
    return {'driver': 'cpacs', 'tag': ' '.join(e['op'] + str(e.get('w', e.get('i', ''))) + str(e.get('v', '')) for e in h), 'doc': doc, 'extra': extra, 'hist': h}


def cases(ctx):
    rng = ctx.rng('histories')
    short = [x['hist'] for x in ctx.mc['MC_Cpacs_gen']]
    walks = [x['hist'] for x in ctx.mc['MC_Cpacs_walk'] if len(x['hist']) >= 8]
    pool = rng.sample(short, ctx.pick(100, len(short))) + rng.sample(walks, ctx.pick(60, min(1000, len(walks))))
    out = []
    for i, h in enumerate(pool):
        # every history ends with an analysis or an export
        h = h + [{'op': rng.choices(['run', 'export', 'native'], [6, 2, 2])[0]}]
        out.append(case(rng, h, i % 32 == 9))
    return out


def trace(case, obs):
    if obs['kind'] != 'ok':
        return [{'op': 'failed', 'kind': obs['kind'], 'msg': obs.get('msg', ''), 'where': obs.get('where', '')[-300:]}]
    return {'ev': obs['ev'], 'profiles': [{'name': n, 'points': p} for n, p in case['extra']['foils'].items()]}


class C18(Check):
    prop = 'C18'
    models = [Model('MC_Cpacs', quick=True, min_states=10000), Model('MC_Cpacs', 'MC_Cpacs_deep', quick=False, min_states=100000, timeout=1500),
              Model('MC_Cpacs', 'MC_Cpacs_gen', quick=True, min_states=500),
              Model('MC_Cpacs', 'MC_Cpacs_walk', quick=True, min_states=0, args=['-simulate', 'num=150', '-depth', '10', '-seed', '3'])]
    parts = [Part('histories', 'T_Cpacs', cases, trace)]
    assumptions = ['TiXI and TiGL are not available: stand-ins with their documented behaviour take their place; the geometry library is a table of corner points',
                   'Leading edge devices are not imported (their borders have no xsiLE); wings have at least one segment and segments have uids']


CHECK = C18()
