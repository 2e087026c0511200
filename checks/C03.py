"""C03: strips and patches tile every wing segment"""
from vt import gen
from vt.engine import Check, Model, Part

S, V = gen.S, gen.V

MC_SEG = {'a': ['0.0', '0.0', '0.0'], 'b': ['1.5', '4.0', '0.5'], 'c': ['2.5', '4.0', '0.5'], 'd': ['3.0', '0.0', '0.0']}


def rand_hist(rng, n):
    """Requests at positions on, almost on and off each other"""
    used = [0.0, 1.0]
    hist = []

    def eta():
        while True:
            k = rng.random()
            if k < 0.3:
                e = rng.choice(used)
            elif k < 0.55:
                e = rng.choice(used) + rng.choice([-1, 1])*rng.choice([1e-12, 0.0004, 0.005, 0.009, 0.0123, 0.02])
            elif k < 0.6:
                e = rng.choice([-0.2, 1.3])
            else:
                e = rng.uniform(0, 1)
            # nothing exactly at the minimum distance
            if all(abs(abs(e - u) - 0.01) > 1e-6 for u in used):
                used.append(e)
                return e

    for i in range(n):
        if rng.random() < 0.5:
            hist.append({'op': 'div', 'e': S(eta()), 'ignore': rng.random() < 0.5})
            continue
        while True:
            a, b = sorted((eta(), eta()))
            a = max(a, 0.0)
            if b > a and abs(b - a - 0.01) > 1e-6:
                break
        if b > 1:
            b = 1.0
            if b <= a:
                a = 0.5
        kind = rng.choice(['flap', 'slat'])
        x1, x2, h1, h2 = gen.control_shape(rng, kind, rng.random() < 0.5)
        k = rng.random()
        if k < 0.15:
            x1, x2 = sorted((rng.uniform(0.05, 0.95), rng.uniform(0.05, 0.95)), reverse=rng.random() < 0.5)
        nohinge = rng.random() < 0.15
        if nohinge:
            h1, h2 = x1, x2
        hist.append({'op': 'ctl', 'nohinge': nohinge,
                     'c': {'u': f'c{i}', 'type': kind, 'ea': S(a), 'eb': S(b),
                           'x1': S(x1), 'x2': S(x2), 'h1': S(h1), 'h2': S(h2)}})
    return hist


def cases(ctx):
    rng = ctx.rng('hist')
    out = []
    mc = ctx.mc['MC_Tiling'] + ctx.mc.get('MC_Tiling_deep', [])
    refused = [c for c in mc if c['last'] == 'refused']
    accepted = [c for c in mc if c['last'] != 'refused']
    for c in (rng.sample(refused, min(len(refused), ctx.pick(250, 3000)))
              + rng.sample(accepted, min(len(accepted), ctx.pick(450, 6000)))):
        out.append({'driver': 'tiling', 'tag': 'model history', 'seg': MC_SEG, 'hist': c['hist']})
    for i in range(ctx.pick(250, 4000)):
        v = gen.segment_chain(rng, 1, vertical=rng.random() < 0.2, twist=rng.random() < 0.5)[0]
        out.append({'driver': 'tiling', 'tag': 'random history', 'seg': {k: V(v[k]) for k in 'abcd'},
                    'hist': rand_hist(rng, rng.randint(2, 9))})
    return out


def trace(case, obs):
    if obs['kind'] != 'ok':
        return [{'e': obs['kind'], 'msg': obs.get('msg', '')}]
    o = obs['obs']
    ev = [{'e': 'new', 'v': case['seg'], 'ss': o[0]['ss']}]
    for op, x in zip(case['hist'], o[1:]):
        e = {'e': op['op'], 'outcome': x['outcome'], 'ss': x['ss'], 'ignore': bool(op.get('ignore'))}
        if op['op'] == 'div':
            e['x'] = op['e']
        else:
            e['c'] = op['c']
        ev.append(e)
    return ev


def run_cases(ctx):
    rng = ctx.rng('runs')
    out = []
    for i in range(ctx.pick(40, 500)):
        ac = gen.aircraft(rng, wings=(1, 2), ctls=(0, 4), num_s=(1, 6), clash=0.15)
        out.append({'driver': 'vlm', 'tag': 'run', 'want': ['model'],
                    'project': gen.project(ac, gen.state(rng, 1))})
    for i in range(ctx.pick(5, 60)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'ctls', 'num_s'][i % 5])
        out.append({'driver': 'vlm', 'tag': 'large', 'want': ['model'], 'project': gen.project(ac, gen.state(rng, 1))})
    return out


def run_trace(case, obs):
    if obs['kind'] == 'refused':
        # whether the controls fit is decided by C04
        return [{'e': 'model', 'ss': NEW}]
    if obs['kind'] != 'ok':
        return [{'e': obs['kind'], 'msg': obs.get('msg', '')}]
    return [{'e': 'model', 'ss': s['strips']} for w in obs['wings'] for s in w['segs']]


NOP = {'xsi': [], 'h': [], 'u': ''}
NEW = [{'eta': ['0.0', '1.0', '1.0', '0.0'], 'slat': NOP, 'flap': NOP, 'extra': [],
        'segment': {'xsi': ['0.0', '0.0', '1.0', '1.0'], 'h': [], 'u': ''}}]


def has(x, *ops):
    return tuple(h['op'] for h in x['hist']) == ops


class C03(Check):
    prop = 'C03'
    models = [
        Model('MC_Tiling', min_states=1000, must=[
            ('a refused request', lambda x: x['last'] == 'refused'),
            ('control, division, control', lambda x: has(x, 'ctl', 'div', 'ctl') and x['last'] == 'ok'),
            ('four strips', lambda x: x['n'] >= 4),
        ]),
        Model('MC_Tiling', 'MC_Tiling_deep', quick=False, min_states=1000),
    ]
    parts = [Part('history', 'T_Tiling', cases, trace), Part('runs', 'T_Tiling', run_cases, run_trace)]
    assumptions = ['Requested positions are never exactly at the minimum distance (0.01) of each other',
                   'Controls are requested with eta_b > eta_a']


CHECK = C03()
