"""C01: flight points are accepted, derived and refused as documented"""
import json

from vt.engine import Check, Model, Part

SPEED = {'airspeed': (0.5, 320), 'density': (0.02, 1.6), 'altitude': (-4900, 79000), 'mach': (0.01, 2.5)}
ANGLES = ('alpha', 'beta')
RATES = ('rate_P', 'rate_Q', 'rate_R')
ORDER = list(SPEED) + list(ANGLES) + list(RATES)


def raw(x):
    """A JSON number, sometimes an integer"""
    return json.dumps(x)


def value(rng, key, hint=None):
    if key in SPEED:
        lo, hi = SPEED[key]
        if key == 'altitude':
            r = rng.random()
            if r < 0.25:
                return rng.choice([0, 11000, 11019.07, 20000, 20063.1, 32000, 47000, 51000, 71000, -5000, 80000, 81000])
            if r < 0.5:
                return rng.uniform(0, 12000)
        x = rng.uniform(lo, hi)
        return round(x) + 1 if rng.random() < 0.2 and key not in ('density', 'mach') else x
    if key in ANGLES:
        if hint is not None and float(hint) != 2.0:
            return float(hint)
        r = rng.random()
        if r < 0.15:
            return rng.choice([0, 0.0, 90, -90, 45, 89.999])
        return rng.uniform(-90, 90)
    return rng.choice([0, 0.0]) if rng.random() < 0.2 else rng.uniform(-3, 3)


def entry(rng, key, k, n, hint=None):
    if k in ('absent', 'null'):
        return {'k': k, 'raw': [], 'v': []}
    vals = [value(rng, key) for _ in range(n)]
    if hint is not None and float(hint) != 2.0:
        # an out-of-range angle may be anywhere in the list
        vals[rng.randrange(n)] = float(hint)
    return {'k': k, 'raw': [raw(v) for v in vals], 'v': [repr(float(v)) for v in vals]}


def cases(ctx):
    rng = ctx.rng('cases')
    out = []
    shapes = ctx.mc['MC_FlightState']
    ok = [s for s in shapes if s['ok']]
    bad = [s for s in shapes if not s['ok']]
    angle = [s for s in shapes if s['alpha'] != '2.0' or s['beta'] != '2.0']
    pick = ok * ctx.pick(2, 12) + angle * ctx.pick(1, 10) + rng.sample(bad, min(len(bad), ctx.pick(150, 2000)))
    for s in pick:
        inp = {}
        for key in ORDER:
            sh = s['shape'][key]
            inp[key] = entry(rng, key, sh['k'], sh['n'], s[key] if key in ANGLES else None)
        tag = '+'.join(f'{k}:{inp[k]["k"]}{len(inp[k]["v"])}' for k in SPEED if inp[k]['k'] != 'absent')
        out.append({'driver': 'state', 'tag': f'shape {tag}', 'via': rng.choice(['api', 'file']), 'inp': inp})
    # long maps with all three input combinations, nulls or absent for the rest
    for i in range(ctx.pick(60, 600)):
        n = rng.choice([1, 2, 3, 5, 8, 20])
        pair = rng.choice([('airspeed', 'density'), ('airspeed', 'altitude'), ('mach', 'altitude')])
        inp = {}
        for key in SPEED:
            inp[key] = entry(rng, key, 'list' if key in pair else rng.choice(['absent', 'null']), n)
        for key in ANGLES + RATES:
            inp[key] = entry(rng, key, 'list', n)
        if rng.random() < 0.3:
            # one angle beyond the limits, at one point only
            key = rng.choice(ANGLES)
            j = rng.randrange(n)
            x = rng.choice([-1, 1])*rng.choice([90.0000001, 90.5, 120.0, 360.0, 1e9])
            inp[key]['v'][j] = repr(x)
            inp[key]['raw'][j] = raw(x)
        if rng.random() < 0.15:
            # one list of another length
            key = rng.choice([k for k in ORDER if inp[k]['k'] == 'list'])
            inp[key] = entry(rng, key, 'list', n + 1)
        if rng.random() < 0.1:
            key = 'altitude'
            if inp[key]['k'] == 'list':
                x = rng.choice([-6000.0, 90000.0])
                inp[key]['v'][-1] = repr(x)
                inp[key]['raw'][-1] = raw(x)
        out.append({'driver': 'state', 'tag': f'map {"+".join(pair)}', 'via': rng.choice(['api', 'file']), 'inp': inp})
    return out


def trace(case, obs):
    outcome = {'ok': 'accepted', 'refused': 'refused'}.get(obs['kind'], obs['kind'])
    inp = {k: {'k': e['k'], 'v': e['v']} for k, e in case['inp'].items()}
    ev = [{'e': 'update', 'inp': inp, 'outcome': outcome}]
    if obs['kind'] == 'ok':
        ev += [{'e': 'point', **p} for p in obs['pts']]
    return ev + [{'e': 'end'}]


class C01(Check):
    prop = 'C01'
    models = [Model('MC_FlightState', actions=('Update', 'Accept', 'Refuse', 'NextPoint'), min_states=1000)]
    parts = [Part('state', 'T_FlightState', cases, trace)]
    assumptions = ['Inputs are JSON numbers, lists of numbers and nulls; angles and rates are always given',
                   'The standard atmosphere of spec/Atmosphere.tla (ISO 2533), relative tolerance 1e-6']


CHECK = C01()
