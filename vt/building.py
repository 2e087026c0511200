"""Histories of building aircraft with the API (C17, C22)"""
from vt.engine import Model

MODELS = [Model('MC_Building', quick=True, min_states=2000),
          Model('MC_Building', 'MC_Building_deep', quick=False, min_states=20000, timeout=1500),
          Model('MC_Building', 'MC_Building_gen', quick=True, min_states=100),
          Model('MC_Building', 'MC_Building_walk', quick=True, min_states=0, args=['-simulate', 'num=150', '-depth', '15', '-seed', '7'])]
ODD = [('list', ''), ('list', 'a'), ('float', '1.5'), ('bool', 'True'), ('bool', 'False'), ('int', '0'), ('none', ''), ('str', ''), ('str', '2'), ('int', '-1')]
BROKEN = ['area', 'chord', 'span', 'rcenter', 'a', 'd', 'airfoil', 'panels']
NEED_SEGMENT = {'a', 'd', 'airfoil', 'panels'}


def histories(ctx, n, broken):
    """Cases: every short history once, then long walks, some with odd values or unfinished models"""
    rng = ctx.rng('building')
    short = [x['hist'] for x in ctx.mc['MC_Building_gen']]
    walks = [x['hist'] for x in ctx.mc['MC_Building_walk']]
    longest = [h for h in walks if len(h) >= 9]
    pool = rng.sample(short, min(len(short), n//2))
    pool += rng.sample(longest, min(len(longest), n - len(pool)))
    out = []
    for h in pool:
        h = [dict(e) for e in h]
        if rng.random() < 0.3:
            # an odd value where one has no effect on what may follow
            i = rng.randrange(len(h))
            if h[i]['op'] in ('symmetry', 'type', 'name') or i == len(h) - 1:
                t, v = rng.choice(ODD)
                h[i]['v'] = {'t': t, 'v': v}
        acs = {e['a'] for e in h}
        what = {}
        for a in sorted(acs):
            b = rng.choice(['', '', *BROKEN]) if broken else ''
            if b in NEED_SEGMENT and not any(e['op'] == 'segment' and e['a'] == a and e['v']['t'] == 'str' and e['v']['v'] for e in h):
                b = 'span'
            what[a] = b
        out.append({'driver': 'build', 'tag': ' '.join(f"{e['a']}.{e['op']}({e['v']['v']})" for e in h) + f' {what}', 'hist': h, 'broken': what})
    return out


def observed(case, obs, want):
    if obs['kind'] != 'ok':
        return [{'op': 'failed', 'kind': obs['kind'], 'msg': obs.get('msg', '')}]
    return {'ev': obs['ev'], 'want': want}
