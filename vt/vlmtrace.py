"""Cases and traces of whole analyses, shared by several checks"""
from vt import gen


def case(ac, st, tag, want, *, se=None, **kw):
    return {'driver': 'vlm', 'tag': tag, 'want': want, 'project': gen.project(ac, st, gen.settings(**(se or {})), **kw)}


def npanels(ac, auto=4):
    """A rough number of panels (to keep cases small)"""
    n = 0
    for w in ac['wings']:
        for s in w['segments']:
            p = s.get('panels') or {}
            n += (p.get('num_c') or auto)*((p.get('num_s') or auto) + 2*len(w.get('controls', [])))*(2 if w['symmetry'] else 1)
    return n


def small_aircraft(rng, limit, **kw):
    while True:
        ac = gen.aircraft(rng, **kw)
        if npanels(ac) <= limit:
            return ac


def patches(obs):
    """One event per bookkeeping entry, with its panels' data"""
    out = []
    for e in obs['entries']:
        ix = e['idx']
        ev = {'e': 'patch', **{k: e[k] for k in ('w', 's', 'ea', 'eb', 'type', 'u', 'n', 'mirror')}, 'xsi': e['rect']['xsi'],
              'h': e['rect']['h']}
        for k, src in (('p', 'p'), ('v', 'v'), ('c', 'c'), ('nv', 'n'), ('a', 'a'), ('m', 'm')):
            ev[k] = [obs[src][i] for i in ix]
        if 'cam' in obs:
            ev['cam'] = obs['cam'][len(out)]
        out.append(ev)
    return out



def sampled(n, limit, k):
    """Panels (from 1) that are looked at: all of a small lattice, k of a large one"""
    return set(range(1, n + 1)) if n <= limit else {1 + round(j*(n - 1)/(k - 1)) for j in range(k)}


def flow_case(rng, i, tag, want, *, limit=16):
    """An aircraft with few panels in any flow; every fifth case has several flight points"""
    big = limit > 100
    ac = small_aircraft(rng, limit, wings=(2, 4) if big else (1, 2), segs=(2, 3) if big else (1, 2), ctls=(0, 2),
                        num_c=(2, 5) if big else (1, 3), num_s=(1, 4 if big else 3), given=1, twist=0.5,
                        foils=['NACA0012', 'NACA2412', 'NACA4415'])
    while limit > 500 and not 300 < npanels(ac) <= limit:
        ac = gen.large(rng, rng.choice(['num_c', 'num_s']), num_c=(6, 12), num_s=(6, 12), twist=0.5)
    n = 3 if i % 5 == 0 else 1
    big = i % 7 == 0
    st = gen.state(rng, n, alpha=85 if big else 12, beta=60 if big else 8)
    if i % 11 == 0:
        # stop the flow or the rotation
        for k in ('rate_P', 'rate_Q', 'rate_R'):
            st['aero'][k] = [0.0]*n
    se = {}
    if i % 4 == 0:
        se['_epsilon'] = rng.choice([1e-9, 1e-4, 1e-3, 1e-7])
    if i % 9 == 0:
        se['_do_normal_rotations'] = False
    return case(ac, st, tag, want, se=se)


def flow_fields(case, obs):
    """What a trace of a flow carries besides its events"""
    p = case['project']
    n = len(p['state']['aero']['alpha'])
    ok = obs['kind'] == 'ok'
    return {'refs': gen.norm_aircraft(p['aircraft'])['refs'], 'pt': gen.norm_point(p['state'], n - 1),
            'eps': gen.S(p['settings'].get('_epsilon', 1e-6)),
            'v': obs['v'] if ok else [], 'gamma': obs['gamma'] if ok else []}
