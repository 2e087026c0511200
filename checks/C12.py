"""C12: result files appear exactly as requested and hold the computed results"""
from vt import gen
from vt.engine import Check, Model, Part
from vt.vlmtrace import small_aircraft

KINDS = ['global', 'panelwise', 'aeroperformance', 'matrix_system']
NAMES = ['run', 'my.set', 'x_1', 'a b', 'über', '007', 'global', 'template.json', 'a-b_c.d.e', 'v1.0']


def opts_dict(opts):
    o = {('matrix_system' if k == 'matrix' else k) for k in opts}
    return {k: k in o for k in KINDS}


def some_state(rng, n):
    st = gen.state(rng, n, alpha=20, beta=15)
    a = st['aero']
    k = rng.random()
    if k < 0.3:
        a['density'] = None
        a['altitude'] = [gen.r3(rng.uniform(0, 15000)) for _ in range(n)]
        if k < 0.15:
            a['airspeed'] = None
            a['mach'] = [gen.r3(rng.uniform(0.1, 0.7)) for _ in range(n)]
    return st


def make(rng, hist, tag):
    while True:
        # small numbers as well as large ones
        ac = small_aircraft(rng, 16, wings=(1, 2), segs=(1, 2), ctls=(0, 1), num_c=(1, 2), num_s=(1, 2), twist=0.5,
                            foils=['NACA0012', 'NACA2412'])
        break
    runs = []
    for h in hist:
        runs.append({'clean': h['clean'], 'opts': sorted(h['opts']), 'state': some_state(rng, h['n']),
                     'settings': {'save_results': opts_dict(h['opts'])}})
    p = gen.project(ac, None, gen.settings(), name=rng.choice(NAMES))
    return {'driver': 'files', 'tag': tag, 'project': p, 'runs': runs}


def text(hist):
    return ' then '.join(('clean ' if h['clean'] else '') + '+'.join(sorted(h['opts'])) + f' x{h["n"]}' for h in hist)


def cases(ctx):
    rng = ctx.rng('runs')
    hs = [x['runs'] for x in ctx.mc['MC_ResultFiles'] + ctx.mc.get('MC_ResultFiles_deep', [])]
    out = []
    # every pair (options first, then) at least by first and by second run
    by = {}
    for h in hs:
        by.setdefault(tuple(sorted(h[0]['opts'])), []).append(h)
    for o, l in sorted(by.items()):
        for h in rng.sample(l, min(len(l), ctx.pick(4, 40))):
            out.append(make(rng, h, text(h)))
    for i in range(ctx.pick(2, 8)):
        out.append(make(rng, [{'opts': KINDS[:3] + ['matrix'], 'n': 11, 'clean': False}], 'many points'))
    for n in ctx.pick([104], [52, 104, 230]):
        out.append(make(rng, [{'opts': ['global', 'aeroperformance', 'panelwise'], 'n': n, 'clean': False}], 'very many points'))
    for i in range(ctx.pick(4, 60)):
        n = [rng.randint(1, 4) for _ in range(3)]
        h = [{'opts': [k for k in KINDS[:3] + ['matrix'] if rng.random() < 0.6], 'n': m, 'clean': j > 0 and rng.random() < 0.3}
             for j, m in enumerate(n)]
        out.append(make(rng, h, text(h)))
    return out


def where(path):
    if path.startswith('_results/'):
        return 'results'
    if path.startswith('_plots/'):
        return 'plots'
    return 'log' if path == 'log.txt' else 'other'


def trace(case, obs):
    p = case['project']
    refs = gen.norm_aircraft(p['aircraft'])['refs']
    ev = []
    for step, o in zip(case['runs'], obs.get('runs', [])):
        if o['kind'] != 'ok':
            ev.append({'e': 'run', 'outcome': o['kind'], 'opts': step['opts'], 'n': 0, 'clean': step['clean'], 'after': {}})
            continue
        ev.append({'e': 'run', 'outcome': 'ok', 'opts': step['opts'], 'n': o['n'], 'clean': step['clean'],
                   **{k: o[k] for k in ('before', 'after', 'results', 'plain', 'last', 'lastplain', 'aero')},
                   'where': {f: where(f) for f in list(o['before']) + list(o['after'])}})
        for i, pt in enumerate(o['points']):
            e = {'e': 'point', 'i': i, **pt}
            if i == o['n'] - 1:
                e['last'] = o['last']
            # files of an earlier run may lie around
            for kind, keys in (('global', ['global']), ('panelwise', ['panel', 'phead', 'panelx']), ('matrix', ['matrix', 'mhead', 'matrixx'])):
                if kind not in step['opts']:
                    for k in keys:
                        e.pop(k, None)
            ev.append(e)
        if 'aeroperformance' in step['opts']:
            ev.append({'e': 'map', 'data': o['apmdata']})
    if not ev:
        ev = [{'e': 'run', 'outcome': str(obs.get('msg', obs.get('kind'))), 'opts': [], 'n': 0, 'clean': False, 'after': {}}]
    return {'ev': ev, 'base': p['name'], 'refs': {k: v for k, v in refs.items()}}


class C12(Check):
    prop = 'C12'
    models = [Model('MC_ResultFiles', min_states=2000), Model('MC_ResultFiles', 'MC_ResultFiles_deep', quick=False)]
    parts = [Part('runs', 'T_Files', cases, trace)]
    assumptions = ['Files of points before the last are compared with a run of that point alone (to the printed precision)',
                   'Without cleaning, files that an earlier run left and this run does not write stay',
                   'Project names without braces; fewer than 1000 points']


CHECK = C12()
