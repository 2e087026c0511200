"""C20: runs are deterministic and isolated from earlier runs in the same process"""
import json

from vt import gen
from vt.engine import Check, Model, Part
from vt.vlmtrace import npanels

FILES = ['airfoils/blade.p4', 'airfoils/blade.m2']


def break_load(rng, p):
    se, ac = p['settings'], p['aircraft']
    how = rng.choice(['type', 'epsilon', 'file', 'area', 'state', 'angle', 'field', 'foil', 'segment'])
    if how == 'type':
        se['vlm_autopanels_c'] = 'two'
    elif how == 'epsilon':
        se['_epsilon'] = 2.0
    elif how == 'file':
        p['missing'] = [rng.choice(['aircraft/ac.json', 'state/st.json'])]
    elif how == 'area':
        ac['refs']['area'] = -1.0
    elif how == 'state':
        p['state']['aero']['mach'] = [0.3]*len(p['state']['aero']['alpha'])
    elif how == 'angle':
        p['state']['aero']['alpha'] = [x + 91 for x in map(abs, p['state']['aero']['alpha'])]
    elif how == 'field':
        se['deformation'] = 'd.json'
        p['deformation'] = {'w0': [[0.0]*9], 'nothing': [[0.0]*9]}
    elif how == 'foil':
        ac['wings'][0]['segments'][0]['airfoils']['outer'] = 'airfoils/nothing.dat'
    elif how == 'segment':
        c = next((c for w in ac['wings'] for c in w.get('controls', [])), None)
        if c is None:
            return break_load(rng, p)
        c['segment_uid']['outer'] = 'nothing'
    return p


def flaps(seg, n):
    return [{'uid': f'f{i}', 'device_type': 'flap', 'deflection': 5.0, 'segment_uid': {'inner': seg, 'outer': seg},
             'rel_vertices': {'eta_inner': 0.2, 'eta_outer': 0.8, 'xsi_inner': 0.7, 'xsi_outer': 0.7},
             'rel_hinge_vertices': {'xsi_inner': 0.7, 'xsi_outer': 0.7}} for i in range(n)]


def version(rng, kind, n):
    """One version of a project; the names are the same in all of them"""
    while True:
        ac = gen.aircraft(rng, wings=(1, 2), segs=(1, 2), ctls=(0, 2), num_c=(1, 2), num_s=(1, 3), given=0.6, twist=0.5,
                          foils=['NACA0012', 'NACA2412'] + FILES*2)
        if npanels(ac) <= 30:
            break
    ac['uid'] = 'ac'
    ks = [0.05, 0.03, -0.02, 0.01, -0.04]
    p = gen.project(ac, gen.state(rng, n), gen.settings(), files={f: gen.parabola_foil(rng.choice(ks)) for f in FILES})
    se = p['settings']
    se['vlm_autopanels_c'], se['vlm_autopanels_s'] = rng.randint(1, 2), rng.randint(1, 4)
    if rng.random() < 0.7:
        se['save_results'] = {k: rng.random() < 0.6 for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}
    if rng.random() < 0.3:
        # the default when not given
        for k in ('vlm_autopanels_c', 'vlm_autopanels_s'):
            se.pop(k)
        for w in ac['wings']:
            for s in w['segments']:
                s['panels'] = {'num_c': rng.randint(1, 2), 'num_s': rng.randint(1, 2)}
            for c in w.get('controls', []):
                c['panels'] = {'num_c': 1}
    if rng.random() < 0.25:
        se['_do_normal_rotations'] = False
    if rng.random() < 0.3:
        se['_epsilon'] = rng.choice([1e-6, 1e-3])
    if rng.random() < 0.3:
        w = ac['wings'][0]
        se['deformation'] = 'd.json'
        p['deformation'] = {'w0': [[*w['segments'][0]['vertices']['a'], 0, 0, 0, 0, 0, 0], [*w['segments'][-1]['vertices']['b'], 0, 0.1, 0.3, 0.05, 0, 0.02]]}
    if kind == 'load':
        p = break_load(rng, p)
    if kind == 'mesh':
        w = ac['wings'][-1]
        w['controls'] = flaps(w['segments'][0]['uid'], 2)
    return p


def case(rng, x, i):
    slots = {}
    for s in x['kind']:
        slots[s] = [{'project': version(rng, k, n), 'kind': k} for k, n in zip(x['kind'][s], x['n'][s])]
        # often the second version differs in one respect only
        if rng.random() < 0.5 and x['kind'][s] == ['ok', 'ok'] and x['n'][s][0] == x['n'][s][1]:
            a, b = slots[s][0]['project'], slots[s][1]['project']
            how = rng.choice(['files', 'state', 'refs', 'panels', 'save'])
            new = json.loads(json.dumps(a))
            if how == 'files':
                new['files'] = {f: gen.parabola_foil(rng.uniform(-0.06, 0.06)) for f in FILES}
            elif how == 'state':
                new['state'] = b['state']
            elif how == 'refs':
                new['aircraft']['refs'] = b['aircraft']['refs']
            elif how == 'panels':
                new['settings']['vlm_autopanels_c'] = rng.randint(1, 3)
            else:
                new['settings'].pop('save_results', None)
            slots[s][1]['project'] = new
    hist = []
    for e in x['hist']:
        e = dict(e)
        if e['op'] in ('spoil', 'spoilheld') and rng.random() < 0.5:
            continue
        if e['op'] == 'run':
            e['how'] = rng.choice(['abs', 'abs', 'rel', 'cd'])
            k = rng.choice(['verbose', 'debug', 'quiet', ''])
            e['flags'] = {k: True} if k else {}
        if e['op'] == 'load':
            e['direct'] = rng.random() < 0.5
        if e['op'] == 'step':
            e['fresh'] = rng.random() < 0.3
        hist.append(e)
    return {'driver': 'sessions', 'tag': f'{i} ' + ' '.join(e['op'] + str(e.get('s', e.get('h', ''))) for e in hist), 'slots': slots, 'hist': hist,
            'other': rng.randint(1, 10**6) if rng.random() < 0.2 else 0, 'timeout_factor': 2}


DB = ['NASA_CRM', 'boxwing', 'bwb', 'd150', 'optimale']


def db_cases(ctx):
    """Sessions with projects that are made from the database"""
    rng = ctx.rng('db')
    short = [x for x in ctx.mc['MC_Sessions_gen'] if len(x['hist']) == 3]
    walks = [x for x in ctx.mc['MC_Sessions_walk'] if len(x['hist']) >= 13]
    good = [x for x in short + walks if all(k == 'ok' for l in x['kind'].values() for k in l) and all(n == 1 for l in x['n'].values() for n in l)]
    good = sorted(good, key=lambda x: (worth(x), json.dumps(x)), reverse=True)[:3000]
    out = []
    for i, x in enumerate(rng.sample(good, min(len(good), ctx.pick(20, 250)))):
        c = case(rng, x, i)
        for s, vs in c['slots'].items():
            if s == 'A' or rng.random() < 0.5:
                vs[:] = [{'db': rng.choice(DB), 'kind': 'ok', 'settings': {
                    'vlm_autopanels_c': 1, 'vlm_autopanels_s': rng.randint(2, 4),
                    'save_results': {k: rng.random() < 0.5 for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}}} for _ in vs]
        c['tag'] = f"{'/'.join(v.get('db', '-') for vs in c['slots'].values() for v in vs)} {c['tag']}"
        out.append(c)
    return out


def worth(x):
    ops = [e['op'] for e in x['hist']]
    return ops.count('step') + 2*ops.count('run') + ops.count('save') - ops.count('edit') - 2*ops.count('spoil')


def cases(ctx):
    rng = ctx.rng('sessions')
    short = [x for x in ctx.mc['MC_Sessions_gen'] if len(x['hist']) == 3]
    walks = sorted((x for x in ctx.mc['MC_Sessions_walk'] if len(x['hist']) >= 13), key=lambda x: json.dumps(x))
    pool = rng.sample(short, ctx.pick(40, 1000))
    # of many walks those in which most happens
    more = rng.sample(walks, min(len(walks), ctx.pick(400, 5000)))
    more = sorted(more, key=worth, reverse=True)[:len(more)//2]
    pool += rng.sample(more, min(len(more), ctx.pick(60, 1200)))
    return [case(rng, x, i) for i, x in enumerate(pool)]


def trace(case, obs):
    if obs['kind'] != 'ok':
        return {'ev': [{'op': 'failed', 'kind': obs['kind'], 'msg': obs.get('msg', ''), 'where': obs.get('where', '')[-300:]}],
                'truth': {s: [] for s in case['slots']}}
    return {'ev': obs['ev'], 'truth': obs['truth']}


class C20(Check):
    prop = 'C20'
    models = [Model('MC_Sessions', quick=True, min_states=50000), Model('MC_Sessions', 'MC_Sessions_deep', quick=False, min_states=500000, timeout=800),
              Model('MC_Sessions', 'MC_Sessions_gen', quick=True, min_states=3000),
              Model('MC_Sessions', 'MC_Sessions_walk', quick=True, min_states=0, args=['-simulate', 'num=60', '-depth', '15', '-seed', '11'])]
    parts = [Part('sessions', 'T_Sessions', cases, trace), Part('db', 'T_Sessions', db_cases, trace)]
    assumptions = ['One thread; the log file is not a result file (the log of all runs of a process goes to the first project)',
                   'The truth about a version of a project is its run in a process of its own, for a fifth of the cases with another hash seed and other '
                   'contents of fresh memory as well']


CHECK = C20()
