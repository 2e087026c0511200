"""C22: iteration over models visits everything once, in order"""
from vt import gen
from vt.building import MODELS, histories, observed
from vt.engine import Check, Part

STATE = {'aero': {'airspeed': 50.0, 'density': 1.1, 'mach': None, 'altitude': None, 'alpha': 3.0, 'beta': 0.0, 'rate_P': 0, 'rate_Q': 0, 'rate_R': 0}}


def walk_cases(ctx):
    return histories(ctx, ctx.pick(500, 6000), broken=False)


def ready_cases(ctx):
    rng = ctx.rng('ready')
    out = []
    for i in range(ctx.pick(150, 3000)):
        if i % 40 == 7:
            ac = gen.large(rng, rng.choice(['wings', 'segs', 'ctls']))
        else:
            ac = gen.aircraft(rng, wings=(1, 3), segs=(1, 3), ctls=(0, 3), num_s=(1, 3), num_c=(1, 3), given=0.6)
        # names that sort differently from their order
        names = [f'{rng.choice("zyxabZ")}{rng.randint(0, 9)}{n}' for n in range(200)]
        for w in ac['wings']:
            w['uid'] = names.pop()
            new = {s['uid']: names.pop() for s in w['segments']}
            for s in w['segments']:
                s['uid'] = new[s['uid']]
            for c in w.get('controls', []):
                c['uid'] = names.pop() if rng.random() < 0.5 else rng.choice(['c', 'c1', 'c10', 'C1', '1c'])
                c['segment_uid'] = {k: new[v] for k, v in c['segment_uid'].items()}
            seen = set()
            w['controls'] = [c for c in w.get('controls', []) if not (c['uid'] in seen or seen.add(c['uid']))]
        out.append({'driver': 'build.ready', 'tag': f'aircraft {i}', 'project': gen.project(ac, STATE, {'aircraft': 'ac.json', 'state': 'st.json', 'vlm_autopanels_c': 2, 'vlm_autopanels_s': 3})})
    return out


def db_cases(ctx):
    rng = ctx.rng('db')
    odd = ['', 'd15', 'D150', 'd150.json', 'bwb ', 'nothing', '*', '../aircraft/d150', '[b]wb', 'NASA', '__init__', 'CRM']
    out = []
    for i in range(ctx.pick(6, 60)):
        hist = [{'op': 'fetch', 'n': i, 'own': False}] + [
            {'op': rng.choice(['fetch', 'fetch', 'edit', 'edit', 'print']), 'n': rng.randint(0, 9), 'own': rng.random() < 0.5} for _ in range(9)]
        hist += [{'op': 'fetch', 'n': i, 'own': False}]
        out.append({'driver': 'build.db', 'tag': ' '.join(h['op'] for h in hist), 'hist': hist, 'names': odd})
    return out


def trace(want):
    return lambda case, obs: observed(case, obs, want)


class C22(Check):
    prop = 'C22'
    models = MODELS
    parts = [Part('histories', 'T_Building', walk_cases, trace('walk')), Part('ready', 'T_Building', ready_cases, trace('walk')),
             Part('db', 'T_Building', db_cases, trace('walk'))]
    assumptions = ['Control uids are unique in their wing only; the patches of a control are asked for by uid and come from all wings',
                   'Database files are copied into a project, as users of the examples do']


CHECK = C22()
