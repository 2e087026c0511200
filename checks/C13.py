"""C13: create, run and clean never touch what is not theirs"""
from vt.engine import Check, Model, Part

SPLIT = {'_results': 'results', '_plots': 'plots', 'log.txt': 'log'}


def split(path):
    """[slot, part, top]: which project, which part of it, and the folder below _results or _plots"""
    x = path.split('/')
    slot = x[0] if x[0] in ('pytornado', 'other') and len(x) > 1 else '-'
    part = 'rest'
    if slot != '-':
        part = SPLIT.get(x[1], 'rest')
        if part == 'log' and len(x) > 2:
            part = 'rest'
    return {'slot': slot, 'part': part, 'top': x[2] if len(x) > 3 else ''}


def tag(hist):
    out = []
    for c in hist:
        out.append(c['cmd'] + ''.join('.' + str(v) for k, v in sorted(c.items()) if k != 'cmd'))
    return ' '.join(out)


def make(rng, hist, **kw):
    return {'driver': 'project', 'tag': tag(hist), 'hist': hist, 'seed': rng.random(), **kw}


def interesting(hist):
    """Number of steps that do something to a project"""
    n, proj = 0, False
    for c in hist:
        if c['cmd'] == 'example' or (c['cmd'] == 'db' and c['known']):
            proj = True
        n += proj
    return n


def cases(ctx):
    rng = ctx.rng('histories')
    out = []
    steps = [x['hist'] for x in ctx.mc['MC_Project_gen']]
    steps.sort(key=lambda h: (-interesting(h), str(h)))
    top = [h for h in steps if interesting(h) >= 2]
    for h in rng.sample(top, min(len(top), ctx.pick(90, 1200))):
        out.append(make(rng, h, names=['boxwing', 'bwb']))
    for h in rng.sample(steps, ctx.pick(30, 200)):
        out.append(make(rng, h, names=['boxwing', 'bwb']))
    walks = {}
    for x in ctx.mc['MC_Project_walk']:
        h = x['hist']
        if len(h) == 9 and interesting(h) >= 6:
            walks.setdefault(str(h[:-1]), []).append(h)
    ks = sorted(walks)
    for k in rng.sample(ks, min(len(ks), ctx.pick(40, 400))):
        out.append(make(rng, rng.choice(walks[k]), names=['boxwing', 'bwb']))
    # what has been created runs as it is
    run = {'cmd': 'run', 'slot': 'pytornado', 'clean': 'no'}
    out.append(make(rng, [{'cmd': 'example'}, run], asis=True))
    for n in ('NASA_CRM', 'boxwing', 'bwb', 'd150', 'optimale'):
        out.append(make(rng, [{'cmd': 'db', 'known': True}, run], asis=True, names=[n]))
    # the slow ones first
    return out[-6:] + out[:-6]


def trace(case, obs):
    ev = []
    for e in obs.get('ev', []):
        e = dict(e)
        if e['tool']:
            e['part'] = {p: split(p) for p in list(e['before']) + list(e['after'])}
            e['dpart'] = {p: split(p + '/x') for p in e['bdirs'] + e['adirs']}
        ev.append(e)
    if not ev:
        ev = [{'tool': True, 'c': {'cmd': 'info'}, 'exit': 99, 'before': {}, 'after': {}, 'part': {}, 'bdirs': [], 'adirs': [], 'args': []}]
    return ev


class C13(Check):
    prop = 'C13'
    models = [Model('MC_Project', min_states=500), Model('MC_Project', 'MC_Project_deep', quick=False),
              Model('MC_Project', 'MC_Project_gen', min_states=200),
              Model('MC_Project', 'MC_Project_walk', min_states=0,
                    args=['-simulate', 'num=150', '-depth', '10', '-seed', '11'])]
    parts = [Part('histories', 'T_Project', cases, trace)]
    assumptions = ['The tool runs as an unprivileged user that owns only the scratch folder',
                   'A run whose model is refused may still have made the output folders and the log file',
                   'Database aircraft other than boxwing and bwb are only created and run once']


CHECK = C13()
