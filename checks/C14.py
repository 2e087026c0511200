"""C14: settings: documented defaults, strict types, no leakage between instances"""
import copy
import json
import os
import random

from vt.engine import Check, Model, Part

KINDS = ('geometry', 'lattice', 'matrix_downwash', 'results')
SAVES = ('global', 'panelwise', 'aeroperformance', 'matrix_system')
POOL = {'null': [None], 'int': [3, 0, -2], 'float': [0.5, 2.0], 'str': ['x', '', 'true', '4'], 'list': [[], [1], ['cp']],
        'bool': [True, False], 'dict': [{}, {'a': 1}]}


def valid(rng):
    """All entries, each with a valid value"""
    d = {'aircraft': rng.choice(['ac.json', 'b.JSON', 'c.xml', 'my.air.craft.json', 'd.Xml']), 'state': rng.choice(['st.json', '__CPACS', 'x']),
         'deformation': rng.choice([None, False, 'def.json', '']),
         'vlm_autopanels_c': rng.choice([1, 2, 7, 40]), 'vlm_autopanels_s': rng.choice([1, 3, 9]),
         'save_results': {k: rng.random() < 0.5 for k in SAVES},
         'plot': {k: {'opt': rng.choice([[], [], ['cp'], ['gamma', 'cp'], ['deformation']]), 'show': rng.random() < 0.5, 'save': rng.random() < 0.5}
                  for k in KINDS},
         '_do_normal_rotations': rng.random() < 0.5, '_deformation_check': rng.random() < 0.5,
         '_epsilon': rng.choice([1e-6, 0.5, 1e-300, 0.999999, 1e-12])}
    return d


def paths(d, pre=()):
    for k, v in d.items():
        yield pre + (k,)
        if isinstance(v, dict):
            yield from paths(v, pre + (k,))


ALLOWED = {'aircraft': ['str'], 'state': ['str'], 'deformation': ['str', 'null'], 'vlm_autopanels_c': ['int', 'bool'], 'vlm_autopanels_s': ['int', 'bool'],
           '_do_normal_rotations': ['bool'], '_deformation_check': ['bool'], '_epsilon': ['float'], 'save_results': ['dict'], 'plot': ['dict']}


def allowed(path):
    if path[0] in ('save_results', 'plot') and len(path) > 1:
        if path[0] == 'plot' and len(path) == 2:
            return ['dict']
        return ['list'] if path[-1] == 'opt' else ['bool']
    return ALLOWED[path[0]]


def holder(d, path):
    for k in path[:-1]:
        d = d[k]
    return d


def single(rng, mode):
    d = valid(rng)
    ps = list(paths(d))
    if mode in ('omit', 'both'):
        for p in rng.sample(ps, rng.choice([1, 2, 3, 8, 15])):
            try:
                h = holder(d, p)
                if p not in (('aircraft',), ('state',)) or rng.random() < 0.15:
                    h.pop(p[-1], None)
            except KeyError:
                pass
    if mode in ('ill', 'both'):
        for p in rng.sample(ps, rng.choice([1, 1, 2])):
            try:
                h = holder(d, p)
            except (KeyError, TypeError):
                continue
            if not isinstance(h, dict):
                continue
            t = rng.choice([t for t in POOL if t not in allowed(p)])
            if t == 'dict' and allowed(p) == ['dict']:
                continue
            h[p[-1]] = copy.deepcopy(rng.choice(POOL[t]))
    if mode == 'range':
        d['_epsilon'] = rng.choice([0.0, 1.0, -1e-6, 1.5, 0, 1, -0.0, 1e300])
    if mode == 'suffix':
        d['aircraft'] = rng.choice(['ac.txt', 'ac', '.json', 'ac.json.bak', 'json', 'ac.xmll', 'ac.', 'a.json/b'])
    name = rng.choice(['settings/x.json', 'settings/a.b.json', 'x.json', 'other/y.json', 'settings/über.json', 'sets/settings/q.json', 'mysettings/x.json', 'settings/a.json.b.json'])
    root = 'proj'
    how = rng.choice(['file', 'file', 'api'])
    return {'driver': 'settings.single', 'tag': mode, 'dict': d, 'root': root, 'file': name, 'how': how}


def history(rng, h):
    return {'driver': 'settings.history', 'tag': ' '.join('.'.join(str(c[k]) for k in ('op', 'o', 'src', 'key') if k in c) for c in h),
            'hist': h, 'seed': rng.random()}


def worth(h):
    return sum(c['op'] in ('update', 'mutate', 'save', 'mutdict') for c in h)*len({c.get('o') for c in h})


def cases_h(ctx):
    rng = ctx.rng('histories')
    out = []
    hs = [x['hist'] for x in ctx.mc['MC_Settings_gen']]
    good = [h for h in hs if worth(h) >= 4]
    for h in rng.sample(good, min(len(good), ctx.pick(180, 3000))):
        out.append(history(rng, h))
    for h in rng.sample(hs, ctx.pick(30, 300)):
        out.append(history(rng, h))
    walks = {}
    for x in ctx.mc['MC_Settings_walk']:
        if len(x['hist']) == 10:
            walks.setdefault(str(x['hist'][:-1]), []).append(x['hist'])
    for k in rng.sample(sorted(walks), min(len(walks), ctx.pick(90, 130))):
        out.append(history(rng, rng.choice(walks[k])))
    return out


def cases_s(ctx):
    rng = ctx.rng('single')
    out = []
    for mode, n, m in (('full', 30, 300), ('omit', 120, 2000), ('ill', 120, 2000), ('both', 60, 1500), ('range', 15, 60), ('suffix', 15, 60)):
        for _ in range(ctx.pick(n, m)):
            out.append(single(rng, mode))
    return out


def trace_h(case, obs):
    return obs.get('ev') or [{'op': 'new', 'outcome': str(obs.get('msg')), 'o': 'a', 'src': 'none', 'objs': {}, 'dict': {}, 'file': {}, 'defaults': {}, 'hid': []}]


def trace_s(case, obs):
    """Where things are expected, from the documentation"""
    d = case['dict']
    folder, name = os.path.split(case['file'])
    root = folder
    if case['how'] == 'file':
        if os.path.basename(folder) == 'settings':
            root = os.path.dirname(folder)
    else:
        root = ''
    e = {'op': 'single', 'outcome': obs['kind'], 'd': obs.get('d', {}), 'suffix': ''}
    if isinstance(d.get('aircraft'), str):
        e['suffix'] = os.path.splitext(d['aircraft'])[1].lower()
    e['settings'], e['cpacs'], e['paths'] = obs.get('settings', {}), obs.get('cpacs', False), obs.get('paths', {})
    e['expect'] = {'f_aircraft': os.path.join(root, 'aircraft', str(d.get('aircraft'))), 'f_state': os.path.join(root, 'state', str(d.get('state'))),
                   'f_deformation': os.path.join(root, 'deformation', str(d.get('deformation'))), 'f_log': os.path.join(root, 'log.txt'),
                   'f_settings': os.path.join(root, 'settings', name),
                   'f_results_apm_global': os.path.join(root, '_results', name[:-5] + '_aeroperformance.json')}
    # without a deformation file its place means nothing
    if not d.get('deformation'):
        for x in ('paths', 'expect'):
            e[x] = {k: v for k, v in e[x].items() if k != 'f_deformation'}
    return [e]


class C14(Check):
    prop = 'C14'
    models = [Model('MC_Settings', min_states=50000), Model('MC_Settings', 'MC_Settings_deep', quick=False),
              Model('MC_Settings', 'MC_Settings_gen', min_states=2000),
              Model('MC_Settings', 'MC_Settings_walk', min_states=0, args=['-simulate', 'num=130', '-depth', '11', '-seed', '5'])]
    parts = [Part('histories', 'T_Settings', cases_h, trace_h), Part('dictionaries', 'T_Settings', cases_s, trace_s)]
    assumptions = ['A truth value is accepted for a whole number (as in Python)', 'Entries that are not documented are not looked at',
                   'What a refused update leaves in the object is not specified']


CHECK = C14()
