"""Settings objects: made, updated, changed, saved and loaded"""
import copy
import json
import os
import random


def typ(v):
    if v is None:
        return 'null'
    return {bool: 'bool', int: 'int', float: 'float', str: 'str', list: 'list', dict: 'dict'}.get(type(v), type(v).__name__)


NESTED = {'save_results', 'plot'} | {f'plot.{k}' for k in ('geometry', 'lattice', 'matrix_downwash', 'results')}


def flatten(d, pre=''):
    """dotted path -> [type, JSON text]"""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and v and pre + k in NESTED:
            out.update(flatten(v, f'{pre}{k}.'))
        else:
            try:
                text = json.dumps(v)
            except TypeError:
                text = repr(v)
            out[pre + k] = {'t': typ(v), 'v': text}
    return out


def hidden(flat):
    return sorted(p for p in flat if any(x.startswith('_') for x in p.split('.')))


def observe(root, objs, d):
    from pytornado.objects.settings import DEFAULT_SETTINGS
    from pytornado.objects.utils import get_default_dict
    f = f'{root}/settings/x.json'
    o = {'objs': {k: flatten(s.settings) for k, s in objs.items()}, 'dict': flatten(d),
         'defaults': flatten(get_default_dict(DEFAULT_SETTINGS)),
         'file': flatten(json.load(open(f))) if os.path.exists(f) else {}}
    o['hid'] = sorted({p for s in o['objs'].values() for p in hidden(s)})
    return o


def assign(d, path, value):
    *head, tail = path.split('.')
    for k in head:
        d = d[k]
    d[tail] = value


def lookup(d, path):
    for k in path.split('.'):
        d = d[k]
    return d


def change(rng, d, key):
    """Change a dictionary in place; returns the path and its new value"""
    if key == 'top':
        path, value = rng.choice([('vlm_autopanels_s', rng.randint(5, 99)), ('vlm_autopanels_c', rng.randint(5, 99)), ('aircraft', 'other.json'),
                                  ('deformation', 'd.json')])
        assign(d, path, value)
    elif key == 'hidden':
        path, value = rng.choice([('_epsilon', 0.5), ('_do_normal_rotations', False), ('_deformation_check', False)])
        assign(d, path, value)
    elif key == 'flag':
        path = rng.choice(['plot.lattice.save', 'plot.results.show', 'save_results.global', 'save_results.matrix_system'])
        value = not lookup(d, path)
        assign(d, path, value)
    else:
        path = f'plot.{rng.choice(["geometry", "lattice", "matrix_downwash", "results"])}.opt'
        l = lookup(d, path)
        value = l + ['zz']
        l.append('zz')
    return path, {'t': typ(value), 'v': json.dumps(value)}


def full(rng, given=1.0):
    """A complete dictionary as in the documentation"""
    def flag():
        return rng.random() < 0.5
    d = {'aircraft': rng.choice(['ac.json', 'b.JSON', 'c.xml']), 'state': 'st.json', 'deformation': rng.choice([None, False, 'def.json']),
         'vlm_autopanels_c': rng.randint(1, 9), 'vlm_autopanels_s': rng.randint(1, 9),
         'save_results': {k: flag() for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')},
         'plot': {k: {'opt': rng.choice([[], [], ['cp'], ['cp', 'gamma']]), 'show': flag(), 'save': flag()}
                  for k in ('geometry', 'lattice', 'matrix_downwash', 'results')}}
    return d


def history(case):
    from pytornado.objects.settings import Settings
    import pytornado.fileio as io
    rng = random.Random(case['seed'])
    root = os.path.abspath('proj')
    os.makedirs(root + '/settings')
    d = full(rng)
    objs = {}
    out = [{'op': 'start', **observe(root, objs, d)}]

    def do(ev, f):
        try:
            f()
            ev['outcome'] = 'ok'
        except Exception as e:
            ev['outcome'] = f'refused: {type(e).__name__} {e}'[:200]
        return ev

    for h in case['hist']:
        ev = dict(h)
        op, o = h['op'], h.get('o')
        if op == 'new':
            def f():
                if h['src'] == 'none':
                    objs[o] = Settings('x.json', root, check_ac_file_type=False)
                elif h['src'] == 'dict':
                    objs[o] = Settings('x.json', root, settings_dict=d)
                else:
                    objs[o] = io.native.settings.load(root + '/settings/x.json')
            ev['d'] = flatten(d) if h['src'] == 'dict' else out[-1]['file'] if h['src'] == 'file' else {}
            do(ev, f)
        elif op == 'update':
            x = d
            if h['src'] == 'small':
                x = {'aircraft': 's.json', 'state': 's.json', **rng.choice([
                    {'vlm_autopanels_c': 7}, {'save_results': {k: True for k in ('global', 'panelwise', 'aeroperformance', 'matrix_system')}},
                    {'_epsilon': 0.25}, {'save_results': {'global': True}}, {'plot': {'lattice': {'save': True}}}, {}])}
            ev['d'] = flatten(x)
            do(ev, lambda: objs[o].update_from_dict(x))
        elif op == 'mutate':
            ev['path'], ev['val'] = change(rng, objs[o].settings, h['key'])
        elif op == 'mutdict':
            ev['path'], ev['val'] = change(rng, d, h['key'])
        elif op == 'save':
            s = objs[o].settings
            for k in ('aircraft', 'state'):
                if s[k] is None:
                    s[k] = 'ac.json'
                    out.append({'op': 'mutate', 'o': o, 'key': 'top', 'path': k, 'val': {'t': 'str', 'v': '"ac.json"'}, **observe(root, objs, d)})
            do(ev, lambda: io.native.settings.save(objs[o]))
        elif op == 'refused':
            x = rng.choice([{'vlm_autopanels_s': '4'}, {'plot': 3}, {'_epsilon': 1.5}, {'save_results': {'global': 1}}, {'state': None},
                            {'deformation': 4}, {'plot': {'results': {'opt': 'cp', 'show': False, 'save': False}}}])
            ev['d'] = flatten(x)
            do(ev, lambda: objs[o].update_from_dict(x))
            objs.pop(o)
        out.append({**ev, **observe(root, objs, d)})
    return {'kind': 'ok', 'ev': out}


def single(case):
    """Settings from one dictionary, as a file or by the API"""
    from pytornado.objects.settings import Settings
    import pytornado.fileio as io
    root = os.path.abspath(case['root'])
    os.makedirs(os.path.dirname(f'{root}/{case["file"]}'), exist_ok=True)
    d = case['dict']
    keep = copy.deepcopy(d)
    o = {'kind': 'ok'}
    try:
        if case['how'] == 'file':
            with open(f'{root}/{case["file"]}', 'w') as fp:
                json.dump(d, fp)
            s = io.native.settings.load(f'{root}/{case["file"]}')
        else:
            s = Settings(os.path.basename(case['file']), root, settings_dict=d)
    except Exception as e:
        return {'kind': 'refused', 'type': type(e).__name__, 'msg': str(e)[:200], 'd': flatten(keep)}
    o['settings'] = flatten(s.settings)
    o['d'] = flatten(keep)
    o['cpacs'] = bool(s.aircraft_is_cpacs)
    o['paths'] = {u: os.path.relpath(s.paths(u), root) for u in ('f_aircraft', 'f_state', 'f_deformation', 'f_log', 'f_settings', 'f_results_apm_global')}
    o['base'] = s.project_basename
    return o
