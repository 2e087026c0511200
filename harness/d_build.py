"""Aircraft models built step by step, and walks over models"""
import hashlib
import json
import os
import shutil

from d_vlm import write_project


def value(v):
    t, x = v['t'], v['v']
    if t == 'none':
        return None
    if t == 'int':
        return int(x)
    if t == 'float':
        return float(x)
    if t == 'bool':
        return x == 'True'
    if t == 'list':
        return [x] if x else []
    return x


def text(x):
    return '' if x is None else str(x)


def listing(ac):
    return {'uid': ac.uid, 'wings': [
        {'uid': w.uid, 'sym': text(w.symmetry), 'segs': [{'uid': s.uid} for s in w.segments.values()],
         'ctls': [{'uid': c.uid, 'type': text(c.device_type)} for c in w.controls.values()]} for w in ac.wings.values()]}


def label(item):
    return [int(item[0]), str(item[1])]


def walks(ac):
    """What the tools yield: number and name of each item and its parents, and whether these are the model's own objects"""
    from pytornado.objects import objecttools as ot
    own = {}
    for i, (wu, w) in enumerate(ac.wings.items()):
        own[id(w)] = ('w', i)
        for j, s in enumerate(w.segments.values()):
            own[id(s)] = ('s', i, j)
            for k, sd in enumerate(s.subdivision.values()):
                own[id(sd)] = ('d', i, j, k)
                for n, sa in enumerate(sd.subarea.values()):
                    own[id(sa)] = ('a', i, j, k, n)
        for j, c in enumerate(w.controls.values()):
            own[id(c)] = ('c', i, j)

    def one(kind, items):
        """The objects are those which the numbers say"""
        place = tuple(x[0] for x in reversed(items))
        if own.get(id(items[0][2])) != (kind,) + place:
            return False
        kinds = {'w': 'w', 's': 'sw', 'c': 'cw', 'd': 'dsw', 'a': 'adsw'}[kind]
        return all(own.get(id(x[2])) == (kk,) + place[:len(items) - n] for n, (kk, x) in enumerate(zip(kinds, items)))

    def walk(kind, gen):
        out, fine = [], True
        for y in gen:
            items = [y] if kind == 'w' else list(y)
            out.append([label(x) for x in items])
            fine = fine and one(kind, items)
        return out, fine
    res, fine = {}, True
    for key, kind, f in (('wings', 'w', ot.all_wings), ('segments', 's', ot.all_segments), ('controls', 'c', ot.all_controls),
                         ('strips', 'd', ot.all_subdivisions), ('areas', 'a', ot.all_subareas)):
        res[key], ok = walk(kind, f(ac))
        fine = fine and ok
    res['fine'] = fine
    res['counts'] = [int(f(ac)) for f in (ot.count_all_wings, ot.count_all_segments, ot.count_all_controls, ot.count_all_subareas)]
    return res


def contents(ac):
    """The parts as they are stored"""
    def owner(sa):
        return '' if sa.parent_control is None else str(sa.parent_control.uid)
    return [{'uid': w.uid, 'segs': [{'uid': s.uid, 'strips': [{'name': str(k), 'areas': [str(t) for t in sd.subarea],
                                                              'owners': [owner(sa) for sa in sd.subarea.values()]}
                                                             for k, sd in s.subdivision.items()]} for s in w.segments.values()],
             'ctls': [c.uid for c in w.controls.values()]} for w in ac.wings.values()]


def parents(ac):
    """Every part knows its own parents"""
    for w in ac.wings.values():
        for s in w.segments.values():
            if s.parent_wing is not w:
                return False
            for sd in s.subdivision.values():
                if sd.parent_segment is not s or sd.parent_wing is not w:
                    return False
                for sa in sd.subarea.values():
                    if sa.parent_subdivision is not sd or sa.parent_segment is not s or sa.parent_wing is not w:
                        return False
        for c in w.controls.values():
            if c.parent_wing is not w:
                return False
    return True


def shared(models):
    """Do two models have a part in common?"""
    seen = {}
    for n, ac in enumerate(models):
        parts = [ac.wings, ac.refs]
        for w in ac.wings.values():
            parts += [w, w.segments, w.controls]
            for s in w.segments.values():
                parts += [s, s.vertices, s.geometry, s.airfoils, s.panels, s.position, s.subdivision]
            for c in w.controls.values():
                parts += [c, c.segment_uid, c.rel_vertices, c.rel_hinge_vertices, c.panels]
        for p in parts:
            if seen.setdefault(id(p), n) != n:
                return True
    return False


def place(sa):
    """Names of a patch and of its parents"""
    def key(d, x):
        return next((str(k) for k, v in d.items() if v is x), '?')
    sd = sa.parent_subdivision
    return [key(sd.subarea, sa), key(sd.parent_segment.subdivision, sd), sd.parent_segment.uid, sd.parent_wing.uid]


def ready(case):
    """Finished models: walks over everything, and the patches of each control"""
    os.makedirs('proj')
    path = os.path.abspath(write_project(case['project'], 'proj'))
    from pytornado.aero import vlm
    from pytornado.fileio.native import aircraft as io_aircraft, settings as io_settings, state as io_state
    from pytornado.objects import objecttools as ot
    sets = io_settings.load(path)
    acs = [io_aircraft.load(sets) for _ in range(2)]
    st = next(iter(io_state.load(sets).iter_states()))
    lattices = []
    for ac in acs:
        vlm.set_autopanels(ac, sets)
        lattices.append(vlm.gen_lattice(ac, st, sets, True))
    ev = []
    for ac, lattice in zip(acs, lattices):
        for again in range(2):
            uids = sorted({c.uid for w in ac.wings.values() for c in w.controls.values()}) + ['nothing']
            ev.append({'op': 'ready', 'contents': contents(ac), 'walks': walks(ac), 'parents': parents(ac), 'shared': shared(acs),
                       'patches': [{'uid': u, 'got': [label(x) for x in ot.all_subareas_of_control(ac, u)]} for u in uids],
                       'meshed': {k: [place(x.subarea) for x in lattice.panel_bookkeeping if bool(x.mirror) == (k == 'mirror')] for k in ('main', 'mirror')},
                       'syms': [text(w.symmetry) for w in ac.wings.values()]})
    return {'kind': 'ok', 'ev': ev}


def digest(x):
    if isinstance(x, dict):
        return '{' + ','.join(f'{k}:{digest(v)}' for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(digest(v) for v in x) + ']'
    if hasattr(x, 'tolist'):
        return digest(x.tolist())
    return repr(x)


def picture(ac):
    from d_define import model
    return hashlib.sha1(digest(model(ac, '/')).encode()).hexdigest()[:12]


def db(case):
    """Fetches of database aircraft and edits of what was fetched"""
    from pytornado.database import tools
    from pytornado.fileio.native import aircraft as io_aircraft, settings as io_settings
    here = tools.get_aircraft_db_path()
    stems = sorted(f[:-5] for f in os.listdir(here) if f.endswith('.json'))
    # what the files say, told by reading copies of them in a project of its own
    truth = {}
    os.makedirs('truth/aircraft')
    json.dump({'aero': {'airspeed': 50.0, 'density': 1.1, 'mach': None, 'altitude': None, 'alpha': 3.0, 'beta': 0.0,
                        'rate_P': 0, 'rate_Q': 0, 'rate_R': 0}}, open('st.json', 'w'))

    def load(place, name):
        d = os.path.join(place, 'settings')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 's.json'), 'w') as fp:
            json.dump({'aircraft': name, 'state': 'st.json'}, fp)
        return io_aircraft.load(io_settings.load(os.path.abspath(os.path.join(d, 's.json'))))
    for n in stems:
        shutil.copy(os.path.join(here, n + '.json'), 'truth/aircraft')
        truth[n] = picture(load('truth', n + '.json'))
    held, ev = [], []
    for e in case['hist']:
        r = {'op': 'db', 'what': e['op'], 'stems': stems, 'names': [], 'listed': [], 'paths': [], 'digest': '', 'truth': '', 'printed': ''}
        r['names'] = tools.list_aircraft_names()
        r['listed'] = [os.path.basename(p)[:-5] for p in tools.list_full_aircraft_paths() if os.path.isfile(p) and os.path.isabs(p)]
        for n in stems + case['names']:
            try:
                f = tools.get_aircraft_file_path(n)
                r['paths'].append({'name': n, 'outcome': 'ok', 'file': os.path.basename(f)[:-5] if os.path.isfile(f) else '?'})
            except FileNotFoundError:
                r['paths'].append({'name': n, 'outcome': 'refused', 'file': ''})
            except Exception as x:
                r['paths'].append({'name': n, 'outcome': f'raised {type(x).__name__}', 'file': ''})
        if e['op'] == 'fetch':
            n = stems[e['n'] % len(stems)]
            where = f"w{len(held) if e['own'] else 0}"
            os.makedirs(f'{where}/aircraft', exist_ok=True)
            sets = None
            # the way of a user: take the file of the database by its name
            shutil.copy(tools.get_aircraft_file_path(n), f'{where}/aircraft/x.json')
            ac = load(where, 'x.json')
            r['digest'], r['truth'] = picture(ac), truth[n]
            held.append(ac)
        elif e['op'] == 'edit' and held:
            ac = held[e['n'] % len(held)]
            w = list(ac.wings.values())[0]
            s = list(w.segments.values())[0]
            s.vertices['a'] = s.vertices['a'] + 1
            s.geometry['span'], s.panels['num_c'] = 1.0, 17
            s.airfoils['inner'] = None
            ac.refs['gcenter'] += 5
            ac.refs['area'] = 1e6
            w.symmetry = 0
            w.add_segment(f'new{len(w.segments)}')
            ac.add_wing(f'new{len(ac.wings)}')
            for c in w.controls.values():
                c.deflection, c.rel_vertices['eta_inner'] = 1.0, 0.01
        elif e['op'] == 'print':
            import contextlib
            import io
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                tools.print_available_aircraft()
            r['printed'] = buf.getvalue()
        r['inprint'] = [n for n in stems if f'* {n} ' in r['printed']]
        r['shared'] = shared(held)
        ev.append(r)
    return {'kind': 'ok', 'ev': ev}


def perform(acs, e):
    ac = acs[e['a']]
    v = value(e['v'])
    if e['op'] == 'wing':
        r = ac.add_wing(v)
        return r is ac.wings[v]
    if e['op'] == 'name':
        ac.uid = v
        return True
    w = list(ac.wings.values())[e['w'] - 1]
    if e['op'] == 'segment':
        r = w.add_segment(v)
        return r is w.segments[v]
    if e['op'] == 'control':
        r = w.add_control(v)
        return r is w.controls[v]
    if e['op'] == 'symmetry':
        w.symmetry = v
    if e['op'] == 'type':
        list(w.controls.values())[e['c'] - 1].device_type = v
    return True


def fill(ac, broken):
    """Complete the model; broken tells what is left out"""
    for k in ('area', 'chord', 'span'):
        ac.refs[k] = 1 if broken != k else {'area': 0, 'chord': -1.0, 'span': None}[k]
    ac.refs['gcenter'], ac.refs['rcenter'] = [0, 0, 0.5], [0.0, 1, 0] if broken != 'rcenter' else [0.0, 1]
    n = 0
    for w in ac.wings.values():
        for s in w.segments.values():
            y = 2.0*n
            s.vertices.update(a=[0, y, 0], b=[0.1, y + 2, 0.1], c=[1.1, y + 2, 0.1], d=[1, y, 0])
            s.airfoils.update(inner='NACA0012', outer='NACA2412')
            if n == 0 and broken in ('a', 'd'):
                s.vertices[broken] = None
            if n == 0 and broken == 'airfoil':
                s.airfoils['inner'] = 'nothing'
            if n == 0 and broken == 'panels':
                s.panels['num_c'] = 0
            n += 1
    return n


def run(case):
    from pytornado.objects.aircraft import Aircraft
    names = sorted({e['a'] for e in case['hist']})
    acs = {a: Aircraft() for a in names}
    ev = []

    def observe(e):
        e['models'] = {a: listing(ac) for a, ac in acs.items()}
        e['walks'] = {a: walks(ac) for a, ac in acs.items()}
        e['contents'] = {a: contents(ac) for a, ac in acs.items()}
        e['parents'] = all(parents(ac) for ac in acs.values())
        e['shared'] = shared(acs.values())
        ev.append(e)
    observe({'op': 'start', 'outcome': 'ok', 'new': True, 'a': names[0]})
    for e in case['hist']:
        try:
            new = perform(acs, e)
            out = 'ok'
        except Exception as x:
            new, out = True, f'refused {type(x).__name__}'
        observe({**e, 'outcome': out, 'new': bool(new)})
    for a in names:
        before = bool(acs[a].state)
        fill(acs[a], case['broken'].get(a, ''))
        try:
            acs[a].generate()
            out = 'ok'
        except Exception as x:
            out = f'refused {type(x).__name__}: {x}'[:100]
        observe({'op': 'generate', 'a': a, 'outcome': out, 'new': True, 'broken': case['broken'].get(a, ''), 'before': before,
                 'state': [bool(acs[a].state)] + [bool(w.state) for w in acs[a].wings.values()]})
    return {'kind': 'ok', 'ev': ev}
