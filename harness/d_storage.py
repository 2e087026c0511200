"""Loading, editing, saving, computing with and running a project that may be moved"""
import hashlib
import json
import os
import random
import shutil

from drivers import num, nums

KEYS = ('airspeed', 'density', 'mach', 'altitude', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')


def foil(name, root, in_file):
    name = str(name)
    if os.path.isabs(name):
        rel = os.path.relpath(name, root)
        if rel.startswith('airfoils/'):
            return {'k': 'inside' if in_file else 'project', 'n': rel}
        return {'k': 'path', 'n': name}
    if name.startswith('airfoils/'):
        return {'k': 'rel', 'n': name}
    return {'k': 'name', 'n': name}


def opt(x):
    return '' if x is None else num(x)


def aircraft(uid, refs, wings, root, in_file):
    """wings: (uid, sym, segs, ctls), parts given by dictionaries"""
    out = {'uid': uid, 'refs': {k: num(refs[k]) for k in ('area', 'chord', 'span')}, 'comment': refs.get('comment') or '', 'wings': []}
    for k in ('gcenter', 'rcenter'):
        out['refs'][k] = nums(refs[k])
    for w in wings:
        we = {'uid': w['uid'], 'sym': int(w['symmetry']), 'segs': [], 'ctls': []}
        for s in w['segments']:
            p = s.get('panels') or {}
            we['segs'].append({'uid': s['uid'], **{k: nums(s['vertices'][k]) for k in 'abcd'},
                               'fi': foil(s['airfoils']['inner'], root, in_file), 'fo': foil(s['airfoils']['outer'], root, in_file),
                               'num_c': int(p.get('num_c') or 0), 'num_s': int(p.get('num_s') or 0)})
        for c in w.get('controls', []):
            we['ctls'].append({'u': c['uid'], 'type': c['device_type'], 'defl': num(c['deflection']), 'deflm': opt(c.get('deflection_mirror')),
                               'si': c['segment_uid']['inner'], 'so': c['segment_uid']['outer'],
                               **{k: num(c['rel_vertices'][k]) for k in ('eta_inner', 'eta_outer', 'xsi_inner', 'xsi_outer')},
                               **{'h_' + k: num(c['rel_hinge_vertices'][k]) for k in ('xsi_inner', 'xsi_outer')},
                               'num_c': int((c.get('panels') or {}).get('num_c') or 0)})
        out['wings'].append(we)
    return out


def of_model(wings):
    return [{'uid': w.uid, 'symmetry': w.symmetry,
             'segments': [{'uid': s.uid, 'vertices': s.vertices, 'airfoils': s.airfoils, 'panels': s.panels} for s in w.segments.values()],
             'controls': [{'uid': c.uid, 'device_type': c.device_type, 'deflection': c.deflection, 'deflection_mirror': c.deflection_mirror,
                           'segment_uid': c.segment_uid, 'rel_vertices': c.rel_vertices, 'rel_hinge_vertices': c.rel_hinge_vertices,
                           'panels': c.panels} for c in w.controls.values()]} for w in wings]


def listed(v):
    if v is None:
        return []
    if hasattr(v, 'tolist'):
        v = v.tolist()
    return [num(x) for x in (v if isinstance(v, list) else [v])]


def state(aero):
    return {k: listed(aero.get(k)) for k in KEYS}


def settings(d, hidden=True):
    from d_settings import flatten
    return {k: v for k, v in flatten(d).items() if not k.startswith('_')}


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()


class Session:
    def __init__(self, case):
        self.rng = random.Random(case['seed'])
        self.p = case['project']
        self.root = os.path.abspath('proj')
        self.first = self.root
        self.n = 0
        self.mem = {}
        self.inp = []
        self.solved = False
        self.raw = set()        # made, but not generated
        self.stale = set()      # derived geometry no longer fits
        self.name = case['project'].get('name', 'run')

    def paths(self):
        se = self.p['settings']
        return {'aircraft': f'{self.root}/aircraft/{se["aircraft"]}', 'state': f'{self.root}/state/{se["state"]}',
                'settings': f'{self.root}/settings/{self.name}.json'}

    def observe(self):
        o = {'mem': {}, 'file': {}, 'text': {}}
        for k, path in self.paths().items():
            text = open(path).read()
            o['text'][k] = digest(text)
            try:
                d = json.loads(text)
                o['file'][k] = (aircraft(d['uid'], d['refs'], d['wings'], self.root, True) if k == 'aircraft' else
                                state(d['aero']) if k == 'state' else settings(d))
            except Exception as e:
                o['file'][k] = {'unreadable': f'{type(e).__name__} {e}'}
        if 'aircraft' in self.mem:
            a = self.mem['aircraft']
            o['mem']['aircraft'] = aircraft(a.uid, a.refs, of_model(a.wings.values()), self.root, False)
        if 'state' in self.mem:
            o['mem']['state'] = state(self.mem['state'].aero)
        if 'settings' in self.mem:
            o['mem']['settings'] = settings(self.mem['settings'].settings)
        return o

    # ---------------------------------------------------------------- operations
    def load(self, k):
        import pytornado.fileio as io
        self.raw.discard(k)
        self.stale.discard(k)
        self.stale.discard(k)
        if k == 'settings':
            self.mem[k] = io.native.settings.load(self.paths()[k])
        else:
            self.mem[k] = getattr(io.native, k).load(self.mem['settings'])
        if k == 'aircraft':
            self.solved = False
        if k == 'state':
            self.inp = [p for p, v in state(json.load(open(self.paths()[k]))['aero']).items() if v]

    def save(self, k):
        import pytornado.fileio as io
        if k == 'settings':
            io.native.settings.save(self.mem[k])
        else:
            getattr(io.native, k).save(self.mem[k], self.mem['settings'])

    def make(self, k):
        """The same by means of the API"""
        from pytornado.objects.aircraft import Aircraft
        from pytornado.objects.state import FlightState
        self.raw.discard(k)
        self.stale.discard(k)
        if k == 'state':
            st = FlightState()
            a = self.p['state']['aero']
            if self.rng.random() < 0.3:
                # as in the template: plain values, nothing derived
                self.raw.add(k)
                for key in KEYS:
                    v = {'airspeed': 50, 'density': 1, 'alpha': 2.5, 'mach': None, 'altitude': None}.get(key, 0)
                    if v is not None:
                        st.aero[key] = v
                self.inp = [key for key in KEYS if st.aero[key] is not None]
            else:
                st.update_from_dict({key: v for key, v in a.items()})
                self.inp = [key for key in KEYS if a.get(key) is not None]
            self.mem[k] = st
            return
        d = self.p['aircraft']
        ac = Aircraft()
        ac.uid = 'made_' + d['uid']
        for key, v in d['refs'].items():
            ac.refs[key] = v
        for w in d['wings']:
            wing = ac.add_wing(w['uid'])
            wing.symmetry = w['symmetry']
            for s in w['segments']:
                seg = wing.add_segment(s['uid'])
                for key in 'abcd':
                    seg.vertices[key] = list(s['vertices'][key])
                for key in ('inner', 'outer'):
                    v = s['airfoils'][key].replace(self.first + '/', self.root + '/')
                    seg.airfoils[key] = os.path.join(self.root, v) if v.startswith('airfoils/') else v
                for key, v in (s.get('panels') or {}).items():
                    seg.panels[key] = v
            for c in w.get('controls', []):
                ctl = wing.add_control(c['uid'])
                ctl.device_type, ctl.deflection = c['device_type'], c['deflection']
                ctl.deflection_mirror = c.get('deflection_mirror')
                for key in ('segment_uid', 'rel_vertices', 'rel_hinge_vertices', 'panels'):
                    getattr(ctl, key).update((c.get(key) or {}))
                ctl.check()
        self.solved = False
        if self.rng.random() < 0.6:
            ac.generate()
        else:
            self.raw.add(k)
        self.mem[k] = ac

    def edit(self, k):
        import numpy as np
        rng = self.rng
        o = self.mem[k]
        if k == 'settings':
            o.settings[rng.choice(['vlm_autopanels_c', 'vlm_autopanels_s'])] = rng.randint(1, 4)
            o.settings['save_results']['global'] ^= True
        elif k == 'state':
            n = max(1, o.num_apm_entries)
            if rng.random() < 0.5 and k not in self.raw:
                o.aero['alpha'] = np.array([round(rng.uniform(-5, 9), 2) for _ in range(n)])
                o.aero['beta'] = np.array([round(rng.uniform(-5, 5), 2) for _ in range(n)])
            else:
                d = {'airspeed': None, 'density': None, 'mach': None, 'altitude': None, 'alpha': rng.uniform(-3, 3), 'beta': 1,
                     'rate_P': 0, 'rate_Q': 0.25, 'rate_R': 0}
                d.update(rng.choice([{'airspeed': 30, 'density': 1.1}, {'airspeed': 60.5, 'altitude': 3000}, {'mach': 0.3, 'altitude': 0}]))
                o.update_from_dict(d)
                self.raw.discard(k)
                self.inp = [key for key in KEYS if d[key] is not None]
        else:
            wing = rng.choice(list(o.wings.values()))
            seg = rng.choice(list(wing.segments.values()))
            what = rng.choice(['refs', 'move', 'panels', 'foil', 'uid', 'comment'] + ['ctl']*4)
            if what == 'ctl' and wing.controls:
                c = rng.choice(list(wing.controls.values()))
                c.deflection = round(rng.uniform(-20, 20), 1)
                if wing.symmetry:
                    c.deflection_mirror = round(rng.uniform(-20, 20), 1)
                c.panels['num_c'] = rng.choice([None, 1, 2])
            elif what == 'move':
                self.stale.add(k)
                for s in wing.segments.values():
                    for key in 'abcd':
                        s.vertices[key] = s.vertices[key] + np.array([0.5, 0, 0.25]) if not isinstance(s.vertices[key], list) \
                            else [x + y for x, y in zip(s.vertices[key], (0.5, 0, 0.25))]
            elif what == 'panels':
                seg.panels[rng.choice(['num_c', 'num_s'])] = rng.choice([None, 1, 2, 3])
            elif what == 'uid':
                o.uid = 'Ünicode ' + str(rng.randint(0, 9))
            elif what == 'comment':
                o.refs['comment'] = 'revision ' + str(rng.randint(0, 9))
            else:
                o.refs['area'] = o.refs['area'] + 1

    def compute(self):
        from pytornado.aero import vlm
        from pytornado.objects.vlm_struct import VLMData
        ac, st, se = self.mem['aircraft'], self.mem['state'], self.mem['settings']
        vlm.set_autopanels(ac, se)
        vd, res = VLMData(), []
        for i, cur in enumerate(st.iter_states()):
            cur.refs = ac.refs
            lat = vlm.gen_lattice(ac, cur, se, i == 0)
            vlm.calc_downwash(lat, vd)
            vlm.calc_boundary(lat, cur, vd)
            vlm.solver(vd)
            vlm.calc_results(lat, cur, vd)
            res.append([vd.forces[k] for k in 'xyzDCLlmn'] + [vd.coeffs[k] for k in 'xyzDCLlmn'])
        self.solved = True
        return {'res': [num(x) for row in res for x in row]}

    def run(self):
        from d_vlm import aircraft_of, standard
        r = standard(self.paths()['settings'])
        d = json.load(open(self.paths()['aircraft']))
        res = r['state'].results
        cols = [res[k] for k in ('Fx', 'Fy', 'Fz', 'FD', 'FC', 'FL', 'Mx', 'My', 'Mz', 'Cx', 'Cy', 'Cz', 'CD', 'CC', 'CL', 'Cl', 'Cm', 'Cn')]
        return {'res': [num(c[i]) for i in range(r['state'].num_apm_entries) for c in cols], 'st': state(r['state'].aero),
                # the reference values and the name are not in what a run returns
                'ac': aircraft(d['uid'], d['refs'], of_model(aircraft_of(r['lattice']).values()), self.root, False)}

    def move(self):
        self.n += 1
        new = os.path.abspath(f'moved{self.n}')
        shutil.move(self.root, new)
        self.root = new
        self.mem = {}
        self.solved = False


def run(case):
    from d_vlm import write_project
    s = Session(case)
    for d in ('airfoils/sub', 'settings'):
        os.makedirs(f'{s.root}/{d}', exist_ok=True)
    for name, text in case.get('outside', {}).items():
        os.makedirs(os.path.dirname(name), exist_ok=True)
        with open(name, 'w') as fp:
            fp.write(text)
    text = json.dumps(case['project']).replace('@HERE@', os.getcwd())
    s.p = json.loads(text)
    write_project(s.p, s.root)
    out = [{'op': 'start', 'outcome': 'ok', **s.observe()}]
    for h in case['hist']:
        op, k = h['op'], h.get('k')
        ev = {'op': op, 'outcome': 'ok'}
        if k:
            ev['k'] = k
        if k and op in ('edit', 'save') and k not in s.mem or op == 'compute' and (s.solved or s.raw):
            continue
        if op == 'edit' and k == 'aircraft' and s.solved and s.rng.random() < 0.5:
            continue
        try:
            ev.update(getattr(s, op)(*([k] if k else [])) or {})
        except Exception as e:
            ev['outcome'] = f'{type(e).__name__}: {e}'[:200]
        if op in ('make', 'edit'):
            ev['inp'], ev['raw'] = list(s.inp), k in s.raw or k in s.stale
        out.append({**ev, **s.observe()})
        if ev['outcome'] != 'ok':
            break
    return {'kind': 'ok', 'ev': out}
