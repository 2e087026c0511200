"""Sessions: several analyses in one process"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys

from d_vlm import COEFFS, write_project


def digest(*xs):
    import numpy as np
    h = hashlib.sha1()
    for x in xs:
        if x is None:
            h.update(b'none')
            continue
        a = np.ascontiguousarray(np.asarray(x, dtype=float))
        h.update(repr(a.shape).encode() + a.tobytes())
    return h.hexdigest()[:12]


def lattice_of(lat):
    return digest(lat.p, lat.v, lat.c, lat.n, lat.a, lat.bound_leg_midpoints, [lat.info[k] for k in sorted(lat.info)])


def results_of(st):
    return digest(*[st.results[k] for k in sorted(st.results)])


NONE = {k: '' for k in ('lattice', 'matrix', 'rhs', 'gamma', 'panelwise', 'forces', 'coeffs')}


def data_of(lat, vd):
    """Digests of what there is"""
    if lat is None:
        return NONE
    pw = vd.panelwise
    return {'lattice': lattice_of(lat), 'matrix': digest(vd.matrix_downwash), 'rhs': digest(vd.array_rhs), 'gamma': digest(pw['gamma']),
            'panelwise': digest(*[pw[k] for k in sorted(pw)]), 'forces': digest([vd.forces[k] for k in COEFFS]),
            'coeffs': digest([vd.coeffs[k] for k in COEFFS])}


def files_of(root, below='_results'):
    out = {}
    for d, _, names in os.walk(f'{root}/{below}' if below else root):
        for n in names:
            f = os.path.join(d, n)
            rel = os.path.relpath(f, root)
            if below or not rel.startswith(('_results', '_plots', 'log.txt')):
                out[rel] = hashlib.sha1(open(f, 'rb').read()).hexdigest()[:12]
    return out


def said(x):
    # (paths may be written in different ways)
    return re.sub(r'\S*/\S*', '<path>', f'refused {type(x).__name__}: {x}'[:300])


def standard(path, flags=None):
    from pytornado.stdfun.run import StdRunArgs, standard_run
    return standard_run(StdRunArgs(run=path, **(flags or {})))


def truth_of(path, root):
    """One run in a process that does nothing else"""
    try:
        res = standard(path)
    except Exception as x:
        return {'outcome': said(x), 'results': '', 'last': NONE, 'files': files_of(root), 'n': 0}
    return {'outcome': 'ok', 'results': results_of(res['state']), 'last': data_of(res['lattice'], res['vlmdata']), 'files': files_of(root),
            'n': len(res['state'].results['CL'])}


def main(argv):
    """Another process, with another hash seed and other contents of fresh memory"""
    import guard
    guard.install(os.path.dirname(argv[1]))
    import matplotlib
    matplotlib.use('Agg')
    t = truth_of(argv[2], argv[3])
    with open(argv[1], 'w') as fp:
        json.dump(t, fp)


def apart(path, root, other):
    """The truth, from a process of its own"""
    out = os.path.abspath('truth.json')
    if other:
        env = {**os.environ, 'PYTHONHASHSEED': str(other), 'MALLOC_PERTURB_': str(other % 250 + 1)}
        subprocess.run([sys.executable, os.path.abspath(__file__), out, path, root], check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    else:
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                t = truth_of(path, root)
                with open(out, 'w') as fp:
                    json.dump(t, fp)
                code = 0
            finally:
                os._exit(code)
        if os.waitpid(pid, 0)[1]:
            raise RuntimeError('harness: no truth')
    with open(out) as fp:
        t = json.load(fp)
    os.remove(out)
    return t


def cut(p, n):
    """The same project with the first n points only"""
    p = json.loads(json.dumps(p))
    for k, v in p['state']['aero'].items():
        if isinstance(v, list):
            p['state']['aero'][k] = v[:n]
    return p


def by_hand(ver):
    """The project with a database aircraft, written without the tool"""
    from pytornado.database import tools
    with open(tools.get_aircraft_file_path(ver['db'])) as fp:
        ac = json.load(fp)
    name = ver['db'] + '.json'
    return {'aircraft': ac, 'name': ver['db'], 'settings': {'aircraft': name, 'state': name, **ver['settings']},
            'state': {'aero': {'airspeed': 100, 'density': 1.225, 'alpha': 2, 'beta': 0, 'rate_P': 0, 'rate_Q': 0, 'rate_R': 0}}}


def by_tool(ver, root):
    """The tool makes the project, the user changes the settings"""
    from pytornado.database import tools
    from pytornado.stdfun.setup import setup_wkdir
    home = os.getcwd()
    os.makedirs('made')
    os.chdir('made')
    setup_wkdir(tools.get_aircraft_file_path(ver['db']))
    os.chdir(home)
    os.makedirs(root, exist_ok=True)
    for n in os.listdir('made/pytornado'):
        if n not in ('_results', '_plots'):
            shutil.move(f'made/pytornado/{n}', root)
    shutil.rmtree('made')
    path = f'{root}/settings/{ver["db"]}.json'
    with open(path) as fp:
        d = json.load(fp)
    d.update(ver['settings'])
    d['plot']['results']['show'] = False
    with open(path, 'w') as fp:
        json.dump(d, fp)
    return path


def place(p, root, ver=None):
    """The user puts a version of the project into its folder; results stay"""
    if os.path.isdir(root):
        for n in os.listdir(root):
            if n not in ('_results', '_plots', 'log.txt'):
                f = f'{root}/{n}'
                shutil.rmtree(f) if os.path.isdir(f) else os.remove(f)
    if ver is not None and 'db' in ver:
        return by_tool(ver, root)
    path = os.path.abspath(write_project(p, root))
    for f in p.get('missing', []):
        os.remove(f'{root}/{f}')
    return path


class Handle:
    def __init__(self, path, db=None):
        from pytornado.fileio.native import aircraft, deformation, settings, state
        self.se = settings.load(path)
        if db:
            # the aircraft directly from the database
            from pytornado.database import tools
            self.se.paths.remove_path('f_aircraft')
            self.se.paths.add_path(path=tools.get_aircraft_file_path(db), uid='f_aircraft', is_absolute=True)
        self.ac = aircraft.load(self.se)
        self.st = state.load(self.se)
        if self.se.settings['deformation']:
            deformation.load(self.ac, self.se)
        self.points, self.i, self.stage = None, 0, 'loaded'
        self.lat, self.vd, self.cur = None, None, None

    def step(self, fresh):
        from pytornado.aero import vlm
        from pytornado.objects.vlm_struct import VLMData
        if self.stage in ('loaded', 'done'):
            if self.points is None:
                vlm.set_autopanels(self.ac, self.se)
                self.points = self.st.iter_states()
            self.cur = next(self.points)
            self.cur.refs = self.ac.refs
            if fresh or self.vd is None:
                self.vd = VLMData()
            self.lat = vlm.gen_lattice(self.ac, self.cur, self.se, self.i == 0)
            self.i += 1
            self.stage = 'meshed'
        elif self.stage == 'meshed':
            vlm.calc_downwash(self.lat, self.vd)
            self.stage = 'downwash'
        elif self.stage == 'downwash':
            vlm.calc_boundary(self.lat, self.cur, self.vd)
            self.stage = 'boundary'
        elif self.stage == 'boundary':
            vlm.solver(self.vd)
            self.stage = 'solved'
        else:
            vlm.calc_results(self.lat, self.cur, self.vd)
            self.stage = 'done'

    def save(self):
        from pytornado.fileio.native import results
        self.se.paths.counter = self.i - 1
        for d in ('d_results', 'd_plots'):
            self.se.paths(d, make_dirs=True, is_dir=True)
        results.save_all(self.se, self.ac, self.cur, self.vd)


def ruin(se, ac, st, lat, vd):
    """Objects that were given to the user are changed"""
    for x in (lat, vd):
        for a in (vars(x).values() if x is not None else []):
            if hasattr(a, 'fill') and a.flags.writeable:
                a.fill(7)
            if isinstance(a, dict):
                for k, v in list(a.items()):
                    if hasattr(v, 'fill') and v.flags.writeable:
                        v.fill(3)
                    elif not isinstance(v, list):
                        a[k] = 3.0
    if st is not None:
        for d in (st.aero, st.results):
            for k in list(d):
                if hasattr(d[k], 'fill') and d[k].flags.writeable:
                    d[k].fill(1)
                elif isinstance(d[k], list):
                    d[k].append(99.0)
    if se is not None:
        se.settings['save_results'].update({'global': True, 'panelwise': True, 'aeroperformance': True, 'matrix_system': True})
        se.settings['vlm_autopanels_c'] = 3
        se.settings['plot']['results']['opt'].append('gamma')
        se.settings['_epsilon'] = 0.5
    if ac is not None:
        ac.refs['area'] = 1e6
        ac.refs['gcenter'] += 5
        for w in ac.wings.values():
            for s in w.segments.values():
                for v in s.vertices.values():
                    v += 1
                s.panels['num_c'] = 17
                s.geometry['span'] = 1.0
                s.subdivision.clear()
            for c in w.controls.values():
                c.deflection = 33.0
                c.rel_vertices['eta_inner'] = 0.01
        ac.wings.clear()


def run(case):
    """slots: name -> versions {project, kind}; hist"""
    truth, fine = {}, {'prefix': True, 'other': True, 'kinds': True}
    roots = {sl: os.path.abspath(f'proj{sl}') for sl in case['slots']}
    for sl, versions in case['slots'].items():
        truth[sl] = []
        for ver in versions:
            p = by_hand(ver) if 'db' in ver else ver['project']
            n = 1 if 'db' in ver else len(p['state']['aero']['alpha'])
            ts = []
            for m in range(n, 0, -1):
                path = place(cut(p, m), roots[sl])
                ts.append(apart(path, roots[sl], 0))
                shutil.rmtree(roots[sl])
                if ts[0]['outcome'] != 'ok':
                    break
            if case['other']:
                path = place(p, roots[sl])
                fine['other'] = fine['other'] and apart(path, roots[sl], case['other']) == ts[0]
                shutil.rmtree(roots[sl])
            t = ts[0]
            ok = t['outcome'] == 'ok'
            fine['kinds'] = fine['kinds'] and ok == (ver['kind'] == 'ok')
            files = t['files']
            # a run of the first points gives the same for them
            of = [sorted(f for f in files if f'_{i:03d}/' in f) for i in range(n)]
            fine['prefix'] = fine['prefix'] and all(t2['files'].get(f) == files[f] for m, t2 in zip(range(n, 0, -1), ts) for i in range(m) for f in of[i])
            truth[sl].append({'outcome': t['outcome'], 'kind': ver['kind'], 'n': n, 'results': t['results'], 'files': files,
                              'of': of, 'points': [x['last'] for x in reversed(ts)] if ok else []})
    ev = [{'op': 'truth', **fine}]
    ver = {sl: 0 for sl in roots}
    paths = {sl: place(case['slots'][sl][0].get('project'), roots[sl], case['slots'][sl][0]) for sl in roots}
    inputs = {sl: files_of(roots[sl], '') for sl in roots}
    home, handles, held = os.getcwd(), [], []
    for e in case['hist']:
        out = 'ok'
        try:
            if e['op'] == 'edit':
                sl = e['s']
                ver[sl] = 1 - ver[sl]
                paths[sl] = place(case['slots'][sl][ver[sl]].get('project'), roots[sl], case['slots'][sl][ver[sl]])
                inputs[sl] = files_of(roots[sl], '')
            elif e['op'] == 'run':
                path = paths[e['s']]
                if e['how'] == 'rel':
                    path = os.path.relpath(path)
                elif e['how'] == 'cd':
                    os.chdir(roots[e['s']])
                    path = os.path.relpath(path)
                res = standard(path, e['flags'])
                held.append(res)
            elif e['op'] == 'load':
                handles.append(Handle(paths[e['s']], case['slots'][e['s']][ver[e['s']]].get('db') if e['direct'] else None))
            elif e['op'] == 'step':
                handles[e['h'] - 1].step(e['fresh'])
            elif e['op'] == 'save':
                handles[e['h'] - 1].save()
            elif e['op'] == 'spoil':
                h = handles[e['h'] - 1]
                ruin(h.se, h.ac, h.st, h.lat, h.vd)
            elif e['op'] == 'spoilheld':
                r = held[e['i'] - 1]
                ruin(r['settings'], None, r['state'], r['lattice'], r['vlmdata'])
        except Exception as x:
            out = said(x)
        os.chdir(home)
        ev.append({**{k: v for k, v in e.items() if k in ('op', 's', 'h', 'i')}, 'outcome': out,
                   'handles': [data_of(h.lat, h.vd) for h in handles],
                   'held': [{'results': results_of(r['state']), **data_of(r['lattice'], r['vlmdata'])} for r in held],
                   'files': {sl: files_of(roots[sl]) for sl in roots},
                   'inputs': all({f: d for f, d in files_of(roots[sl], '').items()} == inputs[sl] for sl in roots)})
    return {'kind': 'ok', 'ev': ev, 'truth': truth}


if __name__ == '__main__':
    main(sys.argv)
