"""Aircraft that are changed and generated again, and the measures they report"""
import copy
import json
import os

from drivers import num

AXES = ('inner_chord', 'outer_chord', 'inner_alpha', 'outer_alpha', 'inner_beta', 'outer_beta', 'inner_axis', 'outer_axis', 'span', 'sweep', 'dihedral')


def add(p, v):
    return [num(float(a) + float(b)) for a, b in zip(p, v)]


def each(ac, f):
    for w in ac:
        for s in w['segs']:
            for k in 'abcd':
                s[k] = f(s[k])


def change(doc, e):
    ac = copy.deepcopy(doc)
    op = e['op']
    if op == 'shift':
        each(ac, lambda p: add(p, e['v']))
    elif op == 'scale':
        each(ac, lambda p: [num(float(x)*float(e['k'])) for x in p])
    elif op == 'flip':
        each(ac, lambda p: [p[0], num(-float(p[1])), p[2]])
        for w in ac:
            w['segs'] = [{'a': s['b'], 'b': s['a'], 'c': s['d'], 'd': s['c'], 'ia': s['oa'], 'oa': s['ia']} for s in reversed(w['segs'])]
    elif op == 'sym':
        ac[e['w'] - 1]['sym'] = e['to']
    elif op == 'axis':
        ac[e['w'] - 1]['segs'][e['i'] - 1].update(ia=e['ia'], oa=e['oa'])
    elif op == 'vertex':
        s = ac[e['w'] - 1]['segs'][e['i'] - 1]
        s[e['p']] = add(s[e['p']], e['v'])
    elif op == 'extend':
        s = ac[e['w'] - 1]['segs'][-1]
        ac[e['w'] - 1]['segs'].append({'a': s['b'], 'b': add(s['b'], e['v']), 'c': add(s['c'], e['v']), 'd': s['c'], 'ia': '0.25', 'oa': '0.25'})
    elif op == 'add':
        w = copy.deepcopy(ac[0])
        each([w], lambda p: add(p, e['v']))
        w['sym'] = e['to']
        ac.append(w)
    return ac


def put(ac, doc):
    """The document as it is now"""
    for i, w in enumerate(doc):
        wing = ac.wings.get(f'w{i}') or ac.add_wing(f'w{i}')
        wing.symmetry = int(w['sym'])
        for j, s in enumerate(w['segs']):
            seg = wing.segments.get(f's{j}') or wing.add_segment(f's{j}')
            for k in 'abcd':
                seg.vertices[k] = [float(x) for x in s[k]]
            seg.geometry['inner_axis'], seg.geometry['outer_axis'] = float(s['ia']), float(s['oa'])
            seg.airfoils.update(inner='NACA0000', outer='NACA0000')


def read(ac):
    return {'wings': [{'span': num(w.span), 'area': num(w.area), 'segs': [
        {'m': {**{k: num(s.geometry[k]) for k in AXES}, 'area': num(s.area)}, 'inner': num(s.position['inner']), 'outer': num(s.position['outer']),
         'p': {k: [num(x) for x in s.vertices[k]] for k in 'abcd'}} for s in w.segments.values()]} for w in ac.wings.values()],
        'area': num(ac.area), 'size': num(ac.size)}


def file_of(doc):
    return {'uid': 'ac', 'refs': {'area': 1.0, 'span': 1.0, 'chord': 1.0, 'gcenter': [0, 0, 0], 'rcenter': [0, 0, 0]},
            'wings': [{'uid': f'w{i}', 'symmetry': int(w['sym']), 'segments': [
                {'uid': f's{j}', 'vertices': {k: [float(x) for x in s[k]] for k in 'abcd'}, 'geometry': {'inner_axis': float(s['ia']), 'outer_axis': float(s['oa'])},
                 'airfoils': {'inner': 'NACA0000', 'outer': 'NACA0000'}} for j, s in enumerate(w['segs'])]} for i, w in enumerate(doc)]}


WAYS = ('a', 'b', 'c', 'd', 'ad', 'bc')


def described(e, doc, got, settings):
    """Segments alone, given by some of their corners and their measures"""
    from pytornado.fileio.native import aircraft as io_aircraft
    from pytornado.objects.aircraft import Aircraft
    out = []
    for w, i, way, file in e.get('desc', []):
        w, i = min(w, len(doc)), min(i, len(doc[w - 1]['segs']) if w <= len(doc) else 1)
        s, m = doc[w - 1]['segs'][i - 1], got['wings'][w - 1]['segs'][i - 1]['m']
        geo = {k: float(m[k]) for k in AXES if not (way == 'ad' and k.startswith('inner_') and k != 'inner_axis' or way == 'bc' and k.startswith('outer_') and k != 'outer_axis')}
        one = file_of([{'sym': '0', 'segs': [s]}])
        seg = one['wings'][0]['segments'][0]
        seg['vertices'] = {k: v if k in way else None for k, v in seg['vertices'].items() if k in way or file != 1}
        seg['geometry'] = geo
        try:
            if file:
                with open('proj/aircraft/ac.json', 'w') as fp:
                    json.dump(one, fp)
                ac = io_aircraft.load(settings)
            else:
                ac = Aircraft()
                ac.refs.update(area=1, span=1, chord=1, gcenter=[0, 0, 0], rcenter=[0, 0, 0])
                x = ac.add_wing('w').add_segment('s')
                x.vertices.update(seg['vertices'])
                x.geometry.update(geo)
                x.airfoils.update(seg['airfoils'])
                ac.generate()
            out.append({'w': w, 'i': i, 'way': way, 'outcome': 'ok', 'got': [read(ac)['wings'][0]['segs'][0]]})
        except Exception as x:
            out.append({'w': w, 'i': i, 'way': way, 'outcome': f'{type(x).__name__}: {x}'[:200], 'got': []})
    return out


def run(case):
    from pytornado.fileio.native import aircraft as io_aircraft, settings as io_settings
    from pytornado.objects.aircraft import Aircraft
    for d in ('aircraft', 'settings', 'state', 'airfoils', 'deformation'):
        os.makedirs(f'proj/{d}')
    with open('proj/settings/run.json', 'w') as fp:
        json.dump({'aircraft': 'ac.json', 'state': 'st.json'}, fp)
    ev, doc = [], case['ac']
    ac = Aircraft()
    ac.refs.update(area=1, span=1, chord=1, gcenter=[0, 0, 0], rcenter=[0, 0, 0])
    for e in [{'op': 'start', 'desc': case.get('desc', [])}] + case['hist']:
        doc = change(doc, e)
        if e.get('file'):
            # the same aircraft from a file
            with open('proj/aircraft/ac.json', 'w') as fp:
                json.dump(file_of(doc), fp)
            ac = io_aircraft.load(io_settings.load('proj/settings/run.json'))
        else:
            put(ac, doc)
            ac.generate()
        got = read(ac)
        ev.append({**e, 'ac': doc, 'got': got, 'again': read(ac), 'desc': described(e, doc, got, io_settings.load('proj/settings/run.json'))})
    return {'kind': 'ok', 'ev': ev}
