"""Groups of analyses that are related by a law (spec/Laws.tla)"""
import copy
import math

from vt import gen
from vt.vlmtrace import small_aircraft

FOILS = ['NACA0012', 'NACA2412', 'NACA4415']


def map_points(ac, f):
    out = copy.deepcopy(ac)
    for k in ('gcenter', 'rcenter'):
        out['refs'][k] = f(out['refs'][k])
    for w in out['wings']:
        for s in w['segments']:
            s['vertices'] = {k: f(v) for k, v in s['vertices'].items()}
    return out


def with_rates(st, w, speed=1):
    out = copy.deepcopy(st)
    a = out['aero']
    a['airspeed'] = [v*speed for v in a['airspeed']]
    for k, x in zip(('rate_P', 'rate_Q', 'rate_R'), w):
        a[k] = [x]
    return out


def omega(st):
    return [st['aero'][k][0] for k in ('rate_P', 'rate_Q', 'rate_R')]


def rot_y(deg):
    t = math.radians(deg)
    c, s = math.cos(t), math.sin(t)
    return lambda p: [c*p[0] + s*p[2], p[1], c*p[2] - s*p[0]]


def aircraft(rng, limit=24, **kw):
    d = dict(wings=(1, 3), segs=(1, 2), ctls=(0, 2), num_c=(1, 3), num_s=(1, 3), given=1, twist=0.5, foils=FOILS)
    d.update(kw)
    return small_aircraft(rng, limit, **d)


def symmetric_aircraft(rng, defl):
    """Wings with images and fins in the plane of symmetry"""
    ac = aircraft(rng, syms=(2,), wings=(1, 2), ctls=(0, 2))
    for w in ac['wings']:
        for c in w.get('controls', []):
            if defl == 'same':
                if 'deflection_mirror' in c:
                    c['deflection_mirror'] = c['deflection']
    if rng.random() < 0.6:
        x, z = gen.r3(rng.uniform(-4, 12)), gen.r3(rng.uniform(2.5, 4))
        h, t = gen.r3(rng.uniform(0.8, 2)), gen.r3(rng.uniform(0, 1))
        fin = {'uid': 'fin', 'symmetry': 0, 'segments': [
            {'uid': 'fin_s0', 'vertices': {'a': [x, 0, z], 'b': [gen.r3(x + t), 0, z + h], 'c': [gen.r3(x + t + 0.7), 0, z + h], 'd': [x + 1.2, 0, z]},
             'airfoils': {'inner': 'NACA0012', 'outer': 'NACA0012'}, 'panels': {'num_c': rng.randint(1, 2), 'num_s': rng.randint(1, 2)}}]}
        ac['wings'].insert(rng.randint(0, len(ac['wings'])), fin)
    for k in ('gcenter', 'rcenter'):
        ac['refs'][k][1] = 0.0
    return ac


def opposite(v):
    def m(p):
        return [p[0], -p[1], p[2]]
    return {'a': m(v['b']), 'b': m(v['a']), 'c': m(v['d']), 'd': m(v['c'])}


def two_wings(ac):
    """Every wing with an image as two wings without"""
    out = copy.deepcopy(ac)
    out['wings'] = []
    for w in ac['wings']:
        here = copy.deepcopy(w)
        here['symmetry'] = 0
        there = copy.deepcopy(w)
        there['uid'] += '_image'
        there['symmetry'] = 0
        for c in here.get('controls', []):
            c.pop('deflection_mirror', None)
        there['segments'] = [{**s, 'uid': s['uid'] + '_i', 'vertices': opposite(s['vertices']),
                              'airfoils': {'inner': s['airfoils']['outer'], 'outer': s['airfoils']['inner']}}
                             for s in reversed(there['segments'])]
        for c in there.get('controls', []):
            c['uid'] += '_i'
            su, rv, rh = c['segment_uid'], c['rel_vertices'], c['rel_hinge_vertices']
            c['segment_uid'] = {'inner': su['outer'] + '_i', 'outer': su['inner'] + '_i'}
            c['rel_vertices'] = {'eta_inner': 1 - rv['eta_outer'], 'eta_outer': 1 - rv['eta_inner'],
                                 'xsi_inner': rv['xsi_outer'], 'xsi_outer': rv['xsi_inner']}
            c['rel_hinge_vertices'] = {'xsi_inner': rh['xsi_outer'], 'xsi_outer': rh['xsi_inner']}
            c['deflection'] = c.get('deflection_mirror', c['deflection'])
            c.pop('deflection_mirror', None)
        out['wings'] += [here, there]
    return out


def clear_of_divisions(ac):
    """No control ends within the minimum strip width of another division"""
    for w in ac['wings']:
        marks = {s['uid']: [k/s['panels']['num_s'] for k in range(s['panels']['num_s'] + 1)] for s in w['segments']}
        for c in w.get('controls', []):
            for side in ('inner', 'outer'):
                m, e = marks[c['segment_uid'][side]], c['rel_vertices'][f'eta_{side}']
                if any(x != e and abs(x - e) < 0.02 for x in m) or any(0 < abs(x - e) < 1e-6 for x in m):
                    return False
                m.append(e)
    return True


def group(rng, law):
    """(parameter of the law, projects)"""
    f = rng.uniform
    # The airfoil library differentiates camber lines numerically, which turns rounding of the ends of control surfaces
    # (they depend on lengths) into slopes that differ by 1e-5: either camber or controls where geometry is moved
    moved = law in ('shift', 'turn', 'two wings')
    kw = rng.choice([{'foils': ['NACA0012']}, {'ctls': (0, 0)}]) if moved else {}
    ac = aircraft(rng, **kw)
    st = gen.state(rng, 1, alpha=20, beta=15)
    by = ''

    # a large core shows what it does to the laws
    se = {'_epsilon': rng.choice([1e-2, 0.2])} if rng.random() < 0.4 else {}

    def p(a, s):
        return gen.project(a, s, gen.settings(**se))
    if law == 'density':
        by = gen.r3(f(0.1, 5))
        s2 = copy.deepcopy(st)
        s2['aero']['density'] = [st['aero']['density'][0]*by]
        return gen.S(by), [p(ac, st), p(ac, s2)]
    if law == 'speed':
        by = gen.r3(rng.choice([f(0.05, 0.9), f(1.1, 5)]))
        return gen.S(by), [p(ac, st), p(ac, with_rates(st, [w*by for w in omega(st)], by))]
    if law == 'shift':
        syms = {w['symmetry'] for w in ac['wings']}
        far = rng.choice([20, 60])
        d = [0.0 if 3 in syms else gen.r3(f(-far, far)), 0.0 if 2 in syms else gen.r3(f(-far, far)), 0.0 if 1 in syms else gen.r3(f(-far, far))]
        return gen.V(d), [p(ac, st), p(map_points(ac, lambda v: [a + b for a, b in zip(v, d)]), st)]
    if law == 'size':
        # an image in the yz plane is washed by the wake of its original, whose length is fixed
        ac = aircraft(rng, syms=(0, 2, 2, 1))
        # models of a few centimetres too
        by = gen.r3(rng.choice([f(0.2, 4), 10**f(-2, -0.7)]))
        big = map_points(ac, lambda v: [by*a for a in v])
        r = big['refs']
        r['area'], r['chord'], r['span'] = r['area']*by*by, r['chord']*by, r['span']*by
        return gen.S(by), [p(ac, st), p(big, with_rates(st, [w/by for w in omega(st)]))]
    if law == 'order':
        while len(ac['wings']) < 2:
            ac = aircraft(rng, wings=(2, 4))
        perm = list(range(len(ac['wings'])))
        while perm == sorted(perm):
            rng.shuffle(perm)
        return [i + 1 for i in perm], [p(ac, st), p({**ac, 'wings': [ac['wings'][i] for i in perm]}, st)]
    if law == 'add':
        w1 = [gen.r3(f(-1.5, 1.5)) for _ in range(3)]
        w2 = [rng.choice([0.0, gen.r3(f(-1.5, 1.5))]) for _ in range(3)]
        return '', [p(ac, with_rates(st, w1)), p(ac, with_rates(st, w2)), p(ac, with_rates(st, [a + b for a, b in zip(w1, w2)], 2))]
    if law == 'zero':
        ac = aircraft(rng, twist=0, foils=['NACA0012', 'NACA0009'], vertical=0.4)
        for w in ac['wings']:
            for s in w['segments']:
                v = s['vertices']
                v['d'][1:], v['c'][1:] = v['a'][1:], v['b'][1:]
            for c in w.get('controls', []):
                c['deflection'] = 0.0
                if 'deflection_mirror' in c:
                    c['deflection_mirror'] = 0.0
        st = gen.state(rng, 1, alpha=0, beta=0, rates=False)
        return '', [p(ac, st)]
    if law == 'turn':
        ac = aircraft(rng, syms=(0, 2, 2), **kw)
        by = gen.r3(f(-40, 40))
        s2 = with_rates(st, rot_y(by)(omega(st)))
        s2['aero']['alpha'] = [st['aero']['alpha'][0] - by]
        return gen.S(by), [p(ac, st), p(map_points(ac, rot_y(by)), s2)]
    if law == 'mirror':
        ac = symmetric_aircraft(rng, 'any')
        s2 = copy.deepcopy(st)
        for k in ('beta', 'rate_P', 'rate_R'):
            s2['aero'][k] = [-s2['aero'][k][0]]
        other = copy.deepcopy(ac)
        for w in other['wings']:
            for c in w.get('controls', []):
                c['deflection'], c['deflection_mirror'] = c.get('deflection_mirror', c['deflection']), c['deflection']
        return '', [p(ac, st), p(other, s2)]
    if law == 'symmetric':
        ac = symmetric_aircraft(rng, 'same')
        for k in ('beta', 'rate_P', 'rate_R'):
            st['aero'][k] = [0.0]
        return '', [p(ac, st)]
    if law == 'two wings':
        while True:
            # on twisted segments camber and edge lines depend on which edge is the inner one
            ac = aircraft(rng, syms=(2,), wings=(1, 2), twist=0, **kw)
            if clear_of_divisions(ac):
                break
        return '', [p(ac, st), p(two_wings(ac), st)]
    raise ValueError(law)


def case(rng, law):
    by, projects = group(rng, law)
    return {'driver': 'pair', 'tag': law, 'law': law, 'by': by, 'projects': projects}


def pairs(entries):
    """Panel numbers (from 1) of the panels of a half and of their images; images follow their originals"""
    out = []
    for e, m in zip(entries, entries[1:]):
        if m['mirror'] and not e['mirror'] and len(e['idx']) == len(m['idx']):
            out += [[i + 1, j + 1] for i, j in zip(e['idx'], m['idx'])]
    return out


def trace(case, obs):
    ev = []
    for p, o in zip(case['projects'], obs.get('runs', [{'outcome': obs['kind']}])):
        e = {'e': 'run', 'outcome': o['outcome'], 'ac': gen.norm_aircraft(p['aircraft']), 'pt': gen.norm_point(p['state'], 0)}
        if o['outcome'] == 'ok':
            e.update(gamma=o['gamma'], forces=o['forces'], coeffs=o['coeffs'], pairs=pairs(o['entries']) if 'entries' in o else [])
        ev.append(e)
    return {'ev': ev, 'law': case['law'], 'by': case['by']}
