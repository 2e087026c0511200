"""C17: ill-defined aircraft are refused, well-defined ones taken as given"""
import copy
import json

from vt import gen
from vt.building import MODELS, histories, observed
from vt.engine import Check, Model, Part

STATE = {'aero': {'airspeed': 50.0, 'density': 1.1, 'mach': None, 'altitude': None, 'alpha': 3.0, 'beta': 0.0, 'rate_P': 0, 'rate_Q': 0, 'rate_R': 0}}
FILES = ['airfoils/blade.p4', 'airfoils/blade.m2']


def plain(j):
    """The JSON value of a value of the specification"""
    t, v = j['t'], j['v']
    if t == 'none':
        return None
    if t == 'nan':
        return float('nan')
    if t == 'bool':
        return v == 'True'
    if t == 'int':
        return int(v)
    if t == 'float':
        return float(v)
    if t == 'list':
        return [plain(x) for x in j['s']]
    if t == 'dict':
        return {k: plain(x) for k, x in (j['d'] or {}).items()}
    return v


def tagged(x):
    out = {'t': type(x).__name__, 'v': '', 's': [], 'd': {}}
    if x is None:
        out['t'] = 'none'
    elif isinstance(x, float) and x != x:
        out['t'] = 'nan'
    elif isinstance(x, dict):
        out['d'] = {k: tagged(v) for k, v in x.items()}
    elif isinstance(x, list):
        out['s'] = [tagged(v) for v in x]
    else:
        out['v'] = repr(x) if isinstance(x, (float, bool)) else str(x)
    return out


def put(doc, path, value, remove):
    """Change an entry; False if there is no such place"""
    for k in path[:-1]:
        if isinstance(doc, list):
            if not doc:
                return False
            doc = doc[(int(k) - 1) % len(doc)]
        elif isinstance(doc, dict):
            doc = doc.setdefault(k, {})
        else:
            return False
    if not isinstance(doc, dict):
        return False
    if remove:
        doc.pop(path[-1], None)
    else:
        doc[path[-1]] = value
    return True


def describe(rng, s):
    """Replace a part of the corner points by measures, often by all that are needed"""
    given = rng.choice(['a', 'b', 'c', 'd', 'ad', 'ad', 'bc', 'bc', 'ab', 'cd', 'abc'])
    s['vertices'] = {k: v for k, v in s['vertices'].items() if k in given}
    u = lambda a, b: round(rng.uniform(a, b), 3)
    g = {'inner_chord': u(0.3, 1.5), 'inner_alpha': u(-6, 6), 'inner_beta': u(-3, 3), 'outer_chord': u(0.3, 1.5), 'outer_alpha': u(-6, 6),
         'outer_beta': rng.choice([0.0, u(-3, 3)]), 'span': u(3.5, 6), 'sweep': rng.choice([0.0, u(-20, 40)]), 'dihedral': rng.choice([0.0, 90.0, u(-30, 60)])}
    if rng.random() < 0.5:
        g.update(inner_axis=u(0, 1), outer_axis=u(0, 1))
    g = {k: v for k, v in g.items() if not (given == 'ad' and k in ('inner_chord', 'inner_alpha', 'inner_beta') or given == 'bc' and k in ('outer_chord', 'outer_alpha', 'outer_beta'))
         or rng.random() < 0.1}
    if rng.random() < 0.25:
        k = rng.choice(sorted(g))
        if rng.random() < 0.5:
            g.pop(k)
        else:
            g[k] = None
    s['geometry'] = g


def aircraft(rng):
    ac = gen.aircraft(rng, wings=(2, 2), segs=(2, 2), ctls=(2, 2), num_s=(1, 2), num_c=(1, 2), given=1, syms=(0, 1, 2, 3),
                      foils=['NACA0012', 'naca2412', 'airfoils/blade.p4'])
    if rng.random() < 0.3:
        ac['refs']['comment'] = rng.choice(['', 'some words', None])
    described = rng.choice([0, 0, 0.4])
    for w in ac['wings']:
        for s in w['segments']:
            if rng.random() < 0.3:
                s['geometry'] = rng.choice([{}, None, {'inner_axis': 0.3}, {'sweep': 12.5, 'span': None}])
            if rng.random() < described:
                describe(rng, s)
            if rng.random() < 0.2:
                s.pop('panels')
        for c in w['controls']:
            if rng.random() < 0.2:
                c.pop('panels', None)
            if rng.random() < 0.2:
                c['rel_hinge_vertices'].pop(rng.choice(['xsi_inner', 'xsi_outer']))
    return ac


def fixed(rng):
    """An aircraft with the uids and the shape of the specification's"""
    ac = gen.aircraft(rng, wings=(2, 2), segs=(2, 2), ctls=(0, 0), num_s=(1, 2), num_c=(1, 2), given=1, syms=(2,))
    ac['refs']['comment'] = 'x'
    for i, w in enumerate(ac['wings']):
        w['uid'], w['symmetry'] = f'w{i}', 2 - 2*i
        names = ['s0', 's1' if i == 0 else 's2']
        for s, n in zip(w['segments'], names):
            s['uid'] = n
            s['geometry'] = {'inner_axis': 0.25, 'sweep': 5.0}
        w['controls'] = [{'uid': u, 'device_type': t, 'deflection': 5.0, 'deflection_mirror': -5.0, 'segment_uid': {'inner': names[0], 'outer': so},
                          'rel_vertices': {'eta_inner': 0.2, 'eta_outer': 0.8, 'xsi_inner': x, 'xsi_outer': x},
                          'rel_hinge_vertices': {'xsi_inner': x, 'xsi_outer': x}, 'panels': {'num_c': 2}}
                         for u, t, so, x in (('c0', 'flap', names[0], 0.7), ('c1', 'slat', names[1], 0.2))]
    return ac


def case(ac, changes, tag):
    files = {f: gen.parabola_foil(gen.PARABOLAS[f]) for f in FILES}
    return {'driver': 'define', 'tag': tag, 'project': gen.project(ac, STATE, files=files)}


def apply(ac, changes):
    ok = True
    for c in changes:
        ok = put(ac, c['p'], plain(c['v']), c['v']['t'] == 'missing') and ok
    return ok


def label(changes):
    return ', '.join(f"{'.'.join(c['p'])}={json.dumps(plain(c['v'])) if c['v']['t'] != 'missing' else 'missing'}" for c in changes)


def cases(ctx):
    rng = ctx.rng('define')
    mc = ctx.mc['MC_Definition' if ctx.quick else 'MC_Definition_deep']
    single = [x['ch'] for x in mc if len(x['ch']) == 1]
    pairs = [x['ch'] for x in mc if len(x['ch']) == 2]
    out, chosen = [], single
    if ctx.quick:
        # each value once for each kind of entry
        rng.shuffle(single)
        chosen = list({str(([k for k in ch[0]['p'] if not k.isdigit()], ch[0]['v'])): ch for ch in single}.values())
    partial = [ch for ch in pairs if [c['p'][-1] for c in ch] == ['geometry', 'vertices']]
    for ch in chosen + rng.sample(pairs, ctx.pick(200, 5000)) + rng.sample(partial, min(len(partial), ctx.pick(60, 1000))):
        ac = fixed(rng)
        apply(ac, ch)
        out.append(case(ac, ch, label(ch)))
    # other aircraft, with no, one or several changes
    for _ in range(ctx.pick(200, 4000)):
        ac = aircraft(rng)
        ch = [rng.choice(single)[0] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        apply(ac, ch)
        out.append(case(ac, ch, 'other ' + label(ch)))
    for i in range(ctx.pick(8, 80)):
        ac = gen.large(rng, ['wings', 'segs', 'ctls', 'ctls'][i % 4])
        ac['refs']['comment'] = 'x'
        ch = [rng.choice(single)[0]] if i % 2 else []
        apply(ac, ch)
        if i % 3 == 2:
            # the last of them has the name of another
            w = rng.choice(ac['wings'])
            k = rng.choice([k for k in ('segments', 'controls') if len(w.get(k, [])) > 1] or ['']) if rng.random() < 0.7 else ''
            l = w[k] if k else ac['wings']
            if len(l) > 1:
                l[-1]['uid'] = rng.choice(l[:-1])['uid']
        out.append(case(ac, ch, 'large ' + label(ch)))
    return out


def trace(case, obs):
    if obs['kind'] != 'ok':
        return [{'e': 'load', 'outcome': obs['kind'], 'state': False}]
    ev = [{'e': 'load', **obs['load']}, {'e': 'run', 'outcome': obs['run'], 'files': obs['files']}]
    return {'ev': ev, 'doc': tagged(case['project']['aircraft']), 'files': FILES}


def api_cases(ctx):
    return histories(ctx, ctx.pick(500, 6000), broken=True)


def api_trace(case, obs):
    return observed(case, obs, 'build')


class C17(Check):
    prop = 'C17'
    models = [Model('MC_Definition', quick=True, min_states=8000), Model('MC_Definition', 'MC_Definition_deep', quick=False, min_states=40000), *MODELS]
    parts = [Part('files', 'T_Definition', cases, trace), Part('api', 'T_Building', api_cases, api_trace)]
    assumptions = ['Integers where the schemas ask for a float, booleans and nan as numbers, unknown extra entries, empty lists of wings or segments and '
                   'controls whose segments are named in reverse order are left open (accepted or refused)',
                   'Segments described by a part of their corner points and measures: with negative lengths, angles beyond 80 degrees or edges longer than the span they '
                  'may be accepted or refused; the corner points which follow are compared in C21']


CHECK = C17()
