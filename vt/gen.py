"""
Random aircraft, flight states and settings (as the JSON dictionaries a user
writes), and their normal form for traces: real numbers as strings, no nulls,
"" / 0 for "not given".
"""

import json


def S(x):
    return repr(float(x))


def V(p):
    return [S(x) for x in p]


def r3(x):
    return round(x, 3)


# ---------------------------------------------------------------- aircraft
def segment_chain(rng, n, *, vertical=False, twist=False, x0=0.0, y0=0.0, z0=0.0, side=1):
    """n quadrilaterals, each starting where the previous one ends"""
    a = [x0, y0, z0]
    chord = r3(rng.uniform(0.8, 3))
    d = [r3(a[0] + chord), a[1], r3(a[2] - (chord*rng.uniform(-0.1, 0.1) if twist else 0))]
    out = []
    for _ in range(n):
        span = r3(rng.uniform(0.7, 4))
        dx = r3(rng.choice([0, rng.uniform(-0.5, 1.5)]))
        if vertical:
            dy, dz = r3(rng.choice([0, rng.uniform(-0.2, 0.2)])), span
        else:
            dy, dz = side*span, r3(rng.choice([0, rng.uniform(-0.4, 0.8)]))
        chord = r3(chord*rng.choice([1, rng.uniform(0.5, 1.2)]))
        b = [r3(a[0] + dx), r3(a[1] + dy), r3(a[2] + dz)]
        tw = chord*rng.uniform(-0.1, 0.1) if twist else 0
        if vertical:
            c = [r3(b[0] + chord), r3(b[1] + tw), b[2]]
        else:
            c = [r3(b[0] + chord), b[1], r3(b[2] - tw)]
        if not twist and not vertical:
            # coplanar: the trailing edge has the height of the leading edge
            c[2] = b[2]
        out.append({'a': a, 'b': b, 'c': c, 'd': d})
        a, d = b, c
    return out


def eta_pair(rng, n=None):
    """Positions of a control, sometimes on, sometimes almost on, division lines"""
    while True:
        out = []
        for _ in range(2):
            k = rng.random()
            if k < 0.3 and n:
                e = rng.randint(0, n)/n
                e += rng.choice([0, 0, 0.003, -0.004, 0.02, -0.03])
            elif k < 0.45:
                e = rng.choice([0.0, 1.0])
            else:
                e = round(rng.uniform(0, 1), 3)
            out.append(min(1.0, max(0.0, e)))
        a, b = sorted(out)
        if b - a > 0.05:
            return a, b


def control_shape(rng, kind, wide=False):
    lo, hi = (0.55, 0.92) if kind == 'flap' else (0.07, 0.35)
    if wide:
        # slats and flaps may overlap, at one end or at both
        lo, hi = (0.3, 0.92) if kind == 'flap' else (0.07, 0.6)
    x1 = r3(rng.uniform(lo, hi))
    x2 = x1 if rng.random() < 0.4 else r3(rng.uniform(lo, hi))
    k = rng.random()
    if k < 0.5:
        h1, h2 = x1, x2
    elif k < 0.75:
        h1, h2 = r3(min(1, x1*1.05)), r3(min(1, x2*1.02))
    else:
        h1, h2 = r3(rng.uniform(0, 1)), r3(rng.uniform(0, 1))
    return x1, x2, h1, h2


def controls(rng, wing, segs, num_s, count, *, max_num_c=3, clash=False, multi=True):
    """Controls that do not clash: every kind at most once at any place"""
    out = []
    used = {'flap': [], 'slat': []}
    tries = 0
    while len(out) < count and tries < 30 + 10*count:
        tries += 1
        kind = rng.choice(['flap', 'flap', 'slat'])
        i = rng.randrange(len(segs))
        o = rng.randrange(i, len(segs)) if multi and rng.random() < 0.5 else i
        if i == o:
            ea, eb = eta_pair(rng, num_s[i])
        else:
            ea = rng.choice([0.0, round(rng.uniform(0, 0.9), 3)])
            eb = rng.choice([1.0, round(rng.uniform(0.1, 1), 3)])
        span = (i + ea, o + eb)
        if not clash and any(span[0] < u[1] + 0.03 and u[0] < span[1] + 0.03 for u in used[kind]):
            continue
        used[kind].append(span)
        x1, x2, h1, h2 = control_shape(rng, kind, clash)
        c = {
            'uid': f'{wing}_c{len(out)}', 'device_type': kind,
            'deflection': rng.choice([0, 5.0, -7.5, 12, r3(rng.uniform(-30, 30))]),
            'segment_uid': {'inner': segs[i], 'outer': segs[o]},
            'rel_vertices': {'eta_inner': float(ea), 'eta_outer': float(eb), 'xsi_inner': float(x1), 'xsi_outer': float(x2)},
            'rel_hinge_vertices': {'xsi_inner': float(h1), 'xsi_outer': float(h2)},
            'panels': {'num_c': rng.choice([None, 1, 2, 3][:max_num_c + 1])},
        }
        if c['panels']['num_c'] is None and rng.random() < 0.5:
            # the entry is optional
            c.pop('panels') if rng.random() < 0.5 else c.update(panels={})
        if rng.random() < 0.6:
            c['deflection_mirror'] = rng.choice([0, -5.0, r3(rng.uniform(-30, 30)), c['deflection']])
        out.append(c)
    return out


FOILS = ['NACA0012', 'NACA2412', 'NACA4415', 'naca1408', 'NACA6409']


def parabola_foil(k, t=0.1, n=41):
    """An airfoil file with the camber line 4 k x (1 - x)"""
    xs = [i/(n - 1) for i in range(n)]

    def y(x, side):
        return 4*k*x*(1 - x) + side*t*x*(1 - x)
    rows = [(x, y(x, 1)) for x in reversed(xs)] + [(x, y(x, -1)) for x in xs[1:]]
    return 'parabola\n' + ''.join(f'{a:.17f} {b:.17f}\n' for a, b in rows)


PARABOLAS = {'airfoils/blade.p4': 0.04, 'airfoils/blade.m2': -0.02, 'airfoils/blade.p1': 0.01}


NAMES = ['s', 'S', '1', '10', '2', 'tip', 'root', 'segment', 'a', 'zz', 'w0', 'flap', 'c', 'C', 'slat_1', 'inner wing', 'x.y', '_', 'm', 'über']


def rename(rng, ac):
    """Names in any order; the same ones on other wings and for other things"""
    for w, uid in zip(ac['wings'], rng.sample([w['uid'] for w in ac['wings']], len(ac['wings']))):
        w['uid'] = uid
        new = [*NAMES, *(f'{k:03d}' for k in range(len(w['segments'])))]
        new = dict(zip([s['uid'] for s in w['segments']], rng.sample(new, len(w['segments']))))
        for s in w['segments']:
            s['uid'] = new[s['uid']]
        cs = w.get('controls', [])
        for c, uid in zip(cs, rng.sample([*NAMES, *(f'{k:03d}' for k in range(len(cs)))], len(cs))):
            c['uid'] = uid
            c['segment_uid'] = {k: new[v] for k, v in c['segment_uid'].items()}


def large(rng, kind=None, **kw):
    """An aircraft with many of something"""
    kind = kind or rng.choice(['wings', 'segs', 'ctls', 'num_c', 'num_s'])
    k = {'given': 1, 'num_c': (1, 1), 'num_s': (1, 1), **kw}
    if kind == 'wings':
        k.update(wings=(9, 13), segs=(1, 1), ctls=(0, 1))
    elif kind == 'segs':
        k.update(wings=(1, 2), segs=(9, 13), ctls=(0, 3), num_s=(1, 2))
    elif kind == 'ctls':
        k.update(wings=(1, 1), segs=(6, 9), ctls=(10, 13), num_s=(1, 2))
    elif kind == 'num_c':
        k.update(wings=(1, 1), segs=(1, 1), ctls=(0, 2), num_c=(20, 45))
    else:
        k.update(wings=(1, 1), segs=(1, 1), ctls=(0, 2), num_s=(20, 45))
    return aircraft(rng, **k)


def aircraft(rng, *, wings=(1, 3), segs=(1, 3), ctls=(0, 2), num_c=(1, 3), num_s=(1, 3), given=0.7,
             syms=(0, 2, 2, 1, 3), twist=0.4, foils=('NACA0012',), clash=0.0, multi=True, vertical=0.2):
    out = {'uid': 'ac', 'refs': {
        'area': r3(rng.uniform(0.5, 30)), 'chord': r3(rng.uniform(0.5, 4)), 'span': r3(rng.uniform(1, 20)),
        'gcenter': [r3(rng.uniform(-2, 3)) for _ in range(3)],
        'rcenter': [r3(rng.uniform(-2, 3)) for _ in range(3)]}, 'wings': []}
    nw = rng.randint(*wings)
    for w in range(nw):
        sym = rng.choice(syms)
        uid = f'w{w}'
        ns = rng.randint(*segs)
        vert = sym != 1 and rng.random() < vertical
        # keep the half and its image apart, and the wings apart from each other
        x0 = r3(6.0*w + rng.uniform(0, 1)) + (5 if sym == 3 else 0)
        y0 = r3(rng.choice([0.0, rng.uniform(0.1, 1)])) if sym == 2 else r3(rng.uniform(-1, 1))
        if vert and sym == 2:
            y0 = r3(rng.uniform(1.0, 2))
        z0 = r3(rng.uniform(1.5, 3)) if sym == 1 else r3(0.7*w + rng.uniform(-0.3, 0.3))
        if sym == 1:
            z0 += 1.5
        chain = segment_chain(rng, ns, vertical=vert, twist=rng.random() < twist, x0=x0, y0=y0, z0=z0)
        entry = {'uid': uid, 'symmetry': sym, 'segments': []}
        nss = []
        for k, v in enumerate(chain):
            seg = {'uid': f'{uid}_s{k}', 'vertices': v,
                   'airfoils': {'inner': rng.choice(foils), 'outer': rng.choice(foils)}}
            p = {}
            for key, (lo, hi) in (('num_c', num_c), ('num_s', num_s)):
                q = rng.random()
                if q < given:
                    p[key] = rng.randint(lo, hi)
                elif q < given + (1 - given)/2:
                    p[key] = None
            nss.append(p.get('num_s') or 2)
            if p or rng.random() < 0.5:
                seg['panels'] = p
            entry['segments'].append(seg)
        nctl = rng.randint(*ctls)
        if nctl or rng.random() < 0.5:
            entry['controls'] = controls(rng, uid, [s['uid'] for s in entry['segments']], nss, nctl,
                                         clash=rng.random() < clash, multi=multi)
        out['wings'].append(entry)
    if rng.random() < 0.4:
        rename(rng, out)
    return out


def norm_aircraft(ac):
    """The normal form of an aircraft definition for traces"""
    out = {'uid': ac['uid'], 'wings': []}
    r = ac['refs']
    out['refs'] = {'area': S(r['area']), 'chord': S(r['chord']), 'span': S(r['span']),
                   'gcenter': V(r['gcenter']), 'rcenter': V(r['rcenter'])}
    for w in ac['wings']:
        we = {'uid': w['uid'], 'sym': w['symmetry'], 'segs': [], 'ctls': []}
        for s in w['segments']:
            p = s.get('panels') or {}
            we['segs'].append({'uid': s['uid'], **{k: V(s['vertices'][k]) for k in 'abcd'},
                               'num_c': p.get('num_c') or 0, 'num_s': p.get('num_s') or 0,
                               'fi': s['airfoils']['inner'], 'fo': s['airfoils']['outer']})
        uids = [s['uid'] for s in w['segments']]
        for c in w.get('controls', []):
            rv, rh = c['rel_vertices'], c['rel_hinge_vertices']
            dm = c.get('deflection_mirror')
            we['ctls'].append({'u': c['uid'], 'type': c['device_type'], 'defl': S(c['deflection']),
                               'deflm': '' if dm is None else S(dm),
                               'si': uids.index(c['segment_uid']['inner']) + 1,
                               'so': uids.index(c['segment_uid']['outer']) + 1,
                               'ea': S(rv['eta_inner']), 'eb': S(rv['eta_outer']),
                               'x1': S(rv['xsi_inner']), 'x2': S(rv['xsi_outer']),
                               'h1': S(rh['xsi_inner']), 'h2': S(rh['xsi_outer']),
                               'num_c': (c.get('panels') or {}).get('num_c') or 0})
        out['wings'].append(we)
    return out


# ---------------------------------------------------------------- states
def state(rng, n=1, *, rates=True, alpha=12, beta=8, airspeed=(10, 120), density=(0.3, 1.3)):
    f = rng.uniform

    def many(lo, hi, zero=0.2):
        return [0.0 if rng.random() < zero else r3(f(lo, hi)) for _ in range(n)]
    out = {'airspeed': [r3(f(*airspeed)) for _ in range(n)], 'density': [r3(f(*density)) for _ in range(n)],
           'mach': None, 'altitude': None,
           'alpha': many(-alpha, alpha), 'beta': many(-beta, beta)}
    for k in ('rate_P', 'rate_Q', 'rate_R'):
        out[k] = many(-1.5, 1.5, 0.35) if rates else [0.0]*n
    return {'aero': out}


def norm_point(st, i):
    a = st['aero']
    return {k: S(a[k][i]) for k in ('airspeed', 'density', 'alpha', 'beta', 'rate_P', 'rate_Q', 'rate_R')}


def settings(rng=None, **kw):
    out = {'aircraft': 'ac.json', 'state': 'st.json'}
    out.update(kw)
    return out


def project(ac, st, se=None, **kw):
    return {'aircraft': ac, 'state': st, 'settings': se or settings(), **kw}


def dumps(x):
    return json.dumps(x)
