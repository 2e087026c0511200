"""C21: Derived measures of wings"""
from vt.engine import Check, Model, Part


def num(x):
    return repr(float(x))


def vec(*p):
    return [num(x) for x in p]


def wing(rng, n, plane):
    def q(a, b):
        return round(rng.uniform(a, b)*1024)/1024
    fin = rng.random() < 0.25
    p = [q(-3, 6), q(-4, 4), q(-3, 3)] if rng.random() < 0.7 else [0.0, 0.0, 0.0]
    chord, tw = [q(0.6, 3), 0, 0], (lambda c: [c, 0.0, 0.0] if plane else [c, q(-0.15, 0.15)*c, q(-0.15, 0.15)*c])
    edge = tw(chord[0])
    out = []
    for _ in range(n):
        s = rng.choice([-1, 1]) if rng.random() < 0.1 else 1
        step = [q(-1, 2), q(-0.4, 0.4), s*q(0.5, 4)] if fin else [q(-1, 2), s*q(0.5, 4), q(-1, 1)]
        b = [x + y for x, y in zip(p, step)]
        e2 = tw(q(0.6, 2.5))
        out.append({'a': vec(*p), 'b': vec(*b), 'c': vec(*(x + y for x, y in zip(b, e2))), 'd': vec(*(x + y for x, y in zip(p, edge))),
                    'ia': num(rng.choice([0.25, 0.25, 0.5, 0.0, 1.0, 0.3])), 'oa': num(rng.choice([0.25, 0.25, 0.5, 0.0, 1.0, 0.7]))})
        p, edge = b, e2
    return out


def desc(rng):
    """Some segments that are given by measures and corners as well"""
    return [[rng.randint(1, 3), rng.randint(1, 4), rng.choice(['a', 'b', 'c', 'd', 'ad', 'bc']), rng.randint(0, 2)] for _ in range(rng.randint(1, 3))]


def case(rng, h, i):
    plane = rng.random() < 0.3
    # the histories begin with one wing of one segment
    ac = [{'sym': rng.choice('0123'), 'segs': wing(rng, 1, plane)}]
    extra = [{'sym': rng.choice('0123'), 'segs': wing(rng, rng.randint(1, 3), plane)} for _ in range(rng.choice([0, 0, 1, 2]))]
    if i % 83 == 5:
        # many segments, many wings
        extra = [{'sym': rng.choice('0123'), 'segs': wing(rng, n, plane)} for n in rng.choice([[rng.randint(11, 14)], [1]*rng.randint(10, 12)])]
    ac += extra
    h = [dict(e) for e in h]
    for e in h:
        if e['op'] in ('shift', 'vertex', 'extend', 'add'):
            m = {'shift': 20, 'vertex': 0.2, 'extend': 1.5, 'add': 8}[e['op']]
            e['v'] = vec(*(round(rng.uniform(-m, m)*1024)/1024 for _ in range(3)))
            if e['op'] == 'extend':
                e['v'][1] = num(abs(float(e['v'][1])) + 0.25)
            if e['op'] == 'shift' and rng.random() < 0.3:
                e['v'] = vec(*(float(x)*100 for x in e['v']))
        if e['op'] == 'scale':
            e['k'] = num(rng.choice([1.25, 3.0, 1.9] if len(h) > 2 else [0.5, 3.0, 0.7, 100.0]))
        if e['op'] == 'axis':
            e['ia'], e['oa'] = num(rng.randint(0, 16)/16), num(rng.randint(0, 16)/16)
        if e['op'] in ('sym', 'add'):
            e['to'] = rng.choice('0123')
        # wings that are added come after the extra ones
        if e.get('w') == 2 and extra:
            e['w'] = 2 + len(extra)
        e['file'] = rng.random() < 0.25
        e['desc'] = desc(rng) if rng.random() < 0.4 else []
    return {'driver': 'measures', 'desc': desc(rng), 'tag': f'{i} ' + ' '.join(e['op'] for e in h), 'ac': ac, 'hist': h}


def cases(ctx):
    rng = ctx.rng('histories')
    short = [x['hist'] for x in ctx.mc['MC_Measures_gen']]
    walks = [x['hist'] for x in ctx.mc['MC_Measures_walk'] if len(x['hist']) == 8]
    pool = rng.sample(short, ctx.pick(150, len(short))) + rng.sample(walks, ctx.pick(100, min(1500, len(walks))))
    return [case(rng, h, i) for _ in range(ctx.pick(1, 2)) for i, h in enumerate(pool)]


def trace(case, obs):
    if obs['kind'] != 'ok':
        return [{'op': 'failed', 'kind': obs['kind'], 'msg': obs.get('msg', ''), 'where': obs.get('where', '')[-300:]}]
    return {'ev': obs['ev']}


class C21(Check):
    prop = 'C21'
    models = [Model('MC_Measures', quick=True, min_states=300), Model('MC_Measures', 'MC_Measures_deep', quick=False, min_states=20000),
              Model('MC_Measures', 'MC_Measures_gen', quick=True, min_states=300),
              Model('MC_Measures', 'MC_Measures_walk', quick=True, min_states=0, args=['-simulate', 'num=100', '-depth', '9', '-seed', '5'])]
    parts = [Part('histories', 'T_Measures', cases, trace)]
    assumptions = ['Trailing edges are behind leading edges; segments that are given by measures extend to starboard; the span of a segment is that of its leading edge '
                   'seen from ahead; angles of yaw are positive where the trailing edge lies towards the port side (negative y)']


CHECK = C21()
