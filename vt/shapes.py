"""Aircraft for the shapes enumerated by spec/MC_Panelling.tla"""
from vt import gen


def shape_aircraft(x, rng):
    """x: [segs, num_s, num_c, sym, ctls : [type, si, so, ea, eb]]"""
    n = x['segs']
    chain = gen.segment_chain(rng, n, x0=5.0 if x['sym'] == 3 else 0.0, z0=3.0 if x['sym'] == 1 else 0.0,
                              twist=rng.random() < 0.3)
    segs = []
    for k, v in enumerate(chain):
        p = {'num_c': x['num_c'] or None, 'num_s': x['num_s'][k] or None}
        segs.append({'uid': f's{k}', 'vertices': v, 'airfoils': {'inner': 'NACA0012', 'outer': 'NACA0012'},
                     'panels': p})
    ctls = []
    for k, c in enumerate(x['ctls']):
        x1, x2, h1, h2 = gen.control_shape(rng, c['type'])
        if c.get('x'):
            x1, x2, h1, h2 = [float(q) for q in c['x']]
        ctls.append({'uid': f'c{k}', 'device_type': c['type'], 'deflection': gen.r3(rng.uniform(-10, 10)),
                     'segment_uid': {'inner': f's{c["si"] - 1}', 'outer': f's{c["so"] - 1}'},
                     'rel_vertices': {'eta_inner': float(c['ea']), 'eta_outer': float(c['eb']),
                                      'xsi_inner': x1, 'xsi_outer': x2},
                     'rel_hinge_vertices': {'xsi_inner': h1, 'xsi_outer': h2},
                     'panels': {'num_c': rng.choice([None, 1, 2, 3])}})
    return {'uid': 'ac', 'refs': {'area': 10.0, 'chord': 2.0, 'span': 8.0, 'gcenter': [0.5, 0, 0], 'rcenter': [0.5, 0, 0]},
            'wings': [{'uid': 'w', 'symmetry': x['sym'], 'segments': segs, 'controls': ctls}]}
