"""Histories of requests on a single wing segment"""
from drivers import num
from d_vlm import strips


def run(case):
    from pytornado.objects.aircraft import Aircraft
    ac = Aircraft()
    wing = ac.add_wing('w')
    seg = wing.add_segment('s')
    for k in 'abcd':
        seg.vertices[k] = [float(x) for x in case['seg'][k]]
    seg.airfoils['inner'] = seg.airfoils['outer'] = 'NACA0012'
    seg.generate()
    out = [{'outcome': 'ok', 'ss': strips(seg)}]
    for op in case['hist']:
        try:
            if op['op'] == 'div':
                e = float(op['e'])
                seg.add_subdivision(e, e, ignore_inval_eta=op.get('ignore', False))
            else:
                c = op['c']
                ctl = wing.add_control(c['u'])
                ctl.device_type = c['type']
                hinge = {} if op.get('nohinge') else {'xsi_h1': float(c['h1']), 'xsi_h2': float(c['h2'])}
                seg.add_subdivision_for_control(float(c['ea']), float(c['eb']), ctl,
                                                float(c['x1']), float(c['x2']), **hinge)
            o = 'ok'
        except Exception as e:
            o = 'refused'
        out.append({'outcome': o, 'ss': strips(seg)})
    return {'kind': 'ok', 'obs': out}
