"""CPACS files that are edited, imported, analysed and exported (with stand-ins for TiXI and TiGL)"""
import copy
import glob
import hashlib
import importlib
import json
import os
import sys
import xml.etree.ElementTree as ET

from d_vlm import standard
from drivers import num

RES = ('cl', 'cd', 'cs', 'cmd', 'cms', 'cml')
COEFF = {'cl': 'L', 'cd': 'D', 'cs': 'C', 'cmd': 'l', 'cms': 'm', 'cml': 'n'}


def fresh():
    """Import the package anew, now with the stand-ins in place"""
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'standins'))
    for m in [m for m in sys.modules if m.split('.')[0] == 'pytornado' and not (getattr(sys.modules[m], '__file__', None) or '').endswith('.so')]:
        del sys.modules[m]
    importlib.import_module('pytornado.stdfun.run')
    importlib.import_module('pytornado.stdfun.setup')


def sub(parent, tag, text=None, **attr):
    e = ET.SubElement(parent, tag, attr)
    if text is not None:
        e.text = str(text)
    return e


def geometry(doc):
    """What TiGL would make of the file"""
    out = []
    for w in doc['wings']:
        out.append({'uid': w['uid'], 'sym': int(w['sym']),
                    'segs': [{'uid': s['uid'], 'p': {k: [float(x) for x in v] for k, v in s['p'].items()}, 't': [float(x) for x in s['t']],
                              'fi': s['fi'], 'fo': s['fo']} for s in w['segs']],
                    'csegs': [{'uid': c['uid'], 'segs': c['segs'], 'borders': [float(x) for x in c['borders']], 'shift': float(c['shift'])}
                              for c in w['csegs']]})
    return out


def render(doc, extra, results):
    root = ET.Element('cpacs')
    h = sub(root, 'header')
    sub(h, 'name', 'test')
    model = sub(sub(sub(root, 'vehicles'), 'aircraft'), 'model', uID=doc['uid'])
    sub(model, 'name', 'an aircraft')
    ref = sub(model, 'reference')
    sub(ref, 'area', doc['refs']['area'])
    sub(ref, 'length', doc['refs']['length'])
    p = sub(ref, 'point')
    for k, v in zip('xyz', doc['refs']['p']):
        sub(p, k, v)
    if doc['hasWings']:
        wings = sub(model, 'wings')
        for w in doc['wings']:
            we = sub(wings, 'wing', **({'uID': w['uid']} if w['named'] else {}))
            sub(we, 'name', 'wing')
            segs = sub(we, 'segments')
            for s in w['segs']:
                sub(segs, 'segment', uID=s['uid'])
            cs = sub(we, 'componentSegments')
            for c in w['csegs']:
                ce = sub(cs, 'componentSegment', uID=c['uid'])
                if not c['ctls']:
                    continue
                surf = sub(ce, 'controlSurfaces')
                if extra.get('leading'):
                    # leading edge devices have no xsiLE
                    le = sub(sub(surf, 'leadingEdgeDevices'), 'leadingEdgeDevice', uID=c['uid'] + '_slat')
                    sh = sub(le, 'outerShape')
                    for b in ('innerBorder', 'outerBorder'):
                        be = sub(sh, b)
                        sub(sub(be, 'etaLE'), 'eta', 0.1)
                        sub(sub(be, 'etaTE'), 'eta', 0.1)
                        sub(sub(be, 'xsiTE'), 'xsi', 0.2)
                te = sub(surf, 'trailingEdgeDevices')
                for k in c['ctls']:
                    d = sub(te, 'trailingEdgeDevice', uID=k['uid'])
                    sh = sub(d, 'outerShape')
                    for b, s in (('innerBorder', 'i'), ('outerBorder', 'o')):
                        be = sub(sh, b)
                        sub(sub(be, 'etaLE'), 'eta', k['e' + s])
                        sub(sub(be, 'etaTE'), 'eta', k['te' + s])
                        sub(sub(be, 'xsiLE'), 'xsi', k['x' + s])
                    pa = sub(d, 'path')
                    sub(sub(pa, 'innerHingePoint'), 'hingeXsi', k['hi'])
                    sub(sub(pa, 'outerHingePoint'), 'hingeXsi', k['ho'])
    ap = sub(sub(model, 'analyses'), 'aeroPerformance')
    for m in doc['maps']:
        me = sub(ap, 'aeroMap', uID=m['uid'])
        sub(me, 'name', m['uid'])
        pm = sub(me, 'aeroPerformanceMap')
        for tag, k in (('altitude', 'alt'), ('machNumber', 'mach'), ('angleOfAttack', 'aoa'), ('angleOfSideslip', 'aos')):
            sub(pm, tag, ';'.join(m[k]), mapType='vector')
        for k, text in results.get(m['uid'], {}).items():
            sub(pm, k, text, mapType='vector')
    prof = sub(sub(root.find('vehicles'), 'profiles'), 'wingAirfoils')
    for name, pts in extra['foils'].items():
        f = sub(prof, 'wingAirfoil', uID=name + '_uid')
        sub(f, 'name', name)
        pl = sub(f, 'pointList')
        sub(pl, 'x', ';'.join(x for x, _ in pts), mapType='vector')
        sub(pl, 'y', ';'.join('0' for _ in pts), mapType='vector')
        sub(pl, 'z', ';'.join(z for _, z in pts), mapType='vector')
    tool = sub(root, 'toolspecific')
    sub(sub(tool, 'other'), 'aeroMapUID', 'wrong')
    pt = sub(tool, 'pytornado')
    if doc['sel']:
        sub(pt, 'aeroMapUID', doc['sel'])
    if doc['devs'] or extra.get('nodevices'):
        cd = sub(pt, 'controlDevices')
        for d in doc['devs']:
            de = sub(cd, 'controlDevice', uID=d['uid'])
            if d['d'] != '':
                sub(de, 'deflection', d['d'])
            if d['dm'] != '':
                sub(de, 'deflectionMirror', d['dm'])
    sub(root, 'geometry', json.dumps(geometry(doc)))
    return root


def stored(path):
    """Results of each map, and everything else of the file"""
    root = ET.parse(path).getroot()
    res, raw = {}, {}
    for m in root.iter('aeroMap'):
        pm = m.find('aeroPerformanceMap')
        res[m.get('uID')], raw[m.get('uID')] = {}, {}
        for k in RES:
            e = pm.findall(k)
            res[m.get('uID')][k] = [num(x) for x in e[0].text.split(';')] if len(e) == 1 else [] if not e else ['twice']
            if e:
                raw[m.get('uID')][k] = e[0].text
            for x in e:
                pm.remove(x)
    return res, raw, hashlib.sha1(ET.tostring(root, encoding='unicode').strip().encode()).hexdigest()[:12]


def swap(w):
    for s in w['segs']:
        p = s['p']
        s['p'] = {'a': p['b'], 'b': p['a'], 'c': p['d'], 'd': p['c']}
        s['fi'], s['fo'] = s['fo'], s['fi']
    for c in w['csegs']:
        for k in c['ctls']:
            k['ei'], k['eo'] = num(1 - float(k['eo'])), num(1 - float(k['ei']))
            k['tei'], k['teo'] = k['teo'], k['tei']
            k['xi'], k['xo'], k['hi'], k['ho'] = k['xo'], k['xi'], k['ho'], k['hi']


def change(doc, e):
    d = copy.deepcopy(doc)
    op = e['op']
    if op == 'sym':
        d['wings'][e['w'] - 1]['sym'] = e['v']
    elif op == 'named':
        d['wings'][e['w'] - 1]['named'] ^= True
    elif op == 'reverse':
        swap(d['wings'][e['w'] - 1])
    elif op == 'dev':
        d['devs'][e['i'] - 1]['uid'] = e['v']
    elif op == 'deflect':
        d['devs'][e['i'] - 1].update(d=e['v'], dm=e['m'])
    elif op in ('devorder', 'wingorder', 'maporder'):
        d[{'d': 'devs', 'w': 'wings', 'm': 'maps'}[op[0]]].reverse()
    elif op == 'devdrop':
        d['devs'].pop(0)
    elif op == 'wings':
        d['hasWings'] ^= True
    elif op == 'select':
        d['sel'] = e['v']
    elif op == 'mapdrop':
        d['maps'].pop(0)
    elif op == 'point':
        for k in ('alt', 'mach', 'aoa', 'aos'):
            d['maps'][e['i'] - 1][k].append(e[k])
    elif op == 'unpoint':
        for k in ('alt', 'mach', 'aoa', 'aos'):
            d['maps'][e['i'] - 1][k].pop(0)
    elif op == 'uneven':
        d['maps'][e['i'] - 1][e['v']].pop()
    return d


def outcome(f):
    try:
        return 'ok', f()
    except (Exception, SystemExit) as x:
        return f'refused {type(x).__name__}: {x}'[:160], None


def run(case):
    fresh()
    from d_define import model
    from pytornado.fileio.cpacs import aircraft as cpacs_aircraft, state as cpacs_state
    from pytornado.fileio.native import aircraft as io_aircraft, settings as io_settings
    from pytornado.stdfun.setup import cpacs2pytornado
    for d in ('aircraft', 'settings', 'state', 'airfoils', 'deformation'):
        os.makedirs(f'proj/{d}')
    root = os.path.abspath('proj')
    xml, run_json = f'{root}/aircraft/x.xml', f'{root}/settings/run.json'
    with open(run_json, 'w') as fp:
        json.dump({'aircraft': 'x.xml', 'state': '__CPACS', 'vlm_autopanels_c': 1, 'vlm_autopanels_s': 2, 'save_results': {'global': True}}, fp)
    with open(f'{root}/settings/native.json', 'w') as fp:
        json.dump({'aircraft': 'x.json', 'state': 'none.json'}, fp)
    with open(f'{root}/settings/both.json', 'w') as fp:
        json.dump({**json.load(open(run_json)), 'state': 'st.json'}, fp)
    with open(f'{root}/state/st.json', 'w') as fp:
        json.dump({'aero': {k: [v, 2*v] for k, v in (('altitude', 100), ('mach', 0.2), ('alpha', 1), ('beta', 2), ('rate_P', 0), ('rate_Q', 1), ('rate_R', 0))}}, fp)
    ev = []
    doc = case['doc']
    raw = {}
    for e in [{'op': 'start'}] + case['hist']:
        doc = change(doc, e)
        ET.ElementTree(render(doc, case['extra'], raw)).write(xml)
        for f in glob.glob(f'{root}/airfoils/*'):
            os.remove(f)
        r = {**e, 'doc': doc, 'ran': 'no', 'coeffs': [], 'exported': 'no', 'exportedmodel': [], 'model': [], 'points': {}, 'foils': {}}
        r['before'], _, rest0 = stored(xml)
        sets = io_settings.load(run_json)
        r['aircraft'], ac = outcome(lambda: cpacs_aircraft.load(sets))
        r['state'], st = outcome(lambda: cpacs_state.load(sets))
        if ac is not None:
            r['model'] = [model(ac, root)]
            for f in sorted(os.listdir(f'{root}/airfoils')):
                lines = [x.split() for x in open(f'{root}/airfoils/{f}') if not x.startswith('#')]
                r['foils'][f] = [[num(x) for x in ln] for ln in lines]
        if st is not None:
            r['points'] = {k: [num(x) for x in st.aero[n]] for k, n in (('alt', 'altitude'), ('mach', 'mach'), ('aoa', 'alpha'), ('aos', 'beta'),
                                                                      ('P', 'rate_P'), ('Q', 'rate_Q'), ('R', 'rate_R'))}
        if e['op'] in ('run', 'native'):
            for f in glob.glob(f'{root}/_results/*/global.json'):
                os.remove(f)
            r['ran'], _ = outcome(lambda: standard(run_json if e['op'] == 'run' else f'{root}/settings/both.json'))
            for f in sorted(glob.glob(f'{root}/_results/*/global.json')):
                c = json.load(open(f))['global_coeffs']
                r['coeffs'].append({k: num(c[v]) for k, v in COEFF.items()})
        if e['op'] == 'export':
            here = os.getcwd()
            os.chdir(root)
            try:
                r['exported'], _ = outcome(lambda: cpacs2pytornado(xml))
            finally:
                os.chdir(here)
            if r['exported'] == 'ok':
                r['exported'], ac = outcome(lambda: io_aircraft.load(io_settings.load(f'{root}/settings/native.json')))
                r['exportedmodel'] = [model(ac, root)] if ac is not None else []
            if os.path.exists(f'{root}/aircraft/x.json'):
                os.remove(f'{root}/aircraft/x.json')
        r['after'], raw, rest1 = stored(xml)
        r['rest'] = rest0 == rest1
        ev.append(r)
    return {'kind': 'ok', 'ev': ev}
