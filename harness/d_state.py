"""Flight states: through the API or through a state file"""
import json

from drivers import num, nums


def _collect(state):
    pts = []
    for cur in state.iter_states():
        pts.append({'pt': {k: num(v) for k, v in cur.aero.items()},
                    'fsv': nums(cur.free_stream_velocity_vector)})
    return pts


def run(case):
    from pytornado.objects.state import FlightState
    inp = {}
    for key, e in case['inp'].items():
        if e['k'] == 'absent':
            continue
        if e['k'] == 'null':
            inp[key] = None
            continue
        v = [json.loads(x) for x in e['raw']]
        inp[key] = v[0] if e['k'] == 'num' else v
    if case['via'] == 'file':
        from pytornado.objects.settings import Settings
        import pytornado.fileio as io
        settings = Settings('s.json', '.', settings_dict={'aircraft': 'a.json', 'state': 'st.json'})
        with open('state/st.json', 'w') as fp:
            json.dump({'aero': inp}, fp)
        try:
            state = io.native.state.load(settings)
            pts = _collect(state)
        except Exception as e:
            return {'kind': 'refused', 'type': type(e).__name__, 'msg': str(e)[:200]}
    else:
        try:
            state = FlightState()
            state.update_from_dict(inp)
            pts = _collect(state)
        except Exception as e:
            return {'kind': 'refused', 'type': type(e).__name__, 'msg': str(e)[:200]}
    return {'kind': 'ok', 'pts': pts}
