"""C10: panel loads, totals, moments and coefficients are consistent"""
from vt.engine import Check, Model, Part
from vt.vlmtrace import flow_case, flow_fields, sampled

WANT = ['lattice', 'system', 'loads']


def cases(ctx):
    rng = ctx.rng('runs')
    return [flow_case(rng, i, 'flow', WANT, limit=600 if i % 100 == 17 else 150 if i % 40 == 3 else 36 if i % 25 == 0 else 16) for i in range(ctx.pick(150, 1500))]


def trace(case, obs):
    ev = [{'e': 'run', 'outcome': obs['kind']}]
    if obs['kind'] == 'ok':
        pw = obs['pw']
        chosen = sampled(len(obs['gamma']), 40, 5)
        for i in range(len(obs['gamma'])):
            ev.append({'e': 'panel', 'i': i + 1, 'full': i + 1 in chosen, 'vel': [pw[k][i] for k in ('vx', 'vy', 'vz')], 'vmag': pw['vmag'][i],
                       'f': [pw[k][i] for k in ('fx', 'fy', 'fz')], 'fmag': pw['fmag'][i], 'gamma': pw['gamma'][i],
                       'cp': pw['cp'][i], 'area': obs['a'][i], 'n': obs['n'][i]})
        ev.append({'e': 'total', 'n': obs['info']['num_panels'], 'forces': obs['forces'], 'coeffs': obs['coeffs']})
    return {'ev': ev, **flow_fields(case, obs)}


class C10(Check):
    prop = 'C10'
    models = [Model('MC_Vlm', min_states=200), Model('MC_Vlm', 'MC_Vlm_deep', min_states=500, quick=False)]
    parts = [Part('runs', 'T_Loads', cases, trace)]
    assumptions = ['Relative tolerance 1e-7 for velocities and panel forces, 1e-9 for sums and coefficients',
                   'The reported panel velocity is the induced velocity alone, as in the code and its documentation',
                   'Airspeeds above 0', 'Of lattices with more than 40 panels only 5 velocities are checked (sums and coefficients are always complete)']


CHECK = C10()
