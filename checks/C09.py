"""C09: computed circulations satisfy flow tangency"""
from vt.engine import Check, Model, Part
from vt.vlmtrace import flow_case, flow_fields, sampled

WANT = ['lattice', 'system']


def cases(ctx):
    rng = ctx.rng('runs')
    return [flow_case(rng, i, 'flow', WANT, limit=600 if i % 100 == 17 else 150 if i % 40 == 3 else 36 if i % 25 == 0 else 16) for i in range(ctx.pick(150, 1500))]


def trace(case, obs):
    ev = [{'e': 'run', 'outcome': obs['kind']}]
    if obs['kind'] == 'ok':
        chosen = sampled(len(obs['A']), 40, 5)
        for i, (a, b, c, n) in enumerate(zip(obs['A'], obs['rhs'], obs['c'], obs['n']), 1):
            if i in chosen:
                ev.append({'e': 'row', 'i': i, 'a': a, 'b': b, 'c': c, 'n': n})
        ev.append({'e': 'end', 'rows': len(chosen), 'n': obs['info']['num_panels']})
    return {'ev': ev, **flow_fields(case, obs)}


class C09(Check):
    prop = 'C09'
    models = [Model('MC_Vlm', min_states=200), Model('MC_Vlm', 'MC_Vlm_deep', min_states=500, quick=False)]
    parts = [Part('runs', 'T_System', cases, trace)]
    assumptions = ['Relative tolerance 1e-7 (matrix, tangency) and 1e-9 (right-hand side)',
                   'Vortex points, collocation points and normals are those recorded (C06 and C08 decide them)',
                   'Trailing legs are finite (at least 50 times longer than 100 m) and the regularisation of the code '
                   '(_epsilon) is part of the induced velocity', 'Of lattices with more than 40 panels only 5 equations are checked (the model of the others is the same)']


CHECK = C09()
