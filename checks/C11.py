"""C11: similarity and invariance laws of the loads"""
from vt import laws
from vt.engine import Check, Model, Part

LAWS = ['density', 'speed', 'shift', 'size', 'order', 'add', 'zero', 'turn']


def cases(ctx):
    rng = ctx.rng('runs')
    return [laws.case(rng, law) for _ in range(ctx.pick(40, 400)) for law in LAWS]


class C11(Check):
    prop = 'C11'
    models = [Model('MC_Vlm', min_states=200), Model('MC_Vlm', 'MC_Vlm_deep', min_states=500, quick=False)]
    parts = [Part('laws', 'T_Laws', cases, laws.trace)]
    assumptions = ['Relative tolerance 1e-7 of the largest component; 5e-3 for a change of size (trailing legs of fixed length stand for infinite ones, unless the lattice is almost singular)',
                   'Shifts along the planes of symmetry only', 'Airspeeds above 0']


CHECK = C11()
