"""
Drivers: each runs one case on the code under test and returns what it did.
A driver only uses what a user of the package can use.
"""

import importlib


def preload():
    import numpy                                          # noqa
    import scipy.linalg.lapack                            # noqa
    import matplotlib                                     # noqa
    matplotlib.use('Agg')
    import pytornado.stdfun.run                           # noqa
    import pytornado.stdfun.setup                         # noqa
    import pytornado.database.tools                       # noqa


def run(case):
    modname, _, func = case['driver'].partition('.')
    mod = importlib.import_module(f'd_{modname}')
    return getattr(mod, func or 'run')(case)


def num(x):
    """A real number as it appears in traces"""
    return repr(float(x))


def nums(a):
    """Nested sequences / arrays of numbers"""
    import numpy as np
    a = np.asarray(a, dtype=float)
    if a.ndim == 0:
        return repr(float(a))
    return _conv(a.tolist())


def _conv(x):
    if isinstance(x, list):
        return [_conv(y) for y in x]
    return repr(x)
