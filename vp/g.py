"""Builders and observers over PyGnome's public API used by the checks."""
import copy
from datetime import datetime, timedelta

import numpy as np

import gnome.scripting as gs
from gnome.model import Model
from gnome.movers import SimpleMover, RandomMover, PointWindMover
from gnome.environment.wind import constant_wind
from gnome.basic_types import oil_status

T0 = datetime(2020, 3, 1, 6, 0)


def hrs(x):
    return timedelta(hours=x)


def mins(x):
    return timedelta(minutes=x)


def secs(x):
    return timedelta(seconds=x)


def snap_sc(sc, skip=()):
    """everything a user can observe of one set of elements, bit for bit"""
    out = {}
    for k in sorted(sc.data_arrays.keys()):
        if k in skip:
            continue
        a = sc[k]
        out[k] = (a.shape, str(a.dtype), a.tobytes())
    out['#mass_balance'] = repr(sorted((k, v if not isinstance(v, np.ndarray) else v.tolist())
                                       for k, v in sc.mass_balance.items()))
    out['#time'] = sc.current_time_stamp
    return out


def snap(model, skip=()):
    return [snap_sc(sc, skip) for sc in model.spills.items()]


def diff_snap(a, b):
    if len(a) != len(b):
        return 'number of element sets: %d vs %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if set(x) != set(y):
            return 'set %d has different arrays: %s' % (i, sorted(set(x) ^ set(y)))
        for k in x:
            if x[k] != y[k]:
                return 'set %d differs in %s: %s vs %s' % (i, k, _show(x[k]), _show(y[k]))
    return None


def _show(v):
    if isinstance(v, tuple) and len(v) == 3:
        try:
            return repr(np.frombuffer(v[2], dtype=v[1]).tolist())[:300]
        except Exception:
            return repr(v)[:300]
    return repr(v)[:300]
