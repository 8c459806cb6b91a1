"""The objects of the fault-injection check."""
import os

import numpy as np

from vp.g import *
from vp.objs import describe, close
from gnome.environment import Wind, Water, Waves
from gnome.maps.map import MapFromBNA, GnomeMap
from gnome.spills.spill import point_line_spill
from gnome.movers import SimpleMover, PointWindMover, RandomMover

OTHER = SimpleMover


def other():
    return SimpleMover((3., 4., 0.), name='the other')


def _bna(root):
    p = os.path.join(root, 'coast.bna')
    pts = [(-10, -10), (10, -10), (10, 10), (-10, 10), (-10, -10)]
    isl = [(2, 0), (3, 0), (3, 1), (2, 1), (2, 0)]
    with open(p, 'w') as f:
        f.write('"Map Bounds","1",%d\n' % len(pts) + ''.join('%g,%g\n' % q for q in pts))
        f.write('"Island","1",%d\n' % len(isl) + ''.join('%g,%g\n' % q for q in isl))
    return p


def _model(root, name='new', unc=False, mp=False, steps=0):
    w = constant_wind(5, 30)
    w.name = name + ' wind'
    kw = {}
    if mp:
        kw['map'] = MapFromBNA(_bna(root), refloat_halflife=.5, raster_size=4096)
    m = Model(start_time=T0, time_step=900, duration=hrs(1), environment=[w, Water(281.)], uncertain=unc,
              movers=[PointWindMover(w, name='mv'), RandomMover(diffusion_coef=1000.)],
              spills=[point_line_spill(4, (0., 0., 0.), T0, end_release_time=T0 + mins(40), name='sp')], name=name, **kw)
    m.rewind()
    for _ in range(steps):
        m.step()
    return m


OBJECTS = {
    'wind': lambda r: PointWindMover(Wind(timeseries=[(T0, (1., 2.)), (T0 + hrs(1), (3., 4.))], units='m/s', name='new wind'), name='new'),
    'model': lambda r: _model(r),
    'map': lambda r: _model(r, mp=True),
    'mid': lambda r: _model(r, steps=3),
    'mid_unc': lambda r: _model(r, steps=2, unc=True),
}


def old_like(o):
    if isinstance(o, Model):
        return Model(start_time=T0 + hrs(5), time_step=600, duration=hrs(2), name='old', movers=[SimpleMover((1., 1., 0.), name='old mover')])
    return PointWindMover(constant_wind(9, 90), name='old')


def file_name(o):
    return o.name + '.gnome'


def desc(o):
    if isinstance(o, Model):
        return [o.name, o.start_time, o.time_step, o.duration, o.uncertain, type(o.map).__name__, np.asarray(o.map.map_bounds).tolist(),
                [describe(x) for x in o.environment], [describe(x) for x in o.movers], [describe(x) for x in o.spills],
                [[mv.wind is e for e in o.environment] for mv in o.movers if hasattr(mv, 'wind')]]
    return [describe(o)]


def same(a, b):
    return close(a, b, 1e-12)


def reference(obj, root):
    """a function telling whether the model in hand runs to its end as it would
    have without the save"""
    if not obj.startswith('mid'):
        return lambda m: None
    r = OBJECTS[obj](root)
    # the random numbers depend on what ran before; only the time line and the
    # number of elements are compared past this point, and the present state exactly
    now = snap(r)
    line = []
    while True:
        try:
            r.step()
        except StopIteration:
            break
        line.append((r.current_time_step, [len(sc['positions']) for sc in r.spills.items()]))

    def go(m):
        d = diff_snap(now, snap(m))
        if d:
            return 'the elements of the running model were altered: ' + d
        got = []
        while True:
            try:
                m.step()
            except StopIteration:
                break
            got.append((m.current_time_step, [len(sc['positions']) for sc in m.spills.items()]))
        if got != line:
            return 'the run went on differently: %s, expected %s' % (got, line)
    return go
