"""C14  what was saved is what is loaded."""
import contextlib
import itertools
import os
import pathlib
import shutil
import tempfile
import zipfile

import numpy as np

from vp.core import Part, check, scratch_dir
from vp.g import *
from vp.objs import *
from vp import scen, scen2
from gnome.spills.spill import point_line_spill, surface_point_line_spill, subsurface_spill, grid_spill, spatial_release_spill

PROPERTY = 'C14'
LEVEL = 'model_checking'
NOTE = 'every class x attribute value, pair of names, way to share objects, location and moment of the run of the stated grids is saved, loaded and compared with the object that was saved'
ASSUMPTIONS = ['numbers of oils are kept to 6 significant digits (the oil arrays are rounded on purpose), everything else to 1e-12',
               'the name of a NetCDF/binary outputter and of an oil follows from its file or oil name; data files are compared by content']

OILY = ('GnomeOil',)


@contextlib.contextmanager
def work():
    """a private directory, also for the temporary files of load()"""
    d = scratch_dir('c14')
    old = tempfile.tempdir
    t = os.path.join(d, 'tmp')
    os.mkdir(t)
    tempfile.tempdir = t
    try:
        yield d
    finally:
        tempfile.tempdir = old
        shutil.rmtree(d, ignore_errors=True)


TAB = table()


def obj_cases(pairs):
    def it():
        for n, (cls, fixed, attrs) in TAB.items():
            al = [(a, i) for a, vs in attrs.items() if not a.startswith('_p') for i in range(len(vs))]
            yield (n, ())
            for x in al:
                yield (n, (x,))
            if pairs:
                for x, y in itertools.combinations(al, 2):
                    if x[0] != y[0]:
                        yield (n, (x, y))
    return it


def build(case):
    n, choice = case
    ent = TAB[n]
    return make(ent, {a: ent[2][a][i] for a, i in choice})


def tol_of(n):
    return 1e-6 if n in OILY else 1e-12


def obj_run(case):
    n, choice = case
    try:
        o = build(case)
    except (ValueError, TypeError):
        if len(choice) < 2:
            raise
        return dict(trivial=True, sig=('refused', n))          # two settings that exclude each other
    want = describe(o)
    with work() as d:
        f = os.path.join(d, 'x.gnome')
        o.save(f)
        df = differences(want, describe(o))
        check(not df, 'saving changed the object: %s', df)
        l = type(o).load(f)
        check(type(l) is type(o), 'loaded a %s', type(l))
        df = differences(want, describe(l), tol_of(n))
        check(not df, 'loaded differs from saved (attribute, saved, loaded): %s', df)
        if n not in OILY:
            check(o == l and not (o != l), 'the loaded object is not equal to the saved one')
        # again: the loaded object is just as good
        g = os.path.join(d, 'y.zip')
        l.save(g)
        l2 = type(o).load(g)
        df = differences(want, describe(l2), tol_of(n))
        check(not df, 'saved, loaded, saved and loaded differs: %s', df)
        left = sorted(x for x in os.listdir(d) if x != 'tmp')
        check(left == ['x.gnome', 'y.zip'], 'files left by saving: %s', left)
    return dict(states=2, transitions=4, sig=case)


# ---------------------------------------------------------------- locations

def small():
    return PointWindMover(Wind(timeseries=TS, units='knots', name='the wind'), name='the mover', uncertain_duration=5.)


LOCS = ['x.gnome', 'x[1].gnome', 'x.zip', 'x', 'a b.gnome', 'ü.gnome', 'dir', 'dir/', 'none', 'open', 'relative']


def loc_run(case):
    loc, aspath, exists, overwrite, how = case
    o = small()
    want = describe(o)
    with work() as d:
        cwd = os.getcwd()
        os.mkdir(os.path.join(d, 'dir'))
        other = SimpleMover((3., 4., 0.), name='the other')
        zf = where = None
        try:
            if loc == 'none':
                target, arg = None, None
            elif loc == 'open':
                target = os.path.join(d, 'o.zip')
                zf = zipfile.ZipFile(target, 'w')
                arg = zf
            elif loc in ('dir', 'dir/'):
                arg = os.path.join(d, loc)
                target = os.path.join(d, 'dir', 'the_mover.gnome')
            elif loc == 'relative':
                os.chdir(d)
                arg, target = 'rel.gnome', os.path.join(d, 'rel.gnome')
            else:
                arg = os.path.join(d, loc)
                target = arg if loc != 'x' else arg + '.gnome'
            before = None
            if exists and target and loc != 'open':
                if loc in ('dir', 'dir/'):
                    # an existing file there, found by saving the same object
                    o.save(arg)
                    fs = os.listdir(os.path.join(d, 'dir'))
                    check(len(fs) == 1, 'saving in a directory made %s', fs)
                    target = os.path.join(d, 'dir', fs[0])
                else:
                    other.save(target)
                before = open(target, 'rb').read()
            if aspath and isinstance(arg, str):
                arg = pathlib.Path(arg)
            refused = False
            try:
                js, where, refs = o.save(arg, overwrite=overwrite)
            except ValueError:
                refused = True
            expect_refusal = exists and not overwrite and loc in ('dir', 'dir/')
            check(refused == expect_refusal, 'refused: %s', refused)
            if refused:
                check(open(target, 'rb').read() == before, 'a refused save altered the file')
                return dict(sig=case)
            if loc in ('dir', 'dir/'):
                fs = os.listdir(os.path.join(d, 'dir'))
                check(len(fs) == 1, 'saving in a directory made %s', fs)
                target = os.path.join(d, 'dir', fs[0])
            if zf is not None:
                check(zf.fp is not None, 'saving to an open archive closed it')
            # ------------ read it back
            if how == 'returned':
                l = PointWindMover.load(where)
            elif how == 'path':
                if target is None:
                    return dict(trivial=True)
                if zf is not None:
                    zf.close()
                check(os.path.exists(target), 'no file %s: %s', target, os.listdir(d))
                l = PointWindMover.load(pathlib.Path(target))
            elif how == 'archive':
                if target is None:
                    l = PointWindMover.load(where)
                else:
                    if zf is not None:
                        zf.close()
                    with zipfile.ZipFile(target) as z:
                        check(z.testzip() is None, 'damaged archive')
                        l = PointWindMover.load(z)
            elif how in ('folder', 'json'):
                # as a directory of its parts
                x = os.path.join(d, 'un[p]acked')
                if target is None:
                    where.extractall(x)
                else:
                    if zf is not None:
                        zf.close()
                    with zipfile.ZipFile(target) as z:
                        z.extractall(x)
                if how == 'folder':
                    l = PointWindMover.load(x)
                else:
                    js_ = [os.path.join(x, q) for q in sorted(os.listdir(x)) if q.endswith('.json')]
                    got = []
                    for q in js_:
                        try:
                            got.append(PointWindMover.load(q))
                        except ValueError:
                            pass
                    check(len(got) == 1, '%d movers among %s', len(got), js_)
                    l = got[0]
            df = differences(want, describe(l), 1e-12)
            check(not df, 'loaded differs: %s', df)
            if exists and not overwrite and target and loc not in ('open', 'dir', 'dir/'):
                l = SimpleMover.load(target)              # appended: the other is still there
                check(not differences(describe(other), describe(l)), 'what was in the archive is altered')
            if exists and overwrite and loc not in ('open', 'none', 'dir', 'dir/'):
                try:
                    SimpleMover.load(target)
                except ValueError:
                    pass
                else:
                    check(False, 'the overwritten object is still in the file')
            rest = [q for q in os.listdir(d) if q not in ('dir', 'tmp', 'un[p]acked') and os.path.join(d, q) != target]
            check(not rest, 'other files left: %s', rest)
        finally:
            os.chdir(cwd)
            if loc == 'none' and where is not None:
                where.close()
            if zf is not None:
                zf.close()
    return dict(sig=case)


def loc_cases():
    return [c for c in itertools.product(LOCS, (False, True), (False, True), (True, False), ('returned', 'path', 'archive', 'folder', 'json'))
            if not (c[1] and c[0] in ('none', 'open'))]


# -------------------------------------------------------------------- names

NAMES = ['a', 'A', 'a.json', 'a b', 'a/b', 'a_b', 'a\\b', '../a', '..', '.', 'ü ß', 'x' * 200, 'a{0}', 'a%s', 'a:b*?"<>|', "it's", 'version', 'Wind', 'Model', 'None', '0', '名前', 'a\nb', ' a ', 'a.', 'Wind_1', 'Wind_0']


def name_run(case):
    a, b, kind = case
    if kind == 'winds':          # two objects of a class
        wa, wb = constant_wind(5, 30), constant_wind(6, 60)
        wa.name, wb.name = a, b
        x, y = PointWindMover(wa, name='one'), PointWindMover(wb, name='two')
        m = Model(start_time=T0, time_step=900, duration=hrs(1), movers=[x, y], environment=[wa, wb])
    elif kind == 'classes':      # of different classes
        wa, wb = constant_wind(5, 30), Water(281.)
        wa.name, wb.name = a, b
        m = Model(start_time=T0, time_step=900, duration=hrs(1), environment=[wa, wb], movers=[PointWindMover(wa, name=b)])
    else:                        # the model itself
        wa = constant_wind(5, 30)
        wa.name = a
        m = Model(start_time=T0, time_step=900, duration=hrs(1), environment=[wa], movers=[PointWindMover(wa, name=a)], name=b)
    with work() as d:
        os.mkdir(os.path.join(d, 'in'))
        os.mkdir(os.path.join(d, 'in', 'saves'))
        f = os.path.join(d, 'in', 'saves', 'x.gnome')
        m.save(f)
        l = Model.load(f)
        check(l.name == m.name, 'model name %r', l.name)
        check([e.name for e in l.environment] == [e.name for e in m.environment], 'names %r', [e.name for e in l.environment])
        check([e.name for e in l.movers] == [e.name for e in m.movers], 'names %r', [e.name for e in l.movers])
        for p, q in zip(m.environment, l.environment):
            df = differences(describe(p), describe(q), 1e-12)
            check(not df, 'loaded differs: %s', df)
        for i, (p, q) in enumerate(zip(m.movers, l.movers)):
            df = differences(describe(p), describe(q), 1e-12)
            check(not df, 'loaded differs: %s', df)
            check([p.wind is e for e in m.environment] == [q.wind is e for e in l.environment], 'mover %d has another wind', i)
        # in a directory the file is named after the object; it stays there
        g = os.path.join(d, 'in', 'dir')
        os.mkdir(g)
        m.save(g)
        fs = os.listdir(g)
        check(len(fs) == 1 and sorted(os.listdir(os.path.join(d, 'in'))) == ['dir', 'saves'] and sorted(os.listdir(d)) == ['in', 'tmp'],
              'saving %r in a directory made %s', m.name, (fs, os.listdir(os.path.join(d, 'in')), os.listdir(d)))
        l = Model.load(os.path.join(g, fs[0]))
        check(l.name == m.name, 'model name %r', l.name)
    return dict(sig=case, states=2)


def name_cases(names):
    def it():
        for a, b in itertools.product(names, repeat=2):
            for k in ('winds', 'classes', 'model'):
                yield (a, b, k)
    return it


# ------------------------------------------------------------------ sharing

def shared_model(sel):
    """objects wired to one another in the given way"""
    ws, as_, subst, names, drop = sel
    nm = (lambda n: 'same') if names else (lambda n: n)
    W = [Wind(timeseries=TS, units='knots', extrapolation_is_allowed=True, name=nm('w0')), constant_wind(5, 200)]
    A = [Water(290., name=nm('a0')), Water(280., name=nm('a1'))]
    W[1].name = nm('w1')
    wv = Waves(W[ws[0]], A[as_[0]], name=nm('waves'))
    subs = [GnomeOil('oil_crude', water=A[as_[1]]) for _ in range(2 if subst else 1)]
    env = [wv] + [x for i, x in enumerate(W) if not drop or i == 0] + [x for i, x in enumerate(A) if not drop or i == 0]
    m = Model(start_time=T0, time_step=900, duration=hrs(1), environment=env,
              movers=[PointWindMover(W[ws[1]], name=nm('mv'))],
              weatherers=[Evaporation(A[as_[2]], W[ws[2]]), NaturalDispersion(wv, A[as_[3]])],
              spills=[point_line_spill(4, (0., 0., 0.), T0, substance=subs[0], amount=1, units='bbl', name=nm('s0')),
                      point_line_spill(4, (0., 0., 0.), T0, substance=subs[-1], amount=1, units='bbl', name=nm('s1'))])
    return m


def wires(m):
    out = list(m.environment)
    for mv in m.movers:
        out.append(mv.wind)
    for w in m.weatherers:
        for a in ('wind', 'water', 'waves'):
            if getattr(w, a, None) is not None:
                out.append(getattr(w, a))
    for e in m.environment:
        if isinstance(e, Waves):
            out += [e.wind, e.water]
    for s in m.spills:
        out += [s.substance, s.substance.water]
    return out


def pattern(m):
    """which of the references are the same object"""
    first = {}
    return [(type(o).__name__, first.setdefault(id(o), len(first))) for o in wires(m)]


def share_run(case):
    m = shared_model(case)
    want = pattern(m)
    vals = [describe(o) for o in wires(m)]
    with work() as d:
        f = os.path.join(d, 'x.gnome')
        m.save(f)
        check(pattern(m) == want, 'saving rewired the model')
        l = Model.load(f)
        check(pattern(l) == want, 'the loaded objects share %s, the saved ones %s', pattern(l), want)
        df = differences(vals and {'#class': 1, 'v': vals}, {'#class': 1, 'v': [describe(o) for o in wires(l)]}, 1e-6)
        check(not df, 'loaded differs: %s', df)
    return dict(sig=str(want), states=1, transitions=2)


def share_cases(full):
    def it():
        for ws in itertools.product((0, 1), repeat=3):
            for as_ in itertools.product((0, 1), repeat=4):
                for subst in (0, 1):
                    for names in (0, 1):
                        for drop in (0, 1):
                            if full or (subst + names + drop + sum(ws) + sum(as_)) % 2 == 0 or not drop:
                                yield (ws, as_, subst, names, drop)
    return it


# ---------------------------------------------------- the loaded model runs the same

SPILLS = {
    'point': lambda: point_line_spill(5, (1, 2, 3), T0, amount=10, units='kg'),
    'line': lambda: surface_point_line_spill(25, (1, 2, 0), T0, end_position=(2, 3, 0), end_release_time=T0 + hrs(1), windage_range=(.02, .03), windage_persist=-1),
    'per_step': lambda: Spill(release=PointLineRelease(T0, (1., 2., 0.), num_elements=None, num_per_timestep=3, end_release_time=T0 + hrs(1))),
    'grid': lambda: grid_spill(((0, 0), (1, 2)), (3, 2), T0),
    'subsurface': lambda: subsurface_spill(5, (1, 2, 30), T0, UniformDistribution(.001, .002)),
    'droplets': lambda: subsurface_spill(25, (1, 2, 30), T0, WeibullDistribution(alpha=1.8, lambda_=.0002), distribution_type='droplet_size', end_release_time=T0 + hrs(1)),
    'custom': lambda: spatial_release_spill([(1, 2, 3), (4, 5, 6)], T0),
    'polygons': lambda: Spill(release=PolygonRelease(polygons=POLY, release_time=T0, num_elements=12), amount=3, units='kg'),
    'poly_weights': lambda: Spill(release=PolygonRelease(polygons=POLY, weights=[.2, .3, .5], release_time=T0, num_elements=12), amount=3, units='kg'),
    'poly_thick': lambda: Spill(release=PolygonRelease(polygons=POLY, thicknesses=[.2, .3, .5], release_time=T0, num_elements=12), amount=3, units='kg'),
    'light': lambda: Spill(release=PointLineRelease(T0, (1, 2, 3)), substance=NonWeatheringSubstance(standard_density=900.), amount=3, units='bbl'),
    'retain': lambda: Spill(release=PointLineRelease(T0, (1, 2, 3), retain_initial_positions=True)),
    'off': lambda: point_line_spill(5, (1, 2, 3), T0, on=False),
    'late': lambda: point_line_spill(5, (1, 2, 3), T0 + mins(25), amount=2, units='bbl'),
}
MOVERS = {
    'wind': lambda: PointWindMover(Wind(timeseries=TS, units='knots', extrapolation_is_allowed=True)),
    'random': lambda: RandomMover(diffusion_coef=54321.),
    'random3d': lambda: RandomMover3D(mixed_layer_depth=5.5, vertical_diffusion_coef_above_ml=50.),
    'rise': lambda: RiseVelocityMover(),
    'simple': lambda: SimpleMover((.5, .25, 0.), uncertainty_scale=.75),
    'current': lambda: CurrentMover(SteadyUniformCurrent(.75, 40.)),
    'limited': lambda: SimpleMover((1., 0., 0.), active_range=(T0 + mins(20), T0 + mins(40))),
    'off': lambda: SimpleMover((1., 0., 0.), on=False),
}
MAPS = {'none': lambda: None, 'bounds': lambda: GnomeMap(map_bounds=((-3., -3.), (7., -3.), (7., 7.), (-3., 7.))),
        'bna': lambda: MapFromBNA(BNA, refloat_halflife=.1)}


def history(m):
    m.rewind()
    out = []
    for _ in m:
        out.append(snap(m))
    return out


def same_history(a, b, what):
    check(len(a) == len(b), '%s: %d steps, expected %d', what, len(b), len(a))
    for k, (x, y) in enumerate(zip(a, b)):
        df = diff_snap(x, y)
        check(df is None, '%s: step %d: %s', what, k, df)


def run_model(case):
    s, mv, mp, unc, back = case
    sgn = -1 if back else 1
    kw = {}
    if mp != 'none':
        kw['map'] = MAPS[mp]()
    m = Model(start_time=T0, time_step=600 * sgn, duration=hrs(1) * sgn, uncertain=unc, run_backwards=back, spills=[SPILLS[s]()], movers=[MOVERS[x]() for x in mv], **kw)
    with work() as d:
        f = os.path.join(d, 'x.gnome')
        m.save(f)
        l = Model.load(f)
        check((l.start_time, l.time_step, l.duration, l.uncertain, l.num_time_steps) == (m.start_time, m.time_step, m.duration, m.uncertain, m.num_time_steps), 'times differ')
        a = history(m)
        b = history(l)
        same_history(a, b, 'the loaded model')
    return dict(sig=case, states=len(a), transitions=2 * len(a))


def run_cases(full):
    def it():
        for s in SPILLS:
            for mv in [(x,) for x in MOVERS] + [('wind', 'random', 'simple')]:
                for unc in (False, True):
                    for back in (False, True):
                        if back and mv[0] in ('random3d', 'rise'):
                            continue          # vertical movers can not run backwards
                        if back and s in ('line', 'per_step', 'droplets', 'late'):
                            continue          # refused by the model
                        if back and not full and mv != ('wind', 'random', 'simple'):
                            continue
                        yield (s, mv, 'none', unc, back)
        for mp in ('bounds', 'bna'):
            for s in ('point', 'line', 'polygons'):
                for unc in (False, True):
                    yield (s, ('random', 'simple'), mp, unc, False)
    return it


# ------------------------------------------------------------ saving during a run

def mid_run(case):
    name, unc, at, again = case
    sc = scen.SCENARIOS[name]
    cfg = dict(sc.default, unc=unc)
    ref = sc.build(cfg) if name not in TOGGLE else scen_model(name, unc, None, False)
    if name == 'land':
        ref.map = GnomeMap(map_bounds=((0., 0.), (1., 0.), (1., 1.), (0., 1.)))
    m = sc.build(cfg) if name not in TOGGLE else scen_model(name, unc, None, False)
    if name == 'land':
        m.map = GnomeMap(map_bounds=((0., 0.), (1., 0.), (1., 1.), (0., 1.)))
    want = history(ref)
    with work() as d:
        got = []
        f = os.path.join(d, 'x.gnome')
        k = 0
        m.rewind()
        if at == -1:
            m.save(f)
        while True:
            try:
                m.step()
            except StopIteration:
                break
            got.append(snap(m))
            if k == at or (again and k > at):
                m.save(f)
                df = diff_snap(got[-1], snap(m))
                check(df is None, 'saving after step %d changed the model: %s', k, df)
            k += 1
        same_history(want, got, 'the run that was saved after step %d' % at)
        check(sorted(os.listdir(d)) == ['tmp', 'x.gnome'], 'files left: %s', os.listdir(d))
        l = Model.load(f)
        if name in TOGGLE:
            compare_runs(name, want, history(l), 'the model saved after step %d and loaded' % at)
        elif name != 'weather':
            same_history(want, history(l), 'the model saved after step %d and loaded' % at)
        else:
            check(len(history(l)) == len(want), 'steps')
    return dict(sig=case, states=2 * len(want))


def mid_cases():
    for name in scen.SCENARIOS:
        for unc in (False, True):
            n = 5 if name != 'land' else 6
            for at in range(-1, n):
                for again in (False, True):
                    if again and name in TOGGLE:
                        continue
                    yield (name, unc, at, again)


# ------------------------------------------------- data files of the same name

def write_bna(path, dx):
    pts = [(-10, -10), (10, -10), (10, 10), (-10, 10), (-10, -10)]
    isl = [(dx, 0), (dx + 1, 0), (dx + 1, 1), (dx, 1), (dx, 0)]
    with open(path, 'w') as f:
        f.write('"Map Bounds","1",%d\n' % len(pts) + ''.join('%g,%g\n' % p for p in pts))
        f.write('"Island","1",%d\n' % len(isl) + ''.join('%g,%g\n' % p for p in isl))


FILES = ['m.bna', 'a b.bna', 'm{0}.bna', 'Model_1', 'ü.bna']


def file_run(case):
    n1, n2, kind, odd = case
    with work() as d:
        p1, p2 = os.path.join(d, 'one'), os.path.join(d, 'two')
        os.mkdir(p1)
        os.mkdir(p2)
        p1, p2 = os.path.join(p1, n1), os.path.join(p2, n2)
        write_bna(p1, 2)
        write_bna(p2, 5 if kind != 'same' else 2)
        mp = MapFromBNA(p1, refloat_halflife=1., raster_size=4096 * 16)
        rs = [Renderer(map_filename=p2, output_dir=os.path.join(d, 'img'))]
        if kind == 'third':
            rs.append(Renderer(map_filename=p1, output_dir=os.path.join(d, 'img2')))
        m = Model(start_time=T0, time_step=900, duration=hrs(1), map=mp, outputters=rs)
        f = os.path.join(d, 'x.gnome')
        m.save(f)
        if odd:                 # the originals are gone when it is loaded
            shutil.rmtree(os.path.join(d, 'one'))
            shutil.rmtree(os.path.join(d, 'two'))
        l = Model.load(f)
        for where, w in (((2.5, .5, 0.), 2), ((5.5, .5, 0.), 5), ((-3., 1., 0.), None)):
            check(bool(l.map.on_land(where)) == (w == 2), 'the loaded map says on_land%s = %s', where, l.map.on_land(where))
        for r, x in zip(l.outputters, [5 if kind != 'same' else 2, 2]):
            pts = [tuple(p) for poly in r.land_polygons for p in poly]
            check((x, 0.) in pts, 'renderer has another map: %s', pts)
        # saved once more
        g = os.path.join(d, 'y.gnome')
        l.save(g)
        l2 = Model.load(g)
        check(bool(l2.map.on_land((2.5, .5, 0.))) and not l2.map.on_land((5.5, .5, 0.)), 'after another round the map differs')
    return dict(sig=case)


def file_cases():
    return itertools.product(FILES, FILES, ('differ', 'same', 'third'), (False, True))


# ------------------------------------------- every setting of every scenario

def near(a, b, rtol):
    """None, or where two snapshots differ by more than rounding"""
    if len(a) != len(b):
        return 'number of element sets'
    for i, (x, y) in enumerate(zip(a, b)):
        if set(x) != set(y):
            return 'set %d has other arrays: %s' % (i, sorted(set(x) ^ set(y)))
        for k in x:
            if x[k] == y[k]:
                continue
            if k == '#mass_balance':
                u, v = dict(_lit(x[k])), dict(_lit(y[k]))
                if set(u) != set(v) or not np.allclose([u[q] for q in sorted(u)], [v[q] for q in sorted(u)], rtol=rtol, atol=1e-9, equal_nan=True):
                    return 'set %d: mass balance %s, expected %s' % (i, v, u)
            elif isinstance(x[k], tuple) and x[k][:2] == y[k][:2]:
                u, v = (np.frombuffer(z[2], dtype=z[1]) for z in (x[k], y[k]))
                if u.dtype.kind != 'f' or not np.allclose(u, v, rtol=rtol, atol=1e-12, equal_nan=True):
                    return 'set %d: %s is %s, expected %s' % (i, k, v[:9], u[:9])
            else:
                return 'set %d: %s is %s, expected %s' % (i, k, y[k], x[k])
    return None


def _lit(s):
    return eval(s, {'nan': float('nan'), 'inf': float('inf'), 'np': np, 'array': np.array})


def scen_model(name, unc, op, late):
    """the scenario with one setting changed: before it is built, or afterwards by its setter"""
    sc = scen2.SCENARIOS[name]
    cfg = dict(sc.default, unc=unc)
    if op and not late:
        cfg[op] = 1
    m = sc.build(cfg)
    if name == 'fields':
        c = scen2._find(m, CurrentMover)
        for e in list(m.environment):
            if e is c.current:
                m.environment.remove(e.id)
        c.current = SteadyUniformCurrent(.75, 40.)
    if op and late:
        sc.apply(op, m, cfg, -1)
    return m


TOGGLE = ('fields', 'native', 'under', 'cleanup')
SOFT = {'under': 1e-5, 'cleanup': 1e-5}


def compare_runs(name, a, b, what):
    check(len(a) == len(b), '%s makes %d steps, expected %d', what, len(b), len(a))
    for k, (x, y) in enumerate(zip(a, b)):
        df = near(x, y, SOFT[name]) if name in SOFT else diff_snap(x, y)
        check(df is None, '%s: step %d: %s', what, k, df)


def set_run(case):
    name, unc, op, late, ran = case
    m = scen_model(name, unc, op, late)
    want = history(m)
    if not ran:
        m.rewind()
    with work() as d:
        f = os.path.join(d, 'x.gnome')
        m.save(f)
        l = Model.load(f)
        compare_runs(name, want, history(l), 'the loaded model')
        compare_runs(name, want, history(m), 'the saved model')
        g = os.path.join(d, 'y.gnome')
        l.save(g)
        compare_runs(name, want, history(Model.load(g)), 'the model saved and loaded twice')
    return dict(sig=case, states=len(want) * 4, transitions=len(want) * 4)


def set_cases(full):
    def it():
        for name in TOGGLE:
            for op in [None] + scen2.SCENARIOS[name].ops:
                for late in (False, True):
                    if late and not op:
                        continue
                    for unc in (False, True):
                        for ran in (False, True):
                            if full or ran == late:
                                yield (name, unc, op, late, ran)
    return it


def parts(tier):
    q = tier == 'quick'
    return [Part('objects', obj_cases(not q), obj_run, chunk=4, rule='every class x attribute value' + ('' if q else ' and every pair of attribute values')),
            Part('locations', loc_cases, loc_run, chunk=4, rule='every way to name a location x existing x overwrite x way to read'),
            Part('names', name_cases(NAMES[:16] if q else NAMES), name_run, chunk=8, rule='all pairs of names x kinds of object'),
            Part('sharing', share_cases(not q), share_run, chunk=8, rule='all ways two winds, two waters and substances can be shared'),
            Part('runs', run_cases(not q), run_model, chunk=4, rule='spills x movers x maps x uncertainty x direction: loaded model runs the same, bit for bit'),
            Part('midrun', mid_cases, mid_run, rule='a save after every step of a run'),
            Part('settings', set_cases(not q), set_run, chunk=2, rule='scenario x setting, given when built or set later x uncertainty x saved before or after a run: the loaded model runs the same'),
            Part('files', file_cases, file_run, chunk=4, rule='all pairs of data file names')]
