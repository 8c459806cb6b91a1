"""C29  before and after a run the model answers truthfully: set-ups that cannot be run are
refused before the first step, and what is asked of a run is what its arrays hold."""
import itertools
import operator

from vp.core import Part, check, Violation
from vp.g import *
from vp.scen import oil, band_map
from gnome.environment import Water, Waves, Wind
from gnome.exceptions import GnomeRuntimeError, ReferencedObjectNotSet
from gnome.maps.map import GnomeMap
from gnome.spills.release import PolygonRelease
from gnome.spills.spill import Spill
from gnome.weatherers import Evaporation, NaturalDispersion, HalfLifeWeatherer

PROPERTY = 'C29'
LEVEL = 'model_checking'
NOTE = 'every combination of direction, times, places, substance, weathering and environment of a model: refused or run, and what it warns of; every question about every step of a run'
ASSUMPTIONS = ['a warning is recognised by its key words (map bounds, on land, release time after, before, contains no spills, time interval, pour point, above the surface, overlap)']

DUR, DT = 3600, 900
PLACES = {'water': (.3, .5), 'water2': (.1, .2), 'land': (.67, .5), 'off': (3., .5)}
OFFS = {'before': -1800, 'start': 0, 'within': 1800, 'end': 3600, 'after': 7200}
WORDS = {'bounds': 'outside of map bounds', 'land': 'on land', 'late': 'release time after', 'early': 'release time before', 'none': 'contains no spills',
         'interval': 'time interval', 'pour': 'pour point', 'above': 'above the surface', 'overlap': 'does not overlap'}


def substance(s):
    if s == 'none':
        return None
    o = oil()
    o.pour_point = 280.
    if s == 'heavy':
        o.densities = [1100.]
        o.density_ref_temps = [288.15]
    return o


def spill(cfg, sub):
    sgn = -1 if cfg['back'] else 1
    rel = T0 + secs(sgn * OFFS[cfg['off']])
    kw = {}
    if cfg.get('poly'):
        from shapely.geometry import Polygon
        x, y = PLACES[cfg['at']]
        return Spill(release=PolygonRelease(polygons=[Polygon([(x - .02, y - .02), (x + .02, y - .02), (x + .02, y + .02), (x - .02, y + .02)])], num_elements=4, release_time=rel,
                                            end_release_time=rel + secs(900 if cfg.get('cont') else 0)), substance=sub, amount=10, units='kg', on=cfg.get('on', True))
    if cfg.get('end'):
        kw['end_position'] = PLACES[cfg['end']] + (0.,)
    if cfg.get('cont'):
        kw['end_release_time'] = rel + secs(900)
    return gs.point_line_spill(num_elements=4, start_position=PLACES[cfg['at']] + (cfg.get('z', 0.),), release_time=rel, substance=sub,
                               amount=10, units='kg', on=cfg.get('on', True), **kw)


BASE = dict(back=False, spills=[dict(off='start', at='water')], sub='none', weather='none', env=True, cold=False, map='band')


def build(cfg):
    m = Model(start_time=T0, duration=secs(DUR), time_step=secs(DT), map=band_map() if cfg['map'] == 'band' else GnomeMap())
    if cfg['back']:
        m.run_backwards = True
    sub = substance(cfg['sub'])
    for s in cfg['spills']:
        m.spills += spill(dict(s, back=cfg['back']), sub)
    if cfg['env']:
        wind, water = constant_wind(5, 270, 'm/s'), Water(temperature=274. if cfg['cold'] else 290.)
        m.environment += [wind, water, Waves(wind, water)]
    if cfg['weather'] in ('on', 'off'):
        m.weatherers += Evaporation(on=cfg['weather'] == 'on')
    m.movers += SimpleMover((.001, 0., 0.))
    return m


def expect(cfg):
    """(refused, warnings)"""
    warn, refused = set(), False
    live = [s for s in cfg['spills'] if s.get('on', True)]
    if not cfg['spills']:
        warn.add('none')
    bounded = cfg['map'] == 'band'
    for s in live:
        if s.get('z', 0.) < 0:
            warn.add('above')
        ends = [PLACES[s['at']]] + ([PLACES[s['end']]] if s.get('end') else [])
        if bounded and any(p == PLACES['off'] for p in ends):
            warn.add('bounds')
        if bounded and any(p == PLACES['land'] for p in ends):
            warn.add('land')
        if s['off'] in ('within', 'end', 'after'):
            warn.add('late')
        if s['off'] == 'before':
            warn.add('early')
            refused = True
        if cfg['back'] and s.get('cont'):
            refused = True
        if cfg['sub'] == 'heavy':
            refused = True
        if cfg['sub'] != 'none' and cfg['env'] and cfg['cold']:
            warn.add('pour')
    if live and all(s['off'] in ('end', 'after') for s in live):
        warn.add('interval')
    if cfg['weather'] == 'on':
        if not cfg['env']:
            refused = True
        if cfg['back'] and cfg['sub'] != 'none' and live:
            refused = True
    return refused, warn


def gate_cases(tier):
    one = []
    for off, at, end, z, on, cont in itertools.product(OFFS, ('water', 'land', 'off'), (None, 'water2', 'land', 'off'), (0., 5., -1.), (True, False), (False, True)):
        if z and (end or at != 'water'):
            continue
        if not on and (end or z or cont):
            continue
        one.append(dict(off=off, at=at, end=end, z=z, on=on, cont=cont))
    for back in (False, True):
        for s in one:
            if not s['end'] and not s['z']:
                yield dict(BASE, back=back, spills=[dict(s, poly=True)])
            for mp in ('band', 'open'):
                if mp == 'open' and s['end']:
                    continue
                yield dict(BASE, back=back, spills=[s], map=mp)
        for sub, weather, env, cold in itertools.product(('none', 'oil', 'heavy'), ('none', 'on', 'off'), (True, False), (False, True)):
            if sub == 'heavy' and not env:
                continue  # the density of the water is not known
            for s in (dict(off='start', at='water'), dict(off='within', at='water', on=False), dict(off='before', at='water')):
                yield dict(BASE, back=back, sub=sub, weather=weather, env=env, cold=cold, spills=[s])
            yield dict(BASE, back=back, sub=sub, weather=weather, env=env, cold=cold, spills=[])
        for a, b in itertools.product(itertools.product(OFFS, (True, False), (True, False)), repeat=2):
            if tier == 'quick' and (not a[1] or a[2]) and (not b[1] or b[2]):
                continue
            if back and (a[2] and not a[1] or b[2] and not b[1]):
                continue  # an extended release that is off: may or may not be refused
            yield dict(BASE, back=back, spills=[dict(off=a[0], at='water', on=a[1], cont=a[2]), dict(off=b[0], at='water2', on=b[1], cont=b[2])])


def words(msgs):
    return {k for k, w in WORDS.items() if any(w in str(x) for x in msgs)}


def first_step(m):
    try:
        m.step()
        return None
    except (RuntimeError, GnomeRuntimeError, ReferencedObjectNotSet, ValueError) as e:
        return e


def gate_run(cfg):
    m = build(cfg)
    refused, warn = expect(cfg)
    before = m.serialize()
    try:
        msgs, ok = m.check_inputs()
    except (RuntimeError, GnomeRuntimeError, ReferencedObjectNotSet, ValueError) as e:
        msgs, ok = None, False
    # substances only learn of their water at the start of the run
    asked = refused if cfg['sub'] == 'none' else None
    if asked is not None:
        check(ok == (not refused), 'check_inputs() says valid=%s (%s), expected %s', ok, msgs, not refused)
    if msgs is not None and asked is not None:
        check(words(msgs) == warn, 'check_inputs() warns of %s (%s), expected %s', sorted(words(msgs)), msgs, sorted(warn))
        check(m.check_inputs() == (msgs, ok), 'check_inputs() asked again answers %s, before %s', m.check_inputs(), (msgs, ok))
    check(m.serialize() == before, 'check_inputs() changed the model')
    check(m.current_time_step == -1, 'check_inputs() moved the model to step %s', m.current_time_step)
    for again in range(2):
        err = first_step(m)
        check((err is not None) == refused, 'the run is %s, expected it to be %s', 'refused: %r' % err if err else 'started', 'refused' if refused else 'started')
        if refused:
            check(m.current_time_step == -1, 'the refused model is at step %s', m.current_time_step)
            for sc in m.spills.items():
                check(len(sc['id']) == 0 if 'id' in sc else len(sc) == 0, 'the refused model has released %d elements', len(sc))
        else:
            msgs, ok = m.check_inputs()
            check(ok and words(msgs) == warn, 'at the first step check_inputs() warns of %s (%s), expected %s', sorted(words(msgs)), msgs, sorted(warn))
            n = 0
            for _ in m:
                n += 1
            check(n == 5, 'the run took %d steps', n)
            m.rewind()
    if refused:
        # put right, it runs, and like a model that was never wrong
        fix(m, cfg)
        for k, s in enumerate(m.spills):
            s.release.release_time = T0
        good = dict(BASE, map=cfg['map'], spills=[dict(s, off='start', cont=False) for s in cfg['spills']])
        err = first_step(m)
        check(err is None, 'put right, the model is still refused: %r', err)
        for _ in m:
            pass
        g = build(good)
        for _ in g:
            pass
        a, b = m.spills.items()[0], g.spills.items()[0]
        check(len(a['id']) == len(b['id']) and (np.array_equal(a['positions'], b['positions']) or any(s.get('poly') for s in cfg['spills'])), 'put right, the model ends with elements %s, a model that was never wrong %s',
              a['positions'].tolist(), b['positions'].tolist())
    return None


def fix(m, cfg):
    m.run_backwards = False
    m.weatherers.clear()
    for s in m.spills:
        s.release.release_time = s.release.end_release_time = T0
    if cfg['sub'] != 'none':
        from gnome.spills import NonWeatheringSubstance
        m.spills.items()[0].substance = None
        sub = NonWeatheringSubstance()
        for s in m.spills:
            s.substance = sub
    m.rewind()


# ---------------------------------------------------------------- questions about a run
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq}


def ask_cases(tier):
    for unc in (False, True):
        for weather in (False, True):
            for nsp in (0, 1, 2):
                for steps in range(-1, 5 if tier == 'quick' else 9):
                    yield (unc, weather, nsp, steps, False)
                    if nsp:
                        yield (unc, weather, nsp, steps, True)


def ask_model(unc, weather, nsp, leave=False):
    np.random.seed(3)
    m = Model(start_time=T0, duration=secs(7200), time_step=secs(900), uncertain=unc, map=band_map(2.))
    if leave:  # elements leave the map, of one set more than of the other
        m.map = GnomeMap(map_bounds=((.3, .4), (.54, .4), (.54, .6), (.3, .6)))
    sub = oil() if weather else None
    for i in range(nsp):
        m.spills += gs.point_line_spill(num_elements=3 + 2 * i, start_position=(.52 - .2 * i, .5, 0.), release_time=T0, end_release_time=T0 + secs(2000), substance=sub,
                                        amount=1.3 + i, units='kg')
    m.movers += SimpleMover((9., .2, 0.))
    m.movers += RandomMover(diffusion_coef=2e6)
    if weather:
        wind, water = constant_wind(5, 270, 'm/s'), Water(temperature=290.)
        m.environment += [wind, water, Waves(wind, water)]
        m.weatherers += Evaporation()
    return m


def same(a, b):
    return np.array_equal(np.asarray(a), np.asarray(b))


def ask_run(case):
    unc, weather, nsp, steps, leave = case
    m = ask_model(unc, weather, nsp, leave)
    if steps < 0:
        return None
    for _ in range(steps + 1):
        m.step()
    scs = m.spills.items()
    check(len(scs) == 1 + unc, '%d sets of elements', len(scs))
    n = 0
    names = set(m.list_spill_properties())
    check(names == set(scs[0].data_arrays), 'list_spill_properties() %s, the arrays are %s', sorted(names), sorted(scs[0].data_arrays))
    check(set(m.spills.LE_data) - {'mass_balance'} == names | {'current_time_stamp'}, 'LE_data lists %s, the arrays are %s', sorted(m.spills.LE_data), sorted(names))
    check(('mass_balance' in m.spills.LE_data) == bool(scs[0].mass_balance), 'LE_data lists a mass balance: %s, there is %s', 'mass_balance' in m.spills.LE_data, scs[0].mass_balance)
    check(m.spills.num_released == tuple(len(sc['id']) for sc in scs), 'num_released %s, elements %s', m.spills.num_released, [len(sc['id']) for sc in scs])
    total = sum(1.3 + i for i in range(nsp))
    for k, sc in enumerate(scs):
        check(len(sc) == sc.num_released == len(sc['id']), 'length %d, num_released %d, elements %d', len(sc), sc.num_released, len(sc['id']))
        check(sc.uncertain == bool(k), 'set %d is uncertain: %s', k, sc.uncertain)
        check(set(sc.keys()) == set(sc.data_arrays) and all(x in sc for x in sc.data_arrays) and 'no such array' not in sc, 'keys() differ from the arrays')
        check((sc.total_mass is None and nsp == 0) or (nsp and abs(sc.total_mass - total) < 1e-6), 'total mass spilled %r, expected %r', sc.total_mass, total)
        check(m.spills.LE('current_time_stamp', uncertain=bool(k)) == sc.current_time_stamp == m.model_time, 'time of the elements %s, of the model %s', sc.current_time_stamp, m.model_time)
        check(m.spills.LE('mass_balance', uncertain=bool(k)) is sc.mass_balance, 'the mass balance of set %d is that of another', k)
        for name in names:
            arr = sc[name]
            check(m.get_spill_property(name, ucert=bool(k)) is arr and m.spills.LE(name, uncertain=bool(k)) is arr and sc.data_arrays[name] is arr,
                  'the ways to ask for %s of set %d differ', name, k)
        for i, s in enumerate(m.spills):
            check(same(sc.get_spill_mask(sc.spills[i]), sc['spill_num'] == i), 'get_spill_mask of spill %d is %s, spill_num %s', i, sc.get_spill_mask(sc.spills[i]), sc['spill_num'])
        # filtered data
        for prop in ('mass', 'age', 'spill_num', 'status_codes', 'id'):
            arr = sc[prop]
            vals = sorted(set([0., .25, .4337, 900., 1800.] + [float(v) for v in arr[:3]] + [float(v) + .5 for v in arr[:2]]))
            for op, f in OPS.items():
                for v in vals:
                    got = m.get_spill_data(['id', 'mass', 'positions'], '%s %s %r' % (prop, op, v), ucert=k)
                    want = np.nonzero(f(arr.astype(float), v))[0]
                    ids = [int(x) for x in got['id']]
                    check(ids == [int(x) for x in sc['id'][want]], 'elements with %s %s %r: %s, of %s the answer should be %s', prop, op, v, ids, arr.tolist(), sc['id'][want].tolist())
                    check(same(got['mass'], sc['mass'][want]), 'their masses %s, expected %s', got['mass'], sc['mass'][want])
                    n += 1
        if len(sc):
            ms = float(np.median(sc['mass']))
            for p1, o1, v1 in (('mass', '<=', ms), ('age', '>', 600.), ('spill_num', '==', 1)):
                for p2, o2, v2 in (('id', '>=', 2), ('status_codes', '==', 2), ('mass', '>', ms)):
                    a, b = OPS[o1](sc[p1].astype(float), v1), OPS[o2](sc[p2].astype(float), v2)
                    for glue, w in (('&&', a & b), ('||', a | b)):
                        got = m.get_spill_data(['id'], '%s %s %r %s %s %s %r' % (p1, o1, v1, glue, p2, o2, v2), ucert=k)
                        check([int(x) for x in got['id']] == sc['id'][w].tolist(), 'elements with %s %s %r %s %s %s %r: %s, expected %s', p1, o1, v1, glue, p2, o2, v2, got['id'], sc['id'][w].tolist())
                        n += 1
        if k == 1:
            got = m.get_spill_data(['id', 'mass'], 'id >= 0', ucert='ucert')
            check(same(got['mass'], sc['mass']), "ucert='ucert' gives other elements than the uncertain ones")
    for bad in ('position', '', 'no such'):
        try:
            m.get_spill_property(bad)
        except ValueError:
            continue
        raise Violation('get_spill_property(%r) is answered' % bad)
    return dict(states=n + 1)


# ---------------------------------------------------------------- equality of runs
def eq_cases(tier):
    for unc in (False, True):
        for weather in (False, True):
            for steps in (-1, 0, 1, 3) if tier == 'quick' else range(-1, 8):
                yield (unc, weather, steps)


def eq_run(case):
    unc, weather, steps = case
    n = 0

    def at():
        m = ask_model(unc, weather, 2)
        for i, s in enumerate(m.spills):
            s.name = 'spill %d' % i
        if not weather:
            for s in m.spills:
                s.substance.name = 'plain'
        np.random.seed(8)
        for _ in range(steps + 1):
            m.step()
        return m
    a, b = at(), at()
    # ids of the objects are not part of what is compared
    check(a.spills == b.spills and not (a.spills != b.spills), 'two equal runs are different')
    for x, y in zip(a.spills.items(), b.spills.items()):
        check(x == y and y == x and not (x != y), 'two equal runs are different')
        check(x != 5 and not (x == 'a'), 'elements are equal to something else')
        for name in sorted(y.data_arrays):
            arr = y[name]
            if arr.size == 0 or arr.dtype.kind not in 'fiu':
                continue
            for ix in {(0,) * arr.ndim, tuple(d - 1 for d in arr.shape)}:
                old = arr[ix]
                arr[ix] = 1 if old != old else old + 1
                check(x != y and y != x and not (x == y) and a.spills != b.spills, 'elements that differ in %s%s are equal', name, list(ix))
                arr[ix] = old
                check(x == y, 'elements put back are different')
                n += 1
        if y.mass_balance:
            for name in list(y.mass_balance):
                old = y.mass_balance[name]
                y.mass_balance[name] = old + 1.
                check(x != y and a.spills != b.spills, 'elements that differ in the mass balance of %s are equal', name)
                y.mass_balance[name] = old
                n += 1
        old = y.current_time_stamp
        y.current_time_stamp = T0 + secs(77)
        check(x != y, 'elements of different times are equal')
        y.current_time_stamp = old
    b.uncertain = not unc
    check(a.spills != b.spills, 'runs with and without uncertainty are equal')
    return dict(states=n + 1)


# ---------------------------------------------------------------- finding
def find_cases(tier):
    kinds = ['simple', 'wind', 'random', 'wind2']
    for n in range(0, 4):
        for c in itertools.permutations(kinds, n):
            yield (c,)


def find_run(case):
    from gnome.movers import PointWindMover
    (kinds,) = case
    m = Model(start_time=T0, duration=secs(3600), time_step=secs(900))
    winds = [constant_wind(3, 10, 'm/s'), constant_wind(7, 10, 'm/s')]
    mk = {'simple': lambda: SimpleMover((1, 0, 0)), 'wind': lambda: PointWindMover(winds[0]), 'random': lambda: RandomMover(), 'wind2': lambda: PointWindMover(winds[1])}
    objs = [mk[k]() for k in kinds]
    for o in objs:
        m.movers += o
    from gnome.movers import Process, CyMover
    for cls in (SimpleMover, PointWindMover, RandomMover, Process, CyMover, Wind):
        want = [o for o in objs if isinstance(o, cls)]
        got = m.find_by_class(cls, m.movers)
        check(got is (want[0] if want else None), 'find_by_class(%s) finds %r', cls.__name__, got)
        allo = m.find_by_class(cls, m.movers, ret_all=True) or []
        check([id(x) for x in allo] == [id(x) for x in want], 'find_by_class(%s, ret_all) finds %r, expected %r', cls.__name__, allo, want)
    for attr, val in (('name', objs[0].name if objs else 'x'), ('_ref_as', 'wind'), ('_ref_as', 'waves'), ('_ref_as', 'nothing'), ('no_such_attribute', 'wind')):
        for coll in (m.movers, m.environment):
            def match(o):
                v = getattr(o, attr, None)
                return v is not None and (v == val if isinstance(v, str) else any(val == q for q in v))
            want = [o for o in coll if match(o)]
            got = m.find_by_attr(attr, val, coll)
            check(got is (want[0] if want else None), 'find_by_attr(%s, %s) finds %r, expected %r', attr, val, got, want)
            allo = m.find_by_attr(attr, val, coll, allitems=True) or []
            check([id(x) for x in allo] == [id(x) for x in want], 'find_by_attr(%s, %s, allitems) finds %r, expected %r', attr, val, allo, want)
    sp = gs.point_line_spill(3, (0, 0, 0), T0)
    ev, out = HalfLifeWeatherer(), WeatheringOut()
    m.spills += sp
    m.weatherers += ev
    m.outputters += out
    inside = [m.map, sp, ev, out] + objs + [w for w in m.environment]
    for o in inside:
        check(m.contains_object(o.id), 'contains_object() does not find %r', o)
    other = [SimpleMover((1, 0, 0)), GnomeMap(), constant_wind(1, 1, 'm/s')]
    for o in other:
        check(not m.contains_object(o.id), 'contains_object() finds %r which is not in the model', o)
    for coll, o in [(m.spills, sp), (m.weatherers, ev), (m.outputters, out)] + [(m.movers, o) for o in objs]:
        coll.remove(o.id)
        check(not m.contains_object(o.id), 'contains_object() finds %r after it was removed', o)
    return None


def WeatheringOut():
    from gnome.outputters import WeatheringOutput
    return WeatheringOutput()


# ---------------------------------------------------------------- merging
def merge_cases(tier):
    items = ['m1', 'm2', 's1', 's2', 'w1', 'o1']
    sets = [c for n in range(0, 4) for c in itertools.combinations(items, n)]
    for a, b in itertools.product(sets, repeat=2):
        if tier == 'quick' and len(a) + len(b) > 4:
            continue
        for steps in (-1, 1):
            for unc in (False, True):
                yield (a, b, steps, unc)


def merge_run(case):
    a, b, steps, unc = case
    sub = gs.point_line_spill(1, (0, 0, 0), T0).substance
    objs = {'m1': SimpleMover((1., 0, 0)), 'm2': SimpleMover((0., 2., 0)), 's1': gs.point_line_spill(3, (0, 0, 0), T0, substance=sub), 's2': gs.point_line_spill(2, (1, 0, 0), T0, substance=sub),
            'w1': constant_wind(3, 40, 'm/s'), 'o1': WeatheringOut()}
    coll = {'m': 'movers', 's': 'spills', 'w': 'environment', 'o': 'outputters'}

    def make(names, u):
        m = Model(start_time=T0, duration=secs(3600), time_step=secs(900), uncertain=u)
        for n in names:
            c = getattr(m, coll[n[0]])
            c += objs[n]
        return m
    A, B = make(a, unc), make(b, False)
    for _ in range(steps + 1):
        A.step()
    contents = lambda m: {c: [o.id for o in getattr(m, c)] for c in coll.values()}
    wb = contents(B)
    A.merge(B)
    want = {c: [objs[n].id for n in a + tuple(x for x in b if x not in a) if coll[n[0]] == c] for c in coll.values()}
    check(contents(A) == want, 'after merging %s into %s the model holds %s, expected %s', b, a, contents(A), want)
    check(contents(B) == wb, 'merging changed the other model from %s to %s', wb, contents(B))
    check(A.current_time_step == -1 and A.start_time == T0 and A.duration == secs(3600) and A.time_step == 900, 'after merging the model is at step %s', A.current_time_step)
    v = [sum(x) for x in zip(*([(0, 0)] + [(1., 0) for n in set(a + b) if n == 'm1'] + [(0, 2.) for n in set(a + b) if n == 'm2']))]
    ns = [{'s1': 3, 's2': 2}[n] for n in a + tuple(x for x in b if x not in a) if n[0] == 's']
    k = 0
    for _ in A:
        for sc in A.spills.items():
            check(len(sc['id']) == sum(ns), 'the merged model has %d elements, expected %d', len(sc['id']), sum(ns))
            for i, nn in enumerate(ns):
                check((sc['spill_num'] == i).sum() == nn, 'spill %d of the merged model has %d elements, expected %d', i, (sc['spill_num'] == i).sum(), nn)
        k += 1
    check(k == 5, 'the merged model took %d steps', k)
    sc = A.spills.items()[0]
    if len(sc['id']):
        dy = float(sc['positions'][0, 1])
        check(abs(dy - v[1] * 3600 * 8.9992801e-06) < 1e-9, 'the merged model moved elements by %r degrees of latitude, expected %r', dy, v[1] * 3600 * 8.9992801e-06)
    return None


def parts(tier):
    return [Part('gate', lambda: gate_cases(tier), gate_run, rule='direction x release time x place x end x depth x on x continuous x map; substance x weathering x environment x temperature; all pairs of spills'),
            Part('ask', lambda: ask_cases(tier), ask_run, rule='uncertainty x weathering x number of spills x step; every array, every comparison with values at, between and beyond the data'),
            Part('equal', lambda: eq_cases(tier), eq_run, rule='every array of every step changed in its first and last entry'),
            Part('find', lambda: find_cases(tier), find_run, rule='all ordered sets of movers; every class, attribute and id'),
            Part('merge', lambda: merge_cases(tier), merge_run, rule='all pairs of sets of components x uncertainty x before or during a run')]
