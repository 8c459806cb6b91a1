"""C17  objects travel through their JSON form and are updated from it."""
import copy
import itertools
import json

from vp.core import Part, check
from vp.g import *
from vp.objs import *
from checks import c14
from gnome.spills.spill import point_line_spill

PROPERTY = 'C17'
LEVEL = 'model_checking'
NOTE = 'every class x attribute value (and every ordered pair of updates), every edit sequence of the collections of a model and every way to share objects, on the real serialize/deserialize/update_from_dict'
ASSUMPTIONS = c14.ASSUMPTIONS + ['attributes that are not updatable by design (retain_initial_positions, droplet distributions, image_size) may also stay as they were',
                                 'the returned flag is only compared for attributes that are plain values']

TAB = table()
# not updatable by design: may stay
FIXED = {'retain_initial_positions', 'distribution', 'distribution_type', 'image_size'}
# setting the one changes the other, as documented
FOLLOWS = {('Waves', 'wind'): {'make_default_refs'}, ('Waves', 'water'): {'make_default_refs'}, ('Spill', 'amount'): {'release'}, ('Spill', 'units'): {'release'}, ('Burn', 'thickness'): {'active_range'}, ('Burn', 'thickness_units'): {'active_range'},
           ('Burn', 'area_units'): {'active_range'}, ('CatsMover', 'tide'): {'scale'}, ('Model', 'run_backwards'): {'duration', 'time_step'}, ('Spill', 'substance'): {'release'}}
# report a change also when given their own values (conservative)
EAGER = {'MapFromBNA', 'GnomeOil', 'KMZOutput', 'ShapeOutput', 'Renderer'}


def js_of(o):
    return json.loads(json.dumps(o.serialize()))


def differs(a, b, tol=1e-12):
    return not close(a, b, tol)


def obj_run(case):
    n, choice = case
    ent = TAB[n]
    o = c14.build(case)
    d0 = describe(o)
    tol = c14.tol_of(n)
    j = js_of(o)
    check(not differences(d0, describe(o)), 'serializing changed the object: %s', differences(d0, describe(o)))
    keep = copy.deepcopy(j)
    two = []
    for _ in range(2):
        l = type(o).deserialize(j)
        check(j == keep, 'deserialize() changed the JSON it was given: %s', [k for k in keep if j.get(k) != keep[k]])
        check(type(l) is type(o), 'made a %s', type(l))
        df = differences(d0, describe(l), tol)
        check(not df, 'deserialized differs (attribute, was, is): %s', df)
        check(l is not o, 'deserialize() returned the same object')
        two.append(l)
    check(two[0] is not two[1], 'deserializing twice gave one object')
    # an object updated with its own JSON stays as it is
    r = o.update_from_dict(j)
    check(j == keep, 'update_from_dict() changed the dict it was given')
    df = differences(d0, describe(o), tol)
    check(not df, 'updating an object with its own JSON changed it: %s', df)
    if n not in EAGER:
        check(not r, 'reports a change after an update with its own JSON')
    # only the given attribute changes
    b = make(ent, {})
    db = describe(b)
    for a, i in choice:
        if a not in keep:
            continue
        r = b.update_from_dict({a: copy.deepcopy(keep[a])})
        d1 = describe(b)
        changed = {k for k in d1 if differs(db.get(k), d1[k], tol)}
        want = {a} if differs(db.get(a), d0.get(a), tol) else set()
        ok = changed - FOLLOWS.get((n, a), set()) == want or (a in FIXED and not changed)
        check(ok, 'update_from_dict({%r: ...}) changed %s', a, sorted(changed))
        if changed:
            check(not differs(d0[a], d1[a], tol), '%s is %r after the update, expected %r', a, d1[a], d0[a])
            check(bool(r), 'update_from_dict({%r: ...}) changed it and returned %r', a, r)
    # and the whole of another object's JSON makes it like the other
    b = make(ent, {})
    k = dict(keep)
    k.pop('id', None)
    b.update_from_dict(copy.deepcopy(k))
    df = [x for x in differences(d0, describe(b), tol) if x[0].strip('.') not in FIXED | {'zip_output', 'filename'} and x[0].split('.')[1] not in FIXED]
    check(not df, 'after an update with all of another object it differs: %s', df)
    return dict(sig=case, states=4, transitions=5)


def seq_run(case):
    """two updates after one another end where both settings at construction do"""
    n, (x, y) = case
    ent = TAB[n]
    try:
        want = describe(c14.build(case))
    except (ValueError, TypeError):
        return dict(trivial=True, sig=('refused', n))
    b = make(ent, {})
    for a, i in (x, y):
        o = c14.build((n, ((a, i),)))
        j = js_of(o)
        if a in j:
            b.update_from_dict({a: j[a]})
    got = describe(b)
    skip = set(FIXED) | ({'name'} - {x[0], y[0]}) | FOLLOWS.get((n, x[0]), set()) | FOLLOWS.get((n, y[0]), set())
    df = [q for q in differences(want, got, c14.tol_of(n)) if not (q[0].endswith('.name') and q[0].count('.') > 1) and q[0].strip('.').split('.')[0] not in skip]
    check(not df, 'after updating %s and then %s (attribute, expected, is): %s', x[0], y[0], df)
    return dict(sig=case, states=2, transitions=2)


SKIP_SEQ = {('Renderer', 'map_filename'), ('Spill', 'units'), ('Spill', 'amount'), ('Spill', 'substance'), ('PointLineRelease', 'num_per_timestep'), ('PolygonRelease', 'weights'), ('PolygonRelease', 'thicknesses'),
            ('NetCDFOutput', 'zip_output'), ('BinaryOutput', 'zip_output')}


def seq_cases():
    for n, (cls, fixed, attrs) in TAB.items():
        if n in ('GnomeOil', 'MapFromBNA'):
            continue
        al = [(a, i) for a, vs in attrs.items() if not a.startswith('_p') for i in range(len(vs)) if (n, a) not in SKIP_SEQ]
        for x, y in itertools.permutations(al, 2):
            if x[0] != y[0]:
                yield (n, (x, y))


# ------------------------------------------------------------- a model's collections

def mk():
    w = constant_wind(5, 30)
    w.name = 'w'
    return Model(start_time=T0, time_step=900, duration=hrs(1), environment=[w, Water(281., name='wa')],
                 movers=[PointWindMover(w, name='pw'), SimpleMover((1., 0, 0), name='s1'), SimpleMover((2., .5, 0), name='s2', on=False)],
                 spills=[point_line_spill(4, (0., 0., 0.), T0, name='a'), point_line_spill(5, (1., 0., 0.), T0 + mins(15), name='b')],
                 weatherers=[HalfLifeWeatherer(name='h')], outputters=[WeatheringOutput(name='o')])


EDIT = ['same', 'reverse', 'drop0', 'droplast', 'add', 'rename', 'toggle', 'rotate']
COLLS = ['movers', 'spills', 'environment', 'weatherers', 'outputters']


def edit(lst, what, coll, n):
    if what == 'reverse':
        lst.reverse()
    elif what == 'drop0' and lst:
        lst.pop(0)
    elif what == 'droplast' and lst:
        lst.pop()
    elif what == 'rotate':
        lst[:] = lst[1:] + lst[:1]
    elif what == 'rename' and lst:
        lst[-1]['name'] = 'renamed %d' % n
    elif what == 'toggle' and lst:
        if 'on' in lst[0]:
            lst[0]['on'] = not lst[0]['on']
        else:
            lst[0]['name'] = 'toggled %d' % n
    elif what == 'add':
        lst.append(js_of(getattr(mk(), coll)[-1]))


def coll_run(case):
    coll, unc, mid, edits = case
    m = mk()
    m.uncertain = unc
    m.rewind()
    for _ in range(mid):
        m.step()
    st = 0
    for n, e in enumerate(edits):
        j = js_of(m)
        lst = j[coll]
        before = {o.id: o for o in getattr(m, coll)}
        edit(lst, e, coll, n)
        want = [(x['id'] if x['id'] in before else None, x['name'], x.get('on', True)) for x in lst]
        given = {coll: copy.deepcopy(lst)}
        keep = copy.deepcopy(given)
        m.update_from_dict(given)
        check(given == keep, 'update_from_dict() changed the dict it was given')
        got = [(o.id if o.id in before and before[o.id] is o else None, o.name, getattr(o, 'on', True)) for o in getattr(m, coll)]
        check(got == want, 'after %s the %s are %s, expected %s', e, coll, got, want)
        st += 1
    # nothing else of the model changed; it runs like one made from scratch
    final = js_of(m)
    f = Model.deserialize(copy.deepcopy(final))
    ref = mk()
    for c in COLLS:
        if c != coll:
            check([o.name for o in getattr(m, c)] == [o.name for o in getattr(ref, c)], 'updating the %s changed the %s', coll, c)
    if coll != 'environment' or 'drop0' not in edits:
        a, b = c14.history(f), c14.history(m)
        c14.same_history(a, b, 'the updated model')
    return dict(sig=case, states=st, transitions=len(edits))


def coll_cases(depth):
    def it():
        for coll in COLLS:
            for unc in (False, True):
                for mid in (0, 2):
                    for e in itertools.product(EDIT, repeat=depth):
                        yield (coll, unc, mid, e)
    return it


# ------------------------------------------------------------------ sharing

def share_run(case):
    m = c14.shared_model(case)
    want = c14.pattern(m)
    vals = [describe(o) for o in c14.wires(m)]
    j = js_of(m)
    keep = copy.deepcopy(j)
    ids = set()
    for _ in range(2):
        l = Model.deserialize(j)
        check(j == keep, 'deserialize() changed the JSON it was given')
        check(c14.pattern(l) == want, 'the deserialized objects share %s, the original ones %s', c14.pattern(l), want)
        check(close(vals, [describe(o) for o in c14.wires(l)], 1e-6), 'values differ')
        now = {id(o) for o in c14.wires(l)}
        check(not now & {id(o) for o in c14.wires(m)}, 'the deserialized model uses objects of the original')
    # an update with its own JSON keeps the very same objects
    ne = len(m.environment)
    before, env = [id(o) for o in c14.wires(m)][ne:], {id(o) for o in m.environment}
    m.update_from_dict(j)
    # (the model may take up more of the objects in use into its environment)
    check(env <= {id(o) for o in m.environment}, 'an update with its own JSON replaced objects of the environment')
    ne = len(m.environment)
    now = [(type(o).__name__, id(o) == i or n >= len(before) - 4 and isinstance(o, Water)) for n, (o, i) in enumerate(zip(c14.wires(m)[ne:], before))]
    check(close([v for v in vals if v['#class'] != 'Waves'][-9:], [describe(o) for o in c14.wires(m) if not isinstance(o, Waves)][-9:], 1e-6), 'an update with its own JSON changed values')
    check(all(x[1] for x in now), 'an update with its own JSON replaced objects of the model: %s', now)
    # giving one mover another wind leaves all others as they are
    w = constant_wind(17, 170)
    mj = js_of(m.movers[0])
    mj['wind'] = js_of(w)
    old = m.movers[0].wind
    desc_old = describe(old)
    m.movers[0].update_from_dict(mj)
    check(m.movers[0].wind is not old and not differences(describe(m.movers[0].wind), describe(w), 1e-12), 'the mover did not get the new wind')
    check(not differences(desc_old, describe(old)), 'giving a mover a new wind altered the old one')
    return dict(sig=str(want), states=3, transitions=4)


def run_model(case):
    """the model made from the JSON of another runs the same"""
    s, mv, mp, unc, back = case
    sgn = -1 if back else 1
    kw = {}
    if mp != 'none':
        kw['map'] = c14.MAPS[mp]()
    m = Model(start_time=T0, time_step=600 * sgn, duration=hrs(1) * sgn, uncertain=unc, run_backwards=back,
              spills=[c14.SPILLS[s]()], movers=[c14.MOVERS[x]() for x in mv], **kw)
    l = Model.deserialize(js_of(m))
    a, b = c14.history(m), c14.history(l)
    c14.same_history(a, b, 'the deserialized model')
    return dict(sig=case, states=len(a))


def set_run(case):
    """the model made from the JSON of another, one setting of it changed, runs the same"""
    name, unc, op, late, ran = case
    m = c14.scen_model(name, unc, op, late)
    want = c14.history(m)
    if not ran:
        m.rewind()
    l = Model.deserialize(js_of(m))
    c14.compare_runs(name, want, c14.history(l), 'the deserialized model')
    c14.compare_runs(name, want, c14.history(m), 'the serialized model')
    return dict(sig=case, states=len(want) * 3, transitions=len(want) * 3)


def parts(tier):
    q = tier == 'quick'
    return [Part('objects', c14.obj_cases(False), obj_run, chunk=8, rule='every class x attribute value'),
            Part('updates', seq_cases, seq_run, chunk=16, rule='every ordered pair of updates of one object'),
            Part('collections', coll_cases(2 if q else 3), coll_run, chunk=4, rule='all edit sequences of every collection'),
            Part('sharing', c14.share_cases(not q), share_run, chunk=8, rule='all ways to share two winds, two waters and substances'),
            Part('settings', c14.set_cases(not q), set_run, chunk=2, rule='scenario x setting, given when built or set later x uncertainty x made before or after a run'),
            Part('runs', c14.run_cases(not q), run_model, chunk=4, rule='spills x movers x maps x uncertainty x direction')]
