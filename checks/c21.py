"""C21  times mean the same wherever and whenever the run takes place."""
import calendar
import itertools
import os
import time

from vp.core import Part, check, seqs, scratch_dir
from vp.g import *
from gnome.utilities.time_utils import date_to_sec, sec_to_date, round_time, asdatetime, TZOffset
from gnome.utilities.inf_datetime import InfDateTime, InfTime, MinusInfTime
from gnome.environment import Tide, Wind, Water
from gnome.movers import CatsMover
from gnome.spills.release import Release, PolygonRelease
from gnome.basic_types import date_rec, datetime_value_2d
from gnome.cy_gnome.cy_helpers import CyDateTime
from vp import scen
from vp.objs import POLY

PROPERTY = 'C21'
LEVEL = 'model_checking'
NOTE = 'every half hour of whole years (every second round the clock changes) in a table of POSIX time zones, every minute offset, every sequence of zone assignments up to the depth, and whole model runs repeated in every zone'
ASSUMPTIONS = ['zones keep one standard offset with at most one hour of summer time, the only ones GNOME knows (not Lord Howe, not the Irish negative summer time)',
               'TZ is switched with tzset in the process that runs the model']

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')

ZONES = {'UTC': 'UTC0', 'NewYork': 'EST5EDT,M3.2.0,M11.1.0', 'LosAngeles': 'PST8PDT,M3.2.0,M11.1.0',
         'Brussels': 'CET-1CEST,M3.5.0,M10.5.0/3', 'Sydney': 'AEST-10AEDT,M10.1.0,M4.1.0/3',
         'StJohns': 'NST3:30NDT,M3.2.0,M11.1.0', 'Kolkata': 'IST-5:30', 'Nuuk': '<-03>3<-02>,M3.5.0/-2,M10.5.0/-1',
         'Auckland': 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'Kiritimati': '<+14>-14', 'Baker': 'AoE12',
         'Santiago': '<-04>4<-03>,M9.1.6/24,M4.1.6/24', 'Chatham': '<+1245>-12:45<+1345>,M9.5.0/2:45,M4.1.0/3:45'}


class zone:
    def __init__(self, name):
        self.tz = ZONES[name]

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.tz
        time.tzset()

    def __exit__(self, *a):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()


# ------------------------------------------------------------------ seconds
def changes(year):
    """the local standard times at which the clock changes in this zone, found by looking"""
    out = []
    t = calendar.timegm((year, 1, 1, 0, 0, 0))
    end = calendar.timegm((year + 1, 1, 1, 0, 0, 0))
    prev = time.localtime(t).tm_isdst
    while t < end:
        t += 900
        now = time.localtime(t).tm_isdst
        if now != prev:
            lo, hi = t - 900, t
            while hi - lo > 1:
                mid = (lo + hi) // 2
                if time.localtime(mid).tm_isdst == prev:
                    lo = mid
                else:
                    hi = mid
            out.append(datetime(1970, 1, 1) + timedelta(seconds=hi - time.timezone))
        prev = now
    return out


def c_seconds(year, z):
    with zone(z):
        first = date_to_sec(datetime(year, 1, 1))
        cy = CyDateTime()
        rec = np.zeros((1,), dtype=date_rec)
        n = 0

        def one(t, native):
            s = date_to_sec(t)
            want = first + (t - datetime(year, 1, 1)).total_seconds()
            check(s == want, 'in zone %s %s is %r s, %r expected: the clock is not uniform', z, t, s, want)
            back = sec_to_date(s)
            check(back == t, 'in zone %s %s comes back as %s', z, t, back)
            if native:
                d = cy.SecondsToDate(int(s))
                got = tuple(int(d[k]) for k in ('year', 'month', 'day', 'hour', 'minute', 'second'))
                check(got == t.timetuple()[:6], 'in zone %s the native code takes %s for %s', z, t, got)
                for k in ('year', 'month', 'day', 'hour', 'minute', 'second'):
                    rec[k] = getattr(t, k)
                got = cy.DateToSeconds(rec)
                check(got == s, 'in zone %s the native code counts %s as %s s instead of %s', z, t, got, s)

        t = datetime(year, 1, 1)
        line = []
        while t.year == year:
            one(t, True)
            line.append(t)
            n += 1
            t += timedelta(minutes=30)
        for c in changes(year):
            for k in range(-5400, 5400):
                one(c + timedelta(seconds=k), k % 60 == 0 or abs(k) < 3)
                n += 1
        # the array forms say the same as the scalar one
        for arr in (line, np.array(line), np.array(line, dtype='datetime64[s]')):
            got = date_to_sec(arr)
            check(len(got) == len(line) and int(got[0]) == int(first) and bool(np.all(np.diff(got.astype(np.int64)) == 1800)),
                  'date_to_sec of an array differs from the scalar one in zone %s, year %s', z, year)
            back = sec_to_date(got)
            check(bool(np.all(back == np.array(line, dtype='datetime64[s]'))), 'array of times does not come back, zone %s year %s', z, year)
        return {'states': n}


# ------------------------------------------------------------------ tides
def c_tide(z, month, hour):
    """a fresh tide gives the same heights in every zone"""
    t = datetime(2012, month, 1, hour)
    vals = {}
    for zz in ('UTC', z):
        with zone(zz):
            out = []
            for d in range(0, 28, 3):
                for m in (0, 30, 59):
                    tide = Tide(os.path.join(DATA, 'EbbTidesShioHt.txt'))
                    v = tide.cy_obj.get_time_value([date_to_sec(t + timedelta(days=d, minutes=m))])[0]
                    out.append((float(v['u'][0]), float(v['v'][0])))
            vals[zz] = out
    check(vals['UTC'] == vals[z], 'the tide at hour %s of month %s differs between UTC and %s: %s', hour, month, z,
          next(((i, a, b) for i, (a, b) in enumerate(zip(vals['UTC'], vals[z])) if a != b), None))
    return {'states': len(vals[z])}


# ------------------------------------------------------------------ whole runs
def near(a, b):
    """difference of two snapshots beyond the rounding of absolute seconds in the interpolation of the wind"""
    if len(a) != len(b):
        return 'number of sets'
    for i, (x, y) in enumerate(zip(a, b)):
        if set(x) != set(y):
            return 'set %d has different arrays: %s' % (i, sorted(set(x) ^ set(y)))
        for k in x:
            if x[k] == y[k] or k == '#time':
                continue
            if k == '#mass_balance':
                p, q = dict(eval(x[k], {'nan': np.nan, 'inf': np.inf, 'np': np})), dict(eval(y[k], {'nan': np.nan, 'inf': np.inf, 'np': np}))
                if set(p) == set(q) and all(np.allclose(p[j], q[j], rtol=1e-7, atol=1e-9) for j in p):
                    continue
            elif x[k][:2] == y[k][:2] and x[k][1].startswith('float') and \
                    np.allclose(np.frombuffer(x[k][2], x[k][1]), np.frombuffer(y[k][2], y[k][1]), rtol=1e-7, atol=1e-9, equal_nan=True):
                continue
            return 'set %d differs in %s: %s vs %s' % (i, k, x[k][:2] + (np.frombuffer(x[k][2], x[k][1]).tolist(),) if k[0] != '#' else x[k],
                                                       np.frombuffer(y[k][2], y[k][1]).tolist() if k[0] != '#' else y[k])
    return None


STARTS = [datetime(2020, 3, 7, 20), datetime(2020, 3, 28, 21), datetime(2020, 4, 4, 22), datetime(2020, 10, 31, 21),
          datetime(2020, 10, 24, 20), datetime(2020, 9, 26, 22), datetime(2020, 12, 31, 20), datetime(2020, 2, 28, 22), datetime(2020, 6, 30, 22)]


def runmodel(start, kind, dt, n, back=False, shift=None):
    """a run whose every ingredient hangs on a time of day"""
    s = -1 if back else 1
    rel = start + s * timedelta(minutes=30)
    # in a run backwards the release begins at its later end
    m = Model(start_time=start, time_step=-dt if back else dt, duration=s * timedelta(seconds=dt * n), uncertain=kind == 'unc')
    m.spills += gs.point_line_spill(num_elements=6, start_position=(0., 45., 0.), release_time=rel,
                                            end_release_time=None if back else rel + timedelta(hours=2), amount=600, units='kg',
                                            substance=scen.oil() if kind in ('oil', 'unc') else None)
    ts = np.zeros((7,), dtype=datetime_value_2d)
    for i in range(7):
        ts['time'][i] = start + timedelta(hours=2 * i - (12 if back else 0))
        ts['value'][i] = (2. + i, 40. * i)
    w = Wind(timeseries=ts, units='m/s', extrapolation_is_allowed=True)
    m.movers += PointWindMover(w, active_range=(min(start, start + s * timedelta(hours=1)), InfDateTime('inf'))) if not back else PointWindMover(w)
    if kind == 'tide':
        tide = Tide(os.path.join(DATA, 'EbbTidesShioHt.txt'))
        c = CatsMover(os.path.join(DATA, 'EbbTides.cur'), tide=tide)
        m.movers += c
        m.movers += SimpleMover((.1, -.05, 0.), active_range=(start + timedelta(hours=1), start + timedelta(hours=3)))
    elif kind == 'oil':
        from gnome.weatherers import Evaporation, Skimmer
        water = Water(290.)
        m.environment += water
        m.weatherers += Evaporation(wind=w, water=water)
        m.weatherers += Skimmer(amount=50, units='kg', efficiency=.5, active_range=(start + timedelta(hours=1), start + timedelta(hours=3)), water=water)
    elif kind == 'unc':
        m.movers += RandomMover(diffusion_coef=1e4)
    out = []
    m.rewind()
    while True:
        try:
            m.step()
        except StopIteration:
            break
        out.append((m.current_time_step, (m.spills.items()[0].current_time_stamp - start).total_seconds(),
                    [{k: v for k, v in x.items() if k != '#time'} for x in snap(m)]))
    return out


def c_runs(start, kind, back):
    ref = None
    n = 0
    for z in ZONES:
        with zone(z):
            got = runmodel(start, kind, 1800, 12, back)
        n += len(got)
        check(len(got) >= 12, 'the run has %s steps', len(got))
        if ref is None:
            ref = got
            continue
        for a, b in zip(ref, got):
            check(a[:2] == b[:2], 'time of step %s is %s in UTC and %s in %s', a[0], a[1], b[1], z)
            d = near(a[2], b[2])
            check(d is None, 'run of %s with %s differs between UTC and %s at step %s: %s', start, kind, z, a[0], d)
        check(len(ref) == len(got), '%s steps in UTC, %s in %s', len(ref), len(got), z)
    return {'states': n}


def c_shift(z, kind, back):
    """a run over a change of the clock is the same as a run in plain time"""
    n = 0
    with zone(z):
        ref = runmodel(datetime(2020, 6, 15, 12), kind, 1800, 12, back)
        for c in changes(2020) + [datetime(2020, 2, 29), datetime(2020, 12, 31, 23)]:
            for h in (-5, -2, -1, 0, 1):
                st = c.replace(minute=0, second=0) + timedelta(hours=h)
                got = runmodel(st, kind, 1800, 12, back)
                n += len(got)
                check(len(ref) == len(got), 'the run started %s has %s steps instead of %s', st, len(got), len(ref))
                for a, b in zip(ref, got):
                    check(a[:2] == b[:2], 'step %s of the run started %s in %s is at %s s', a[0], st, z, b[1])
                    d = near(a[2], b[2])
                    check(d is None, 'the run started %s in zone %s differs from one in plain time at step %s: %s', st, z, a[0], d)
    return {'states': n}


# ------------------------------------------------------------------ infinities
def c_inf(i):
    vals = [MinusInfTime(), InfDateTime('-inf'), InfDateTime(1970, 1, 1), datetime(1970, 1, 1), InfDateTime(2020, 2, 29, 12),
            datetime(2020, 2, 29, 12), datetime(2020, 2, 29, 12, 0, 1), InfDateTime(2038, 1, 19), datetime(2050, 1, 1),
            InfTime(), InfDateTime('inf')]
    rank = [0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 6]
    a, ra = vals[i], rank[i]
    for b, rb in zip(vals, rank):
        check((a < b) == (ra < rb) and (a <= b) == (ra <= rb) and (a == b) == (ra == rb) and (a != b) == (ra != rb) and
              (a > b) == (ra > rb) and (a >= b) == (ra >= rb), '%r and %r compare wrongly', a, b)
        if ra != rb:
            check((min(a, b) == a) == (ra < rb) and (max(a, b) == a) == (ra > rb), 'min and max of %r and %r', a, b)
    if ra in (0, 6):
        check(-(-a) == a and (-a > a) == (ra == 0) and InfDateTime(a.isoformat()) == a, 'negation or text of %r', a)
    return {'states': len(vals)}


# ------------------------------------------------------------------ offsets
def c_offset(h):
    n = 0
    for m in range(0, 60):
        for sign in ((1, -1) if h or m else (1,)):
            tot = sign * (60 * h + m)
            for mk in (timedelta(minutes=tot), tot / 60.):
                o = TZOffset(mk)
                check(o.as_timedelta() == timedelta(minutes=tot), 'offset of %s min given as %r is %s', tot, mk, o.as_timedelta())
                want = '%s%02d:%02d' % ('-' if tot < 0 else '+', h, m)
                check(o.as_iso_string() == want and o.title == want, 'offset of %s min given as %r is written %s / %s', tot, mk, o.as_iso_string(), o.title)
                check(abs(o.offset - tot / 60.) < 1e-9, 'offset of %s min is %s h', tot, o.offset)
                n += 1
    return {'states': n}


OFFS = [None, 0., -8., 5.5, 12.75, -1. / 3]
T1 = datetime(2020, 3, 8, 1)


def windfile(hdr):
    p = os.path.join(scratch_dir('c21'), 'w.osm')
    with open(p, 'w') as f:
        f.write('Station\n45, -70\nknots\n%s' % hdr)
        for i in range(3):
            t = T1 + timedelta(hours=6 * i)
            f.write('%d, %d, %d, %d, %d, %s, %s\n' % (t.day, t.month, t.year, t.hour, t.minute, 5. + i, 100. * i))
    return p


def tz(o):
    return None if o is None else TZOffset(o)


def c_zones(kind, seq):
    first, rest = seq[0], seq[1:]
    times = [T1 + timedelta(hours=6 * i) for i in range(3)]
    if kind == 'wind':
        ts = np.zeros((3,), dtype=datetime_value_2d)
        ts['time'] = times
        ts['value'] = [(5. + i, 100. * i) for i in range(3)]
        o = Wind(timeseries=ts, units='knots', timezone_offset=tz(first))
    elif kind == 'file':
        o = Wind(filename=windfile('' if first is None else '%r, here\n' % first))
    elif kind == 'from_file':
        o = Wind.from_file(windfile('' if first is None else '%r, here\n' % first))
    else:
        kw = dict(release_time=T1, release_mass=5.)
        if kind.endswith('cont'):
            kw['end_release_time'] = T1 + timedelta(hours=2)
        elif kind.endswith('same'):
            kw['end_release_time'] = T1
        if first is not None:
            kw['timezone_offset'] = tz(first)
        if kind.startswith('poly'):
            o = PolygonRelease(polygons=POLY, num_elements=5, **kw)
        else:
            o = Release(num_elements=5, custom_positions=[(0, 45, 0)], **kw)
    cur, off = first, timedelta(0)
    for new in [first] + list(rest):
        o.timezone_offset = tz(new)
        if cur is not None and new is not None:
            off += timedelta(seconds=round((new - cur) * 3600))
        cur = new
        got = o.timezone_offset
        check((got.offset is None) == (new is None) and (new is None or abs(got.offset - new) < 1e-9), 'offset %r set, %r got', new, got)
        if kind in ('wind', 'file', 'from_file'):
            have = [t.astype(datetime) if isinstance(t, np.datetime64) else t for t in o.timeseries['time']]
            check(have == [t + off for t in times], 'after zones %r the times of the wind are %s, %s expected', seq, have, [t + off for t in times])
            check(np.allclose(o.timeseries['value'], [(5. + i, 100. * i) for i in range(3)], rtol=1e-9, atol=1e-9),
                  'after zones %r the values of the wind are %s', seq, o.timeseries['value'].tolist())
            s, d = o.get_value(times[1] + off)
            check(abs(s - 6. * .514444) < 1e-3 and abs(d - 100.) < 1e-6, 'after zones %r the wind at its second time is %s', seq, (s, d))
            check(o.units == 'knots', 'units %s', o.units)
        else:
            check(o.release_time == T1 + off, 'after zones %r the release is at %s, %s expected', seq, o.release_time, T1 + off)
            end = T1 + off + (timedelta(hours=2) if kind.endswith('cont') else timedelta(0))
            check(o.end_release_time == end, 'after zones %r the release ends at %s, %s expected', seq, o.end_release_time, end)
    return {'states': len(seq)}


# ------------------------------------------------------------------ rounding and reading
def c_round(to):
    n = 0
    day = datetime(2020, 2, 29)
    pts = set(range(0, 86400, 997)) | {k + e for k in range(0, 86400, to) for e in (-1, 0, 1, to // 2 - 1, to // 2, to // 2 + 1)}
    for s in sorted(p for p in pts if 0 <= p < 86400):
        t = day + timedelta(seconds=s)
        got = round_time(t, to)
        q = (got - day).total_seconds()
        check(q % to == 0 and abs(q - s) <= to / 2., '%s rounded to %s s is %s', t, to, got)
        check(round_time(got, to) == got or got.date() != day.date(), 'rounding %s twice', t)
        n += 1
    return {'states': n}


def c_read(i):
    """a time given in any accepted form is the same time"""
    n = 0
    d = [datetime(2020, 2, 29, 23, 59, 59), datetime(1999, 12, 31), datetime(2020, 3, 8, 2, 30), datetime(2020, 11, 1, 1, 30), datetime(2037, 12, 31, 12, 0, 1)][i]
    forms = [d, d.isoformat(), d.isoformat(' '), d.isoformat() + 'Z', d.isoformat() + '-08:00', d.isoformat() + '+05:30', d.strftime('%d %b %Y %H:%M:%S')]
    for z in ZONES:
        with zone(z):
            for f in forms:
                check(asdatetime(f) == d, '%r is read as %s in %s', f, asdatetime(f), z)
                m = Model(start_time=f)
                check(m.start_time == d and m.model_time == d, '%r as start time of a model is %s / %s in %s', f, m.start_time, m.model_time, z)
                check(Release(release_time=f, num_elements=1).release_time == d, '%r as release time in %s', f, z)
                n += 1
            check(asdatetime(None) is None, 'None')
    return {'states': n}


def c_saved(za, zb, kind):
    """saved in one zone, loaded in another"""
    st = datetime(2020, 3, 8, 0)
    ts = np.zeros((5,), dtype=datetime_value_2d)
    for i in range(5):
        ts['time'][i] = st + timedelta(hours=2 * i)
        ts['value'][i] = (3. + i, 50. * i)
    with zone(za):
        m = Model(start_time=st, time_step=1800, duration=timedelta(hours=8))
        w = Wind(timeseries=ts, units='m/s')
        m.movers += PointWindMover(w, active_range=(st + timedelta(hours=1), st + timedelta(hours=5)))
        m.movers += SimpleMover((.1, .2, 0), active_range=(InfDateTime('-inf'), st + timedelta(hours=3)))
        m.spills += gs.point_line_spill(num_elements=10, start_position=(0., 45., 0.), release_time=st + timedelta(hours=1, minutes=30),
                                                end_release_time=st + timedelta(hours=4))
        if kind == 'tide':
            m.movers += CatsMover(os.path.join(DATA, 'EbbTides.cur'), tide=Tide(os.path.join(DATA, 'EbbTidesShioHt.txt')))
        p = os.path.join(scratch_dir('c21s'), 'm.gnome')
        m.save(p)
        m.rewind()
        ref = run_all(m)
    with zone(zb):
        m2 = Model.load(p)
        check(m2.start_time == st and m2.duration == m.duration, 'saved in %s, loaded in %s: start time %s', za, zb, m2.start_time)
        r = m2.spills[0].release
        check(r.release_time == st + timedelta(hours=1, minutes=30) and r.end_release_time == st + timedelta(hours=4), 'release times %s %s', r.release_time, r.end_release_time)
        check([tuple(x.active_range) for x in m2.movers][:2] == [tuple(x.active_range) for x in m.movers][:2], 'active ranges %s', [x.active_range for x in m2.movers])
        check(list(m2.movers[0].wind.timeseries['time']) == list(ts['time']), 'saved in %s, loaded in %s: wind times %s', za, zb, m2.movers[0].wind.timeseries['time'])
        m2.rewind()
        got = run_all(m2)
    check(len(ref) == len(got), 'steps %s %s', len(ref), len(got))
    for k, (a, b) in enumerate(zip(ref, got)):
        d = near(a, b)
        check(d is None, 'saved in %s and loaded in %s the run differs at step %s: %s', za, zb, k, d)
    return {'states': len(ref)}


def run_all(m):
    out = []
    while True:
        try:
            m.step()
        except StopIteration:
            return out
        out.append(snap(m))


def star(f):
    return lambda c: f(*c)


def parts(tier):
    quick = tier == 'quick'
    years = [1971, 1999, 2000, 2020, 2037] if quick else list(range(1971, 2038))
    zs = list(ZONES)
    yield Part('seconds', lambda: [(y, z) for z in zs for y in years], star(c_seconds), rule='every half hour of the year and every second within 1.5 h of each change of the clock; non-trivial: states are instants')
    yield Part('tide', lambda: [(z, m, h) for z in zs[1:] for m in ((2, 3, 6, 10, 12) if quick else range(1, 13)) for h in ((4, 5, 6, 23) if quick else range(24))], star(c_tide),
               rule='a fresh tide at 30 instants per case')
    kinds = ['plain', 'oil', 'unc', 'tide']
    yield Part('runs', lambda: [(s, k, b) for s in (STARTS if not quick else STARTS[:4] + STARTS[6:7]) for k in kinds for b in (False, True) if not (b and k == 'oil')], star(c_runs),
               rule='one model run per zone in every case')
    yield Part('shift', lambda: [(z, k, b) for z in zs for k in ['plain', 'oil', 'unc'] for b in (False, True) if not (b and k == 'oil')], star(c_shift),
               rule='runs starting at five hours round each change of the clock')
    yield Part('infinities', lambda: [(i,) for i in range(11)], star(c_inf))
    yield Part('offsets', lambda: [(h,) for h in range(0, 15)], star(c_offset))
    yield Part('zones', lambda: [(k, s) for k in ('wind', 'file', 'from_file', 'point', 'point_cont', 'point_same', 'poly', 'poly_cont')
                                 for s in itertools.product(OFFS, repeat=3 if quick else 4)], star(c_zones),
               rule='all sequences of assigned zones')
    yield Part('round', lambda: [(t,) for t in (1, 7, 60, 300, 900, 1800, 3600, 7200, 43200)], star(c_round))
    yield Part('read', lambda: [(i,) for i in range(5)], star(c_read))
    yield Part('saved', lambda: [(a, b, k) for a in zs for b in zs for k in ('plain', 'tide') if a != b and (not quick or 'UTC' in (a, b) or 'NewYork' in (a, b))], star(c_saved))
