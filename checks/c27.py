"""C27  tides follow their station's constants at every time, whatever was asked before."""
import itertools
import math
import os
from datetime import datetime, timedelta

from vp.core import Part, Violation, check, scratch_dir
from vp.g import *
import gnome
from gnome.environment import Tide
from gnome.maps.map import GnomeMap
from gnome.movers import CatsMover
from gnome.spills.release import Release
from gnome.spills.spill import Spill
from gnome.utilities.time_utils import date_to_sec

PROPERTY = 'C27'
LEVEL = 'model_checking'
NOTE = 'every history of questions to a bound, every constituent, year, month and offset of stations of heights, progressive waves and currents, on the real Tide; compared with an independent harmonic prediction'
ASSUMPTIONS = ['speeds of the 37 constituents of the NOS, node factors and arguments from the year data of the package',
               'the clock of a station is on US daylight saving time in summer; times less than five days from a change of the clock or of the first of January are only compared loosely (fresh tides: three days after a change)',
               'a station of currents is compared exactly at floods, ebbs and slack waters and loosely in between']
DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
YEARDIR = os.path.join(os.path.dirname(gnome.__file__), 'data', 'yeardata')
SP = np.array([28.9841042, 30.0, 28.4397295, 15.0410686, 57.9682084, 13.9430356, 86.9523127, 44.0251729, 60.0, 57.4238337,
               28.5125831, 90.0, 27.9682084, 27.8953548, 16.1391017, 29.4556253, 15.0, 14.4966939, 15.5854433, 0.5443747,
               0.0821373, 0.0410686, 1.0158958, 1.0980331, 13.4715145, 13.3986609, 29.9589333, 30.0410667, 12.8542862,
               14.9589314, 31.0158958, 43.4761563, 29.5284789, 42.9271398, 30.0821373, 115.9364169, 58.9841042])
N = len(SP)
KNOT = 0.514444
SEMI = {0: (3.0, 40.), 1: (.8, 70.), 3: (.5, 100.), 5: (.4, 200.)}
DIUR = {0: (.05, 40.), 3: (1.5, 100.), 5: (.9, 200.), 29: (.4, 90.)}
MIXED = {0: (2., 300.), 2: (.4, 15.), 3: (1.4, 100.), 5: (.8, 200.), 34: (.2, 260.), 21: (.3, 150.)}
STATIONS = {'semi': SEMI, 'diurnal': DIUR, 'mixed': MIXED}
OFF_H = dict(HighTime=0., LowTime=0., HighHeight_Mult=1., HighHeight_Add=0., LowHeight_Mult=1., LowHeight_Add=0.)
OFF_C = dict(MinBefFloodTime=0., FloodTime=0., MinBefEbbTime=0., EbbTime=0., FloodSpdRatio=1., EbbSpdRatio=1.)
OFF_C0 = ('MinBFloodSpd', 'MinBFloodDir', 'MaxFloodSpd', 'MaxFloodDir', 'MinBEbbSpd', 'MinBEbbDir', 'MaxEbbSpd', 'MaxEbbDir')


def station(typ, amps, datum, off=None, datumlines=True, tail=' '):
    H, K = [0.] * N, [0.] * N
    for i, (a, k) in amps.items():
        H[i], K[i] = a, k
    L = ['[StationInfo]', 'Type=' + typ, 'Name=SOMEWHERE', 'Latitude=18.458333', 'Longitude=-66.116667', '[Constituents]']
    if datumlines:
        L += ['DatumControls.datum=%f' % datum, 'DatumControls.FDir=0', 'DatumControls.EDir=180', 'DatumControls.L2Flag=0',
              'DatumControls.HFlag=0', 'DatumControls.RotFlag=0']
    L += ['H=' + ' '.join('%f' % h for h in H) + tail, 'kPrime=' + ' '.join('%f' % h for h in K) + tail, '[Offset]']
    o = dict(OFF_C if typ == 'C' else OFF_H, **(off or {}))
    L += ['%s=%f 1' % (k, o[k]) for k in (OFF_C if typ == 'C' else OFF_H)]
    if typ == 'C':
        L += ['%s=0.0 0' % k for k in OFF_C0]
    return L


def write(lines, eol='\n', last=True):
    p = os.path.join(os.environ['VP_SCRATCH'], 'station-%d.txt' % os.getpid())
    with open(p, 'w', newline='') as fd:
        fd.write(eol.join(lines) + (eol if last else ''))
    return p


_year = {}


def year(y):
    if y not in _year:
        v = [float(x) for x in open(os.path.join(YEARDIR, '#%d' % y)).read().split()]
        _year[y] = np.array(v[0::2][:N]), np.array(v[1::2][:N])
    return _year[y]


def nth_sunday(y, m, n):
    d = datetime(y, m, 1)
    d += timedelta(days=(6 - d.weekday()) % 7)
    if n > 0:
        return d + timedelta(days=7 * (n - 1), hours=2)
    while (d + timedelta(days=7)).month == m:
        d += timedelta(days=7)
    return d + timedelta(hours=2)


def summer(t):
    y = t.year
    a, b = (nth_sunday(y, 4, 1), nth_sunday(y, 10, -1)) if y < 2007 else (nth_sunday(y, 3, 2), nth_sunday(y, 11, 1))
    return a <= t < b


def clear(t):
    """far from a change of the clock and from the beginning of the year"""
    y = t.year
    if y < 1987:
        ch = [datetime(y, 4, 1), datetime(y, 10, 31)]
        far = 32
    elif y < 2007:
        ch, far = [nth_sunday(y, 4, 1), nth_sunday(y, 10, -1)], 5
    else:
        ch, far = [nth_sunday(y, 3, 2), nth_sunday(y, 11, 1)], 5
    return all(abs((t - c).total_seconds()) > far * 86400 for c in ch) and (t - datetime(y, 1, 1)).days >= 5


def curve(amps, datum, y, hours):
    """height at hours since the beginning of the year, standard time"""
    X, V = year(y)
    idx = np.array(sorted(amps))
    a = np.array([amps[i][0] for i in idx]) * X[idx]
    ph = V[idx] - np.array([amps[i][1] for i in idx])
    return datum + (a[:, None] * np.cos(np.radians(SP[idx][:, None] * np.atleast_1d(hours)[None] + ph[:, None]))).sum(axis=0)


def hour(t, dst=None):
    d = summer(t) if dst is None else dst
    return (t - datetime(t.year, 1, 1)).total_seconds() / 3600. - (1 if d else 0)


def around(amps, datum, t, dst=None, span=30):
    """the turning points within span hours of t: list of (hours after t, value, high?)"""
    h0 = hour(t, dst)
    h = np.arange(-span * 60, span * 60 + 1) / 60.
    c = curve(amps, datum, t.year, h + h0)
    d = np.diff(c)
    k = np.where(d[:-1] * d[1:] <= 0)[0] + 1
    return [(h[i], c[i], d[i - 1] > 0) for i in k], h, c


def ask(tide, t):
    v, err = tide.cy_obj.get_time_value(date_to_sec(t))
    check(err == 0, 'error %s at %s', err, t)
    check(float(v[0]['v']) == 0., 'the second component at %s is %s', t, v[0]['v'])
    return float(v[0]['u'])


def size(amps):
    return sum(a for a, _ in amps.values())


def oracle_h(amps, datum, t, off, dst=None):
    pts, _, _ = around(amps, datum, t, dst)
    o = dict(OFF_H, **(off or {}))
    pts = [(h + o['HighTime'], v * o['HighHeight_Mult'] + o['HighHeight_Add']) if hi else
           (h + o['LowTime'], v * o['LowHeight_Mult'] + o['LowHeight_Add']) for h, v, hi in pts]
    a = [p for p in pts if p[0] <= 0]
    b = [p for p in pts if p[0] > 0]
    if not a or not b:
        return None, None
    (ta, va), (tb, vb) = a[-1], b[0]
    x = -ta / (tb - ta)
    val = 6 * x * (va - vb) * (x - 1) / (tb - ta) * 3048. / 3600.
    # a minute of doubt about when the water turns
    w = 6 * abs(va - vb) / (tb - ta) ** 2 / 60. * 3048. / 3600. * 2
    return val, w


def compare(typ, amps, datum, tide, t, off=None, scale=1., loose=1., dst=None, what=''):
    """the answer of the tide at t against the prediction; returns how much was really compared"""
    got = ask(tide, t)
    check(math.isfinite(got), '%s tide at %s is %s%s', typ, t, got, what)
    if typ == 'H':
        e, w = oracle_h(amps, datum, t, off, dst)
        if e is None:
            return 0
        tol = (w + .004 * size(amps)) * abs(scale) * loose
        check(abs(got - e * scale) <= tol, 'the tide of heights at %s changes at %.5f, predicted %.5f%s', t, got, e * scale, what)
        return 1
    if typ == 'P':
        if off and any(off.values()):
            return 0
        e = float(curve(amps, datum, t.year, hour(t, dst))[0]) * 3048. / 1200.
        tol = .004 * size(amps) * 3048. / 1200. * abs(scale) * loose
        check(abs(got - e * scale) <= tol, 'the progressive wave at %s is %.5f, predicted %.5f%s', t, got, e * scale, what)
        return 1
    e = float(curve(amps, datum, t.year, hour(t, dst))[0]) * KNOT
    tol = .25 * size(amps) * KNOT * loose
    if not off:
        check(abs(got - e) <= tol, 'the current at %s is %.5f, predicted %.5f%s', t, got, e, what)
    return 1


def compare_turns(typ, amps, datum, tide, t, off, loose=1., dst=None, what=''):
    """floods, ebbs, slack waters (or the highs and lows of a progressive wave) of the day after t, with their offsets"""
    pts, h, c = around(amps, datum, t, dst, 40)
    n = 0
    if typ == 'P':
        o = dict(OFF_H, **(off or {}))
        for hh, v, hi in pts:
            if 2 < hh < 30:
                tt = t + timedelta(hours=hh + (o['HighTime'] if hi else o['LowTime']))
                e = (v * o['HighHeight_Mult'] + o['HighHeight_Add']) if hi else (v * o['LowHeight_Mult'] + o['LowHeight_Add'])
                got = ask(tide, tt)
                check(abs(got - e * 3048. / 1200.) <= .02 * size(amps) * 3048. / 1200. * loose, '%s water at %s is %.4f, predicted %.4f%s', 'high' if hi else 'low', tt, got, e * 3048. / 1200., what)
                n += 1
        return n
    o = dict(OFF_C, **(off or {}))
    prev = None
    for hh, v, hi in pts:
        if prev is not None and prev * v > 0:
            return n            # floods twice in a row: not compared
        prev = v
    for hh, v, hi in pts:
        if 2 < hh < 30:
            tt = t + timedelta(hours=hh + (o['FloodTime'] if v > 0 else o['EbbTime']))
            e = v * (o['FloodSpdRatio'] if v > 0 else o['EbbSpdRatio']) * KNOT
            got = ask(tide, tt)
            check(abs(got - e) <= .015 * size(amps) * KNOT * loose, 'strength of the current at the %s of %s is %.4f, predicted %.4f%s', 'flood' if v > 0 else 'ebb', tt, got, e, what)
            n += 1
    z = np.where(c[:-1] * c[1:] <= 0)[0]
    for i in z:
        hh = h[i] + (h[i + 1] - h[i]) * c[i] / (c[i] - c[i + 1])
        if 2 < hh < 30:
            flood = c[i + 1] > 0
            tt = t + timedelta(hours=hh + (o['MinBefFloodTime'] if flood else o['MinBefEbbTime']))
            got = ask(tide, tt)
            check(abs(got) <= .04 * size(amps) * KNOT * loose, 'current at the slack before the %s at %s is %.4f%s', 'flood' if flood else 'ebb', tt, got, what)
            n += 1
    return n


# ---------------------------------------------------------------- every constituent, year, month
DAYS = [(1, 9), (2, 17), (2, 28), (3, 1), (3, 25), (5, 31), (6, 30), (8, 31), (9, 30), (11, 29), (12, 24)]


def run_constants(case):
    typ, i, y = case
    amps = {0: (2.0, 50.)}
    if i == 0:
        amps = {0: (2.5, 310.)}
    else:
        amps[i] = (.8 * min(1., (SP[0] / SP[i]) ** 2), 77. + 5 * i)
    datum = .2
    path = write(station(typ, amps, datum))
    n = 0
    for m, d in DAYS:
        t = datetime(y, m, d, 3, 5)
        if not clear(t) or not clear(t + timedelta(days=2)):
            continue
        tide = Tide(path)
        for k in range(9):
            n += compare(typ, amps, datum, tide, t + timedelta(minutes=157 * k), what=' (constituents %s)' % (amps,))
        if typ == 'C':
            n += compare_turns(typ, amps, datum, tide, t, None)
    check(n > 20, 'nothing compared')
    return dict(states=n, transitions=n, sig=(typ, i, y))


def constant_cases(tier):
    ys = (1981, 1999, 2000, 2012, 2026) if tier == 'quick' else range(1980, 2027)
    for typ in 'HPC':
        for i in range(N):
            for y in ys:
                yield typ, i, y


# ---------------------------------------------------------------- the clock of the station
def run_clock(case):
    typ, y, month = case
    amps = {0: (2.5, 310.), 3: (.4, 20.)}
    path = write(station(typ, amps, .2))
    n = 0
    t = datetime(y, month, 1, 5, 20)
    while t.month == month:
        # on the same side of a change of the clock for as long as the tide looks back
        if summer(t) == summer(t - timedelta(days=2, hours=12)):
            tide = Tide(path)
            n += compare(typ, amps, .2, tide, t, what=' (a fresh tide)')
            n += compare(typ, amps, .2, tide, t + timedelta(hours=5), what=' (a fresh tide)')
        t += timedelta(days=1)
    return dict(states=n, transitions=n, sig=case)


def clock_cases(tier):
    for typ in 'HPC':
        for y in range(1987, 2027) if tier != 'quick' or typ == 'P' else (1996, 2006, 2007, 2015):
            for month in (3, 4, 10, 11) if tier == 'quick' else range(1, 13):
                if month != 1:
                    yield typ, y, month


# ---------------------------------------------------------------- offsets
def run_offsets(case):
    typ, name, off, dst_off = case
    amps = STATIONS[name]
    datum = .1
    off = dict(off)
    path = write(station(typ, amps, datum, off))
    n = 0
    for t in (datetime(2012, 2, 6, 0, 11), datetime(2012, 7, 20, 7, 3), datetime(2013, 12, 11, 6, 30)):
        tide = Tide(path)
        dst = None
        if dst_off:
            tide.cy_obj.daylight_savings_off = True
            dst = False
        for k in range(12):
            n += compare(typ, amps, datum, tide, t + timedelta(minutes=133 * k), off, dst=dst, what=' (offsets %s)' % off)
        if typ != 'H':
            n += compare_turns(typ, amps, datum, tide, t, off, dst=dst, what=' (offsets %s)' % off)
    return dict(states=n, transitions=n, sig=case[:3])


def offset_cases(tier):
    hs = [{}, {'HighTime': 1.}, {'LowTime': -.75}, {'HighTime': .5, 'LowTime': 1.25}, {'HighHeight_Mult': 1.5}, {'LowHeight_Mult': .5},
          {'HighHeight_Add': .4}, {'LowHeight_Add': -.3}, {'HighTime': -1.5, 'LowTime': -1., 'HighHeight_Mult': .8, 'HighHeight_Add': .1, 'LowHeight_Mult': 1.2, 'LowHeight_Add': -.1}]
    cs = [{}, {'FloodTime': .6}, {'EbbTime': -.6}, {'MinBefFloodTime': .5}, {'MinBefEbbTime': -.5}, {'FloodSpdRatio': 1.4}, {'EbbSpdRatio': .6},
          {'FloodTime': 1., 'EbbTime': 1., 'MinBefFloodTime': 1., 'MinBefEbbTime': 1.},
          {'FloodTime': -.8, 'EbbTime': -.6, 'MinBefFloodTime': -.7, 'MinBefEbbTime': -.9, 'FloodSpdRatio': .5, 'EbbSpdRatio': 1.3}]
    for typ in 'HPC':
        for name in STATIONS:
            for o in (cs if typ == 'C' else hs):
                for d in (False, True):
                    yield typ, name, tuple(sorted(o.items())), d


# ---------------------------------------------------------------- histories of questions
B = datetime(2012, 7, 10, 6, 30)
ASKS = {'base': B, 'soon': B + timedelta(minutes=7), 'morning': B + timedelta(days=1, hours=1), 'before': B - timedelta(hours=5), 'dayend': B + timedelta(hours=17, minutes=29),
        'third': B + timedelta(days=3, hours=2), 'fourth': B + timedelta(days=4), 'fortnight': B + timedelta(days=14, hours=9),
        'winter': datetime(2012, 1, 20, 13, 0), 'other': datetime(2009, 12, 12, 8, 0), 'leap': datetime(2012, 2, 29, 7, 50),
        'newyear': datetime(2013, 1, 1, 0, 40), 'eve': datetime(2012, 12, 31, 23, 20)}
OPS = sorted(ASKS) + ['double', 'negate', 'again']


def run_history(case):
    typ, name, ops = case
    amps = STATIONS[name]
    datum = .15
    tide = Tide(write(station(typ, amps, datum)))
    scale = 1.
    n = 0
    last = None
    for o in ops:
        if o == 'double':
            scale *= 2
            tide.scale_factor = scale
        elif o == 'negate':
            scale = -scale
            tide.scale_factor = scale
        elif o == 'again':
            # a second one of the same station in between changes nothing
            Tide(write(station(typ, {0: (9., 10.)}, 0.))).cy_obj.get_time_value(date_to_sec(B))
            if last is not None:
                a = ask(tide, last)
                b = ask(tide, last)
                check(a == b, 'the tide at %s is %s and then %s', last, a, b)
                n += compare(typ, amps, datum, tide, last, scale=scale, loose=1 if clear(last) else 12, what=' after %s' % (ops,))
        else:
            t = ASKS[o]
            last = t
            n += compare(typ, amps, datum, tide, t, scale=scale, loose=1 if clear(t) else 12, what=' after %s' % (ops,))
    check(tide.scale_factor == scale, 'scale factor is %s, set to %s', tide.scale_factor, scale)
    return dict(states=len(ops), transitions=len(ops), sig=(typ, name, ops))


def history_cases(tier):
    k = 3 if tier == 'quick' else 4
    for typ in 'HPC':
        for name in sorted(STATIONS):
            for ops in itertools.product(OPS, repeat=k):
                if ops[-1] in ('double', 'negate'):
                    continue
                if tier == 'quick' and name != 'diurnal' and not any(o in ('fourth', 'newyear', 'other', 'before') for o in ops):
                    continue
                yield typ, name, ops


# ---------------------------------------------------------------- long runs of steps
def run_walk(case):
    typ, name, t0, step, sg = case
    amps = STATIONS[name]
    tide = Tide(write(station(typ, amps, .15)))
    n = 0
    t = t0
    for k in range(int(9 * 86400 / step)):
        if clear(t):
            n += compare(typ, amps, .15, tide, t, what=' on the way from %s' % t0)
        elif t.month in (12, 1):
            n += compare(typ, amps, .15, tide, t, loose=12, what=' on the way from %s' % t0)
        t += timedelta(seconds=sg * step)
    return dict(states=n, transitions=n, sig=case)


def walk_cases(tier):
    for typ in 'HPC':
        for name in sorted(STATIONS):
            for t0 in (datetime(2012, 2, 24, 6, 40), datetime(2012, 8, 27, 9, 0), datetime(2011, 12, 28, 6, 10), datetime(2000, 12, 26, 23, 50), datetime(2026, 6, 25, 0, 0)):
                for step in ((2700, 7 * 3600, 30 * 3600) if tier == 'quick' else (600, 900, 2700, 3600, 7 * 3600, 12 * 3600, 30 * 3600, 100 * 3600)):
                    for sg in (1, -1):
                        yield typ, name, t0, step, sg


# ---------------------------------------------------------------- what moves
def run_mover(case):
    typ, name, scale, dt, back = case
    amps = STATIONS[name]
    tide = Tide(write(station(typ, amps, .15)), scale_factor=scale)
    mv = CatsMover(os.path.join(DATA, 'EbbTides.cur'), tide=tide)
    mv.scale = False
    sg = -1 if back else 1
    t = datetime(2012, 8, 20, 6, 40)
    steps = int(5 * 86400 / dt)
    n = 0
    m = Model(start_time=t, duration=secs(sg * dt * steps), time_step=secs(sg * dt), map=GnomeMap(), uncertain=False, run_backwards=back)
    from checks.c22 import read_cur
    v, tri, vel = read_cur(os.path.join(DATA, 'EbbTides.cur'))
    k = int(np.argmax(np.hypot(vel[:, 0], vel[:, 1])))
    pt = tuple(v[tri[k]].mean(axis=0)) + (0.,)
    m.spills += Spill(release=Release(release_time=t, num_elements=1, custom_positions=[pt]), substance=None, amount=1, units='kg')
    m.movers += mv
    m.rewind()
    m.step()
    for i in range(steps - 1):
        sc = m.spills.items()[0]
        sc['positions'][0] = pt
        m.step()
        d = m.spills.items()[0]['positions'][0] - np.array(pt)
        j = int(np.argmax(np.abs(vel[k])))
        unit = vel[k][j] * sg * dt * 8.9992801e-06 / (math.cos(math.radians(pt[1])) if j == 0 else 1.)
        got = d[j] / unit
        if typ == 'H':
            e, w = oracle_h(amps, .15, t, None)
            tol = (w + .006 * size(amps)) * abs(scale)
            e *= scale
        elif typ == 'P':
            e = float(curve(amps, .15, t.year, hour(t))[0]) * 3048. / 1200. * scale
            tol = .006 * size(amps) * 3048. / 1200. * abs(scale)
        else:
            e = float(curve(amps, .15, t.year, hour(t))[0]) * KNOT
            tol = .25 * size(amps) * KNOT
        check(abs(got - e) <= tol, 'step %d at %s: the pattern is moved by %.5f of itself, the tide is %.5f', i, t, got, e)
        n += 1
        t += secs(sg * dt)
    return dict(states=n, transitions=n, sig=case)


def mover_cases(tier):
    for typ in 'HPC':
        for name in sorted(STATIONS):
            for scale in (1., .2) if tier == 'quick' else (1., .2, -3.):
                for dt in (3600, 6 * 3600) if tier == 'quick' else (900, 1800, 3600, 6 * 3600, 25 * 3600):
                    for back in (False, True):
                        yield typ, name, scale, dt, back


# ---------------------------------------------------------------- incomplete and odd station files
def run_file(case):
    typ, what, k = case
    amps = MIXED
    lines = station(typ, amps, .15)
    good = Tide(write(lines))
    ts = [datetime(2012, 7, 10, 0, 13) + timedelta(hours=5 * i) for i in range(6)]
    vals = [ask(good, t) for t in ts]
    eol, last = '\n', True
    same = True
    if what == 'eol':
        eol = ['\n', '\r\n'][k % 2]
        last = bool(k // 2)
    elif what == 'tail':
        lines = station(typ, amps, .15, tail=['', ' ', '   '][k])
    elif what == 'nodatum':
        lines = station(typ, amps, .15, datumlines=False)
        same = False
        if typ == 'H':
            return dict(states=1, transitions=1, sig=case)          # left open
    elif what == 'drop':
        if lines[k].startswith('Name') or k < 4:
            return dict(states=1, transitions=1, sig=case)
        lines = lines[:k] + lines[k + 1:]
        same = False
    elif what == 'cut':
        lines = lines[:k]
        same = False
    elif what == 'word':
        if '=' not in lines[k] or lines[k].startswith('Name'):
            return dict(states=1, transitions=1, sig=case)
        key = lines[k].split('=')[0]
        lines[k] = key + '=x'
        same = False
    path = write(lines, eol, last)
    try:
        tide = Tide(path)
    except Exception as e:
        check(not same, 'a complete station file (%s %s) is refused: %s', what, k, e)
        return dict(states=1, transitions=1, sig=case)
    check(same, 'the station file with %s (%s) is accepted', what, k)
    for i, t in enumerate(ts):
        g = ask(tide, t)
        check(abs(g - vals[i]) < 1e-9, 'the tide at %s is %s with %s %s, %s otherwise', t, g, what, k, vals[i])
    return dict(states=len(ts), transitions=len(ts), sig=case)


def file_cases(tier):
    for typ in 'HPC':
        n = len(station(typ, MIXED, .15))
        for k in range(4):
            yield typ, 'eol', k
        for k in range(3):
            yield typ, 'tail', k
        yield typ, 'nodatum', 0
        for what in ('drop', 'cut', 'word'):
            for k in range(n):
                yield typ, what, k


# ---------------------------------------------------------------- tides given as a series
def run_series(case):
    unit, spacing, n, ops = case
    t0 = datetime(2012, 7, 10, 6, 0)
    f = {'knots': .5144, 'mps': 1., 'mph': .44704}[unit]
    names = {'knots': 'knots', 'mps': 'mps', 'mph': 'mph'}
    rows = []
    vals = []
    for i in range(n):
        t = t0 + timedelta(minutes=spacing * i)
        v = round(1.5 * math.sin(.9 * i + .3), 3)
        vals.append(v)
        rows.append('%d,%d,%d,%d,%d,%s,0.0' % (t.day, t.month, t.year, t.hour, t.minute, v))
    p = os.path.join(os.environ['VP_SCRATCH'], 'series-%d.txt' % os.getpid())
    with open(p, 'w') as fd:
        fd.write('Station\n-66.1,18.4\n%s\n' % names[unit] + '\n'.join(rows) + '\n')
    tide = Tide(p)
    m = 0
    check(tide.data_start == t0 and tide.data_stop == t0 + timedelta(minutes=spacing * (n - 1)), 'data runs from %s to %s', tide.data_start, tide.data_stop)
    for o in ops:
        x = o * (n - 1)
        t = t0 + timedelta(minutes=spacing * x)
        t = t.replace(microsecond=0)
        x = (t - t0).total_seconds() / 60. / spacing
        i = min(int(x), n - 2)
        e = (vals[i] + (vals[i + 1] - vals[i]) * (x - i)) * f
        got = ask(tide, t)
        check(abs(got - e) < 2e-4 * abs(e) + 2e-5, 'tide of a series at %s is %s, expected %s (asked %s)', t, got, e, ops)
        m += 1
    return dict(states=m, transitions=m, sig=case)


def series_cases(tier):
    xs = (0., .013, .25, .5, .61, .997, 1.)
    for unit in ('knots', 'mps', 'mph'):
        for spacing in (10, 60, 37):
            for n in (2, 3, 4, 5, 9, 17):
                for ops in itertools.product(xs, repeat=2 if tier == 'quick' else 3):
                    yield unit, spacing, n, ops


def parts(tier):
    return [Part('histories', lambda: history_cases(tier), run_history, rule='every sequence of 3 (thorough: 4) questions at 13 times - minutes, days, weeks, years apart, before and after, over the end of a year - and changes of the scale factor, for 3 kinds of station with semidiurnal, diurnal and mixed tides'),
            Part('constants', lambda: constant_cases(tier), run_constants, rule='each of the 37 constituents x 5 years (thorough: all 47) x 11 days of the year x 9 times, for 3 kinds of station'),
            Part('clock', lambda: clock_cases(tier), run_clock, rule='every day of the months in which the clock changes (thorough: of all but January) of 1987 to 2026, asked of a fresh tide'),
            Part('offsets', lambda: offset_cases(tier), run_offsets, rule='each offset of time, height and speed on its own and together, with and without daylight saving time'),
            Part('walks', lambda: walk_cases(tier), run_walk, rule='nine days forwards and backwards in steps of 45 minutes to 30 hours, also over the end of February and of the year'),
            Part('movers', lambda: mover_cases(tier), run_mover, rule='a CATS current with each kind of tide, five days forwards and backwards'),
            Part('files', lambda: file_cases(tier), run_file, rule='each line of a station file left out, emptied of its number, or the last; ends of lines'),
            Part('series', lambda: series_cases(tier), run_series, rule='pairs (thorough: triples) of questions to tides given as a series of 2 to 17 values in 3 units')]
