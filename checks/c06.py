"""C06  clean-up operations remove what was asked for, within their window."""
import itertools

import nucos as uc

from vp.core import Part, check, Violation
from vp.weath import *
from gnome.weatherers import Weatherer

PROPERTY = 'C06'
LEVEL = 'model_checking'
NOTE = ('every alignment of the operation window with the time steps and sub-steps x operation x spill size, against '
        'the requested amount pro rata of the elapsed window')
ASSUMPTIONS = ['one operation at a time (operations compete for the same oil), no emulsification unless stated',
               'burning: constant burn rate 0.058 mm/s down to 2 mm as documented']
DENS = None


def dens():
    global DENS
    if DENS is None:
        DENS = oil().standard_density
    return DENS


BBL = 0.158987294928
KG = {'kg': 1., 'tonne': 1000., 'lb': .45359237}
M3 = {'m^3': 1., 'bbl': BBL, 'gal': 0.003785411784, 'l': .001}


def kg(amount, units):
    return amount * KG[units] if units in KG else amount * M3[units] * dens()


def exact(amount, units):
    """with the factors of the library of units"""
    return uc.convert('Mass', units, 'kg', amount) if units in KG else uc.convert('Volume', units, 'm^3', amount) * dens()


def model(dt, substeps, ne, rel, amount=100, dur=7200, off=0):
    m = Model(start_time=T0, duration=secs(dur), time_step=secs(dt))
    m.weathering_substeps = substeps
    wind = constant_wind(5, 270, 'm/s')
    water = Water(288.)
    waves = Waves(wind, water)
    m.environment += [wind, water, waves]
    m.spills += gs.point_line_spill(num_elements=ne, start_position=(0., 0., 0.), release_time=T0 + secs(off),
                                    end_release_time=T0 + secs(off + rel) if rel else None,
                                    substance=oil(), amount=amount, units='bbl')
    return m, wind, water, waves


def operation(op, a, b, wind, water, waves, eff):
    """returns (weatherer, budget key, function time -> kg removed until then)"""
    r = (T0 + secs(a), T0 + secs(b))

    def ramp(total, a=a, b=b):
        return lambda t: total * min(max((t - a) / float(b - a), 0.), 1.)
    if op.startswith('skim'):
        amt, units = {'skim': (10, 'bbl'), 'skimkg': (500, 'kg'), 'skimm3': (1.5, 'm^3'), 'skimgal': (400, 'gal'),
                      'skimt': (.5, 'tonne')}[op]
        return (Skimmer(amount=amt, units=units, efficiency=eff, active_range=r, water=water), 'skimmed',
                ramp(kg(amt, units) * eff))
    if op == 'disp':
        return (ChemicalDispersion(fraction_sprayed=.2, active_range=r, waves=waves, efficiency=eff), 'chem_dispersed',
                ramp(kg(100, 'bbl') * .2 * eff))
    if op == 'burn':
        # burns from the start of the window until the oil is down to 2 mm
        secs_ = b - a
        th = .002 + .000058 * secs_
        area = .5 / (.000058 * secs_)       # half a cubic metre at full efficiency
        return (Burn(area=area, thickness=th, active_range=(r[0], r[0] + secs(10 * 86400)), efficiency=eff, wind=wind, water=water), 'burned',
                ramp(.5 * dens() * eff))
    if op in ('beach', 'beachkg'):
        units = 'bbl' if op == 'beach' else 'kg'
        mid = (a + b) // 2
        v1, v2 = (3., 4.) if op == 'beach' else (300., 100.)
        w = Beaching(active_range=r, units=units, timeseries=[(T0 + secs(mid), v1), (r[1], v2)], water=water)
        f1, f2 = ramp(kg(v1, units), a, mid), ramp(kg(v2, units), mid, b)
        return w, 'observed_beached', lambda t: f1(t) + f2(t)
    raise AssertionError(op)


def run(case):
    op, dt, sub, a, b, ne, eff = case
    if op.startswith('beach') and b - a < 2:
        return {'trivial': True}
    m, wind, water, waves = model(dt, sub, ne, 0)
    w, key, want = operation(op, a, b, wind, water, waves, eff)
    m.weatherers += w
    trace = []
    for k in range(m.num_time_steps):
        m.step()
        sc = m.spills.items()[0]
        t = k * dt
        got = float(sc.mass_balance[key])
        exp = want(t)
        check(abs(got - exp) <= 1e-4 * max(exp, 1), '%s over [%d, %d] s, step of %d s: after %d s %s is %.4f kg, asked for %.4f kg',
              op, a, b, dt, t, key, got, exp)
        check(abs(sc['mass'].sum() + got - kg(100, 'bbl')) <= .05, '%s: elements hold %.4f kg', op, sc['mass'].sum())
        trace.append(round(got, 2))
    return {'states': len(trace), 'transitions': len(trace) - 1, 'sig': (op, tuple(trace)), 'show': trace}


def run_scarce(case):
    """asked for more than there is: takes what there is, never more, never leaves the window"""
    op, dt, sub, a, b, rel = case
    m, wind, water, waves = model(dt, sub, 4, rel, amount=1)
    r = (T0 + secs(a), T0 + secs(b))
    if op == 'skim':
        w, key = Skimmer(amount=50, units='bbl', efficiency=.5, active_range=r, water=water), 'skimmed'
    elif op == 'burn':
        w, key = Burn(area=1e4, thickness=.05, active_range=r, efficiency=1., wind=wind, water=water), 'burned'
    else:
        w, key = Beaching(active_range=r, units='bbl', timeseries=[(r[1], 20.)], water=water), 'observed_beached'
    m.weatherers += w
    prev = 0.
    for k in range(m.num_time_steps):
        m.step()
        sc = m.spills.items()[0]
        got = float(sc.mass_balance[key])
        t = k * dt
        check(got <= sc.mass_balance['amount_released'] * (1 + 1e-6) + 1e-9, '%s removed %r of %r', op, got, sc.mass_balance['amount_released'])
        check(t > a or got == 0, '%s removed %r before its window', op, got)
        # a burn has no end of its own: it stops when the oil is down to 2 mm
        check(op == 'burn' or t - dt < b or abs(got - prev) < 1e-9, '%s removed after its window', op)
        check((sc['mass'] >= 0).all(), 'negative mass')
        prev = got
    return {'states': m.num_time_steps, 'transitions': m.num_time_steps - 1, 'sig': (op, round(prev, 3)), 'show': prev}


def run_off(case):
    """an operation that is switched off, or whose window is outside the run, removes nothing"""
    op, dt, a, b, on = case
    m, wind, water, waves = model(dt, 1, 5, 0)
    w, key, want = operation(op, a, b, wind, water, waves, .5)
    w.on = on
    m.weatherers += w
    for k in range(m.num_time_steps):
        m.step()
        sc = m.spills.items()[0]
        check(float(sc.mass_balance.get(key, 0.)) == 0, 'removed %r', sc.mass_balance.get(key))
        check((sc['mass'] == sc['init_mass']).all(), 'masses changed')
    return {'states': m.num_time_steps, 'sig': case}


def run_emul(case):
    """a skimmer collects oil/water mixture: of emulsified oil it removes the oil fraction"""
    dt, sub, wf = case
    m, wind, water, waves = model(dt, sub, 5, 0)
    m.weatherers += Skimmer(amount=10, units='bbl', efficiency=.5, active_range=(T0 + secs(900), T0 + secs(4500)), water=water)

    class SetWater(Weatherer):
        def weather_elements(self, sc, time_step, model_time):
            sc['frac_water'][:] = wf
    m.step()
    for sc in m.spills.items():
        pass
    for k in range(1, m.num_time_steps):
        m.spills.items()[0]['frac_water'][:] = wf
        m.step()
        sc = m.spills.items()[0]
        t = k * dt
        exp = kg(10, 'bbl') * .5 * (1 - wf) * min(max((t - 900) / 3600., 0.), 1.)
        got = float(sc.mass_balance['skimmed'])
        check(abs(got - exp) <= 1e-4 * max(exp, 1), 'water fraction %g: %.3f kg after %d s, expected %.3f', wf, got, t, exp)
    return {'states': m.num_time_steps, 'sig': case}

# ---- every operation against a reference of what it takes from which element
SPILLS = {'one': [(100, 5, 0, True)], 'two': [(60, 3, 0, True), (7, 2, 0, True)], 'off': [(60, 4, 0, True), (50, 3, 0, False)],
          'slow': [(80, 12, 5400, True)], 'both': [(20, 2, 0, True), (80, 16, 6000, True)]}
WATER = {'none': lambda i: 0., 'same': lambda i: .4, 'mixed': lambda i: (.1, .7, 0., .45, .9)[i % 5], 'last': lambda i: .8 * (i > 1)}
# how much is asked for, as a share of what is spilled
SHARES = (.05, .3, .85, .9995, 1.0005, 1.0055, 1.5)
AREAS = ('m^2', 'km^2', 'ft^2')
LENGTHS = ('m', 'mm', 'in', 'ft')


def spilled(world):
    return sum(exact(a, 'bbl') for a, n, rel, on in SPILLS[world] if on)


class Oracle(object):
    """what an operation takes: the elements it has marked (by id), and how much"""
    def __init__(self, op, a, b, rate, eff, marked_until):
        self.op, self.a, self.b, self.rate, self.eff, self.until = op, a, b, rate, eff, marked_until
        self.marks = set()
        self.total = 0.

    def step(self, t, dt, sub, ids, mass, fw):
        """masses of the elements after a step from t to t + dt"""
        mass = mass.copy()
        if not (t + dt > self.a and self.b > t):
            return mass
        if self.op == 'skim' or not self.marks:
            live = np.where(mass > 0)[0]
            m = mass[live] / (1 - fw[live]) if self.op != 'disp' else mass[live]
            if self.until >= m.sum():
                n = len(live)
            else:
                n = int(np.where(np.cumsum(m) >= self.until)[0][0]) + 1
            self.marks |= {int(ids[i]) for i in live[:n]}
            if self.op == 'burn' and self.marks:
                mk = np.asarray([int(i) in self.marks for i in ids])
                fo = 1 - (mass[mk] * fw[mk]).sum() / mass[mk].sum()
                self.b = self.a + (self.th - .002) / (.000058 * fo)
                self.rate = .000058 * fo ** 2 * self.area * dens()
        ss = dt // sub
        cuts = list(range(0, dt + 1, ss)) + ([dt] if dt % ss else [])
        for c0, c1 in zip(cuts, cuts[1:]):
            over = max(min(t + c1, self.b) - max(t + c0, self.a), 0.)
            mk = np.asarray([int(i) in self.marks for i in ids], dtype=bool) & (mass > 0)
            if not mk.any():
                continue
            rm = self.rate * over * self.eff
            if self.op == 'skim':
                rm *= 1 - (mass[mk] * fw[mk]).sum() / mass[mk].sum()
            rm = min(rm, mass[mk].sum())
            self.total += rm
            mass[mk] *= 1 - rm / mass[mk].sum()
        return mass


def settings(op, world, share, eff, units):
    """amount etc. of the operation in the units, and in SI"""
    want = spilled(world) * share
    if op == 'skim':
        amt = want / exact(1., units)
        return dict(amount=amt, units=units)
    if op == 'burn':
        au, tu = units
        th = .05 if share < 1 else .4
        area = want / dens() / th
        return dict(area=uc.convert('Area', 'm^2', au, area), area_units=au, thickness=uc.convert('Length', 'm', tu, th), thickness_units=tu)
    return dict(fraction_sprayed=min(share, 1.))


def oracle(op, a, b, s, eff, world):
    if op == 'skim':
        tot = exact(s['amount'], s['units'])
        return Oracle(op, a, b, tot / (b - a), eff, tot * eff)
    if op == 'burn':
        area, th = uc.convert('Area', s['area_units'], 'm^2', s['area']), uc.convert('Length', s['thickness_units'], 'm', s['thickness'])
        o = Oracle(op, a, a + (th - .002) / .000058, .000058 * area * dens(), eff, eff * area * th * dens())
        o.area, o.th = area, th
        return o
    tot = spilled(world) * s['fraction_sprayed'] * eff
    return Oracle(op, a, b, tot / (b - a), 1., tot)


def build(op, a, b, s, eff, wind, water, waves):
    r = (T0 + secs(a), T0 + secs(b))
    if op == 'skim':
        return Skimmer(efficiency=eff, active_range=r, water=water, **s), 'skimmed'
    if op == 'burn':
        return Burn(efficiency=eff, active_range=(r[0], r[0] + secs(10 * 86400)), wind=wind, water=water, **s), 'burned'
    return ChemicalDispersion(efficiency=eff, active_range=r, waves=waves, **s), 'chem_dispersed'


def world_model(world, dt, sub, dur):
    m, wind, water, waves = model(dt, sub, 1, 0, dur=dur)
    m.spills.remove(m.spills[0].id)
    for i, (amt, ne, rel, on) in enumerate(SPILLS[world]):
        m.spills += gs.point_line_spill(num_elements=ne, start_position=(.1 * i, 0., 0.), release_time=T0, end_release_time=T0 + secs(rel) if rel else None,
                                        substance=oil(), amount=amt, units='bbl', on=on)
    return m, wind, water, waves


def follow(m, o, key, wf, dt, sub, n, what):
    """runs the model against the oracle"""
    last = {}
    for k in range(n):
        if k:
            sc = m.spills.items()[0]
            sc['frac_water'][:] = [WATER[wf](i) for i in range(len(sc['mass']))]
        before = dict(last)
        m.step()
        sc = m.spills.items()[0]
        ids = sc['id'].copy()
        got = sc['mass'].copy()
        if k:
            # released in the first half of the step: dealt with in this step
            on = sc['age'] > 0
            ix = np.where(on)[0]
            mass = np.asarray([before[int(i)] if int(i) in before else float(q) for i, q in zip(ids[ix], sc['init_mass'][ix])])
            fw = np.asarray([WATER[wf](j) if int(i) in before else 0. for j, i in enumerate(ids[ix])])
            exp = sc['init_mass'].astype(float).copy()
            exp[ix] = o.step((k - 1) * dt, dt, sub, ids[ix], mass, fw)
            bad = np.abs(exp - got) > 3e-6 * sc['init_mass']
            check(not bad.any(), '%s: after %d s the elements hold %r kg, expected %r', what, k * dt, got.tolist(), exp.tolist())
        bal = float(sc.mass_balance[key])
        check(abs(bal - o.total) <= 5e-6 * max(o.total, 1.), '%s: after %d s %s is %r kg, expected %r', what, k * dt, key, bal, o.total)
        last = {int(i): float(q) for i, q in zip(ids, got)}
    return o.total


def run_ref(case):
    op, world, wf, share, eff, units, dt, sub, a, b, n = case
    m, wind, water, waves = world_model(world, dt, sub, dt * (n - 1))
    s = settings(op, world, share, eff, units)
    w, key = build(op, a, b, s, eff, wind, water, waves)
    m.weatherers += w
    tot = follow(m, oracle(op, a, b, s, eff, world), key, wf, dt, sub, n, case)
    return dict(states=n, transitions=n - 1, sig=(case, round(tot, 3)), trivial=not tot)


def run_again(case):
    """run, changed, rewound and run again: as a new operation with these settings"""
    op, wf, stop, changes = case
    dt, sub, a, b, eff = 900, 1, 900, 4000, .5
    m, wind, water, waves = world_model('one', dt, sub, dt * 7)
    u = {'skim': 'bbl', 'burn': ('m^2', 'm'), 'disp': None}[op]
    s = settings(op, 'one', .3, eff, u)
    w, key = build(op, a, b, s, eff, wind, water, waves)
    m.weatherers += w
    done = 0
    for k, ch in enumerate(changes + ('end',)):
        done += stop
        if not w.on:
            for i in range(stop):
                m.step()
                sc = m.spills.items()[0]
                check((sc['mass'] == sc['init_mass']).all(), '%r: switched off, but took oil', case)
        else:
            follow(m, oracle(op, a, b, s, eff, 'one'), key, wf, dt, sub, stop, (case, k))
        if ch == 'share':
            s = settings(op, 'one', .6 if k % 2 == 0 else .1, eff, u)
            for name, v in s.items():
                setattr(w, name, v)
        elif ch == 'eff':
            eff = 1.3 - eff
            w.efficiency = eff
        elif ch == 'units':
            if op == 'skim':
                s = dict(amount=s['amount'] / 2, units='m^3' if s['units'] == 'bbl' else 'bbl')
            elif op == 'burn':
                s = dict(s, thickness=.02 if s['thickness_units'] == 'm' else 30., thickness_units='mm' if s['thickness_units'] == 'm' else 'm') if s['thickness_units'] == 'm' else dict(s, thickness=.03, thickness_units='m')
                if s['thickness_units'] == 'mm':
                    s['thickness'] = 20.
            for name, v in s.items():
                setattr(w, name, v)
        elif ch == 'window':
            a, b = (1200, 2700) if a == 900 else (900, 4000)
            w.active_range = (T0 + secs(a), T0 + secs(b))
        elif ch == 'off':
            w.on = not w.on
        m.rewind()
    return dict(states=done, transitions=done, sig=case)


def ref_cases(tier):
    deep = tier != 'quick'
    H = 3600
    wins = [(900, 3, 0, 2700, 9), (900, 1, 500, 5000, 9), (6 * H, 1, 3 * H, 33 * H, 8)]
    if deep:
        wins += [(900, 7, 901, 1900, 9), (6 * H, 5, 0, 48 * H, 10), (24 * H, 2, 6 * H, 75 * H, 6), (600, 1, 599, 601, 9)]
    for op in ('skim', 'burn', 'disp'):
        for world in SPILLS:
            for wf in WATER:
                for share in SHARES:
                    for eff in (.3, 1.) if not deep else (.05, .3, .77, 1.):
                        for dt, sub, a, b, n in wins:
                            if not deep and (share in (.05, .85)) == (eff == 1.) and wf != 'mixed':
                                continue
                            yield op, world, wf, share, eff, {'skim': 'bbl', 'burn': ('m^2', 'm'), 'disp': None}[op], dt, sub, a, b, n
    for u in ('bbl', 'kg', 'm^3', 'gal', 'tonne', 'lb', 'l'):
        for share in SHARES:
            yield 'skim', 'two', 'mixed', share, .6, u, 900, 1, 500, 5000, 9
    for au in AREAS:
        for tu in LENGTHS:
            for share in SHARES:
                for world in ('two', 'slow'):
                    yield 'burn', world, 'mixed', share, .6, (au, tu), 900, 1, 500, 5000, 9


def again_cases(tier):
    for op in ('skim', 'burn', 'disp'):
        for wf in ('none', 'mixed'):
            for stop in (3, 7):
                for n in range(1, 3 if tier == 'quick' else 4):
                    for ch in itertools.product(('share', 'eff', 'units', 'window', 'off'), repeat=n):
                        if op == 'disp' and 'units' in ch:
                            continue
                        yield op, wf, stop, ch


def parts(tier):
    deep = tier != 'quick'
    dts = (600, 900) if not deep else (300, 600, 700, 900, 1800)
    starts = (0, 300, 450, 600, 899, 900, 901, 1000, 1800, 2700) if not deep else (0, 1, 299, 300, 450, 599, 600, 601, 899, 900, 901, 1000, 1350, 1800, 2700, 3333)
    lens = (1, 2, 50, 100, 599, 600, 900, 1100, 1800, 2500, 3600) if not deep else (1, 2, 3, 50, 100, 299, 300, 599, 600, 601, 900, 1100, 1500, 1800, 2500, 3600)
    ops = ('skim', 'disp', 'burn', 'beach')

    def align():
        for op, dt, sub, a, n in itertools.product(ops, dts, (1, 2, 3, 7) if deep else (1, 3), starts, lens):
            yield op, dt, sub, a, a + n, 5, .5

    def variants():
        for op in ('skim', 'skimkg', 'skimm3', 'skimgal', 'skimt', 'disp', 'burn', 'beach', 'beachkg'):
            for ne in (1, 2, 10, 33):
                for eff in (0.1, .5, 1.):
                    for a, b in ((900, 2700), (1000, 1300), (450, 4000)):
                        yield op, 900, 1, a, b, ne, eff

    def scarce():
        for op in ('skim', 'burn', 'beach'):
            for dt, sub, a, n, rel in itertools.product(dts, (1, 3), (0, 450, 900, 1000), (100, 900, 2500), (0, 2000)):
                yield op, dt, sub, a, a + n, rel

    def off():
        for op in ('skim', 'disp', 'burn', 'beach'):
            for dt in dts:
                yield op, dt, 900, 2700, False
                yield op, dt, 7200, 9000, True
                yield op, dt, -3600, -1800, True
                yield op, dt, -900, 0, True

    def emul():
        for dt in dts:
            for sub in (1, 3):
                for wf in (0., .25, .5, .9):
                    yield dt, sub, wf
    return [Part('align', align, run, rule='operation x time step x sub-steps x window start x window length'),
            Part('variants', variants, run, rule='operation and units x elements x efficiency x window'),
            Part('scarce', scarce, run_scarce), Part('off', off, run_off), Part('emulsion', emul, run_emul),
            Part('reference', lambda: ref_cases(tier), run_ref, rule='operation x spills x water content x amount x efficiency x window x units: every element after every step'),
            Part('again', lambda: again_cases(tier), run_again, rule='all sequences of changes between runs')]
