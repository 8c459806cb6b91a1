"""Weathering models for the mass-balance checks."""
from vp.g import *
from vp.scen import oil, band_map
from gnome.environment import Water, Waves
from gnome.weatherers import (Evaporation, NaturalDispersion, Emulsification, Skimmer, Burn,
                              ChemicalDispersion, Beaching)

NAMES = ['evap', 'nd', 'em', 'skim', 'burn', 'disp', 'beach']
SINK = {'evap': ['evaporated'], 'nd': ['natural_dispersion', 'sedimentation'], 'em': [],
        'skim': ['skimmed'], 'burn': ['burned'], 'disp': ['chem_dispersed'], 'beach': ['observed_beached']}
SINKS = ['evaporated', 'natural_dispersion', 'sedimentation', 'skimmed', 'burned', 'chem_dispersed',
         'dissolution', 'bio_degradation', 'observed_beached', 'off_maps']
KG_BBL = 0.158987294928 * 876.1       # only for orientation


def make(names, dt=900, dur=7200, substeps=1, rel=1500, where='open', unc=False, back=False, spills=1,
         wind_ms=8, water_k=288., ne=6, win=None, amount=100, units='bbl', depth=0.):
    sgn = -1 if back else 1
    mp = None if where == 'open' else band_map(.3)
    kw = {} if mp is None else dict(map=mp)
    m = Model(start_time=T0, duration=secs(sgn * dur), time_step=secs(sgn * dt), uncertain=unc, run_backwards=back, **kw)
    m.weathering_substeps = substeps
    wind = constant_wind(wind_ms, 270, 'm/s')
    water = Water(water_k)
    waves = Waves(wind, water)
    m.environment += [wind, water, waves]
    a, b = ((0., 0., 0.), None) if where == 'open' else ((.45, .5, 0.), (.02, .5, 0.))
    a, b = [p and p[:2] + (depth,) for p in (a, b)]
    sub = oil()
    for i in range(spills):
        off = i * 1700
        m.spills += gs.point_line_spill(num_elements=ne, start_position=a, end_position=b,
                                        release_time=T0 + secs(sgn * off),
                                        end_release_time=T0 + secs(off + rel) if rel else None,
                                        substance=sub, amount=amount, units=units)
    if where in ('land', 'off', 'mixed'):
        m.movers += SimpleMover(({'land': 8., 'off': -12., 'mixed': 3.}[where], 0., 0.))
        if where == 'mixed':
            m.movers += RandomMover(diffusion_coef=40000000)
    # windows of the operations, deliberately not aligned with the steps
    w = win or {'skim': (1000, 2650), 'burn': (1850, 5400), 'disp': (2000, 5300), 'beach': (950, 5400)}

    def rng(n):
        return (T0 + secs(w[n][0]), T0 + secs(w[n][1]))
    mk = {'evap': lambda: Evaporation(water=water, wind=wind),
          'nd': lambda: NaturalDispersion(waves=waves, water=water),
          'em': lambda: Emulsification(waves=waves),
          'skim': lambda: Skimmer(amount=10, units='bbl', efficiency=.5, active_range=rng('skim'), water=water),
          'burn': lambda: Burn(area=100., thickness=.02, active_range=rng('burn'), efficiency=.8, wind=wind, water=water),
          'disp': lambda: ChemicalDispersion(fraction_sprayed=.2, active_range=rng('disp'), waves=waves, efficiency=.3),
          'beach': lambda: Beaching(active_range=rng('beach'), units='bbl',
                                    timeseries=[(T0 + secs(3600), 5.), (T0 + secs(w['beach'][1]), 3.)], water=water)}
    for n in names:
        m.weatherers += mk[n]()
    return m
