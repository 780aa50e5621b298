"""Splitting of the loads and monthly statistics."""
import random

import numpy as np

from .. import gen, hyb, ref
from ..target import plat

PROPERTY = 'C09'
RULE = ('Seeded years of hourly loads (18 shapes, W and kW, 365 and 366 days, '
        'integers and floats) through the split and the monthly statistics, '
        'against direct reductions of the arrays. Distinct by shape, units '
        'and length of the year.')
ASSUMPTIONS = ['Loads are lists of numbers, as the documentation uses.']
REQUIRED = {'split': 60, 'balance': 60, 'total': 1000, 'peak': 1000,
            'average': 1000, 'peak-day': 800, 'rejected': 4, 'table': 200,
            'input-kept': 60}
CHUNK = 4


def plan(rng, tier):
    n = 2400 if tier == 'quick' else 6000
    ps = [gen.phys(rng) for _ in range(4)]
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        cases.append({'phys': r.choice(ps), 'loads': gen.load_spec(
            r, [gen.LOAD_KINDS[i % len(gen.LOAD_KINDS)]]),
            'units': r.choice(['W', 'W', 'kW']), 'ints': r.random() < .2,
            'leap': r.random() < .25})
    for i in range(6):
        cases.append({'bad': i, 'phys': ps[0],
                      'loads': gen.load_spec(rng, ['seasonal']),
                      'units': 'W'})
    return cases


def run(c, mon):
    G = plat.ground_loads
    leap = c.get('leap', False)
    hours = 8784 if leap else 8760
    q = gen.loads(c['loads'], hours)
    if c.get('ints'):
        q = [int(round(x)) for x in q]
    if c['units'] == 'kW':
        q = [x / 1000. for x in q]
    eq, r = hyb.base(c['phys'])
    sim = gen.sim(1, 12)
    if 'bad' in c:
        k = c['bad']
        if k == 0:
            mon.raises('rejected', ValueError,
                       G.HybridLoad.split_heat_and_cool, q, units='MW')
            return
        wrong = {1: q[:-1], 2: q + [0.], 3: q * 2, 4: q[:8736],
                 5: q + q[:24]}[k]
        rej, ext = G.HybridLoad.split_heat_and_cool(wrong)
        mon.raises('rejected', (AssertionError, ValueError, IndexError),
                   G.HybridLoad, rej, ext, eq, r, sim)
        return
    keep = list(q)
    rej, ext = mon.call('split', G.HybridLoad.split_heat_and_cool, q,
                        units=c['units'])
    mon.check('input-kept', q == keep, 'the loads were changed')
    w_rej, w_ext = hyb.parts(q, c['units'])
    mon.close('split', rej, w_rej, rtol=1e-12, atol=0., what='rejection')
    mon.close('split', ext, w_ext, rtol=1e-12, atol=0., what='extraction')
    mon.check('balance', min(min(rej), min(ext)) >= 0. and
              not np.any((np.asarray(rej) > 0) & (np.asarray(ext) > 0)),
              'both or negative')
    if c['units'] == 'W' and not leap:
        # W is the default
        r2, e2 = G.HybridLoad.split_heat_and_cool(q)
        mon.check('split', r2 == rej and e2 == ext, 'default units')
    days = list(ref.MONTHS)
    if leap:
        days[1] = 29
        two_pi_k = 2. * np.pi * eq.soil.k
        Rb = eq.compute_effective_borehole_resistance()
        objs = [mon.call('Loads', G.Loads, x, r.g_sts, r.t_s, two_pi_k, Rb,
                         year=2020) for x in (rej, ext)]
    else:
        h = mon.call('HybridLoad', G.HybridLoad, rej, ext, eq, r, sim)
        objs = [h.rejection, h.extraction]
    for o, want, name in zip(objs, (w_rej, w_ext), ('rejection',
                                                    'extraction')):
        st = hyb.stats(want, days)
        mon.close('length', [len(o.monthly_total), len(o.monthly_peak)],
                  [13, 13])
        for m, (tot, pk, avg, day) in enumerate(st, start=1):
            mon.close('total', o.monthly_total[m], tot, rtol=1e-9, atol=1e-9,
                      what=name)
            mon.close('peak', o.monthly_peak[m], pk, rtol=1e-12, atol=0.,
                      what=name)
            mon.close('average', o.monthly_average[m], avg, rtol=1e-9,
                      atol=1e-12, what=name)
            mon.check('peak-day', o.monthly_peak_day[m] == day,
                      lambda: (name, m, o.monthly_peak_day[m], day))
    if not leap:
        df = mon.call('table', h.create_dataframe_of_peak_analysis)
        names = ['January', 'February', 'March', 'April', 'May', 'June',
                 'July', 'August', 'September', 'October', 'November',
                 'December']
        mon.check('table', list(df.index) == names, lambda: list(df.index))
        for side, o in (('rejection', h.rejection), ('extraction',
                                                     h.extraction)):
            for col, attr in (('Total', 'monthly_total'),
                              ('Peak', 'monthly_peak'),
                              ('Average', 'monthly_average'),
                              ('Peak Day', 'monthly_peak_day'),
                              ('Peak Duration', 'monthly_peak_duration')):
                mon.close('table', df[(col, side)].to_numpy(dtype=float),
                          np.asarray(getattr(o, attr)[1:], dtype=float),
                          rtol=1e-12, atol=1e-12, what=col)
    mon.seen(c['loads']['kind'], c['units'], leap, c.get('ints'))
    mon.note(c['loads']['kind'])
