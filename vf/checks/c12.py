"""Simulated fluid temperatures: against an independent convolution."""
import random

import numpy as np

from .. import gen, ghx
from ..target import dt

PROPERTY = 'C12'
RULE = ('Seeded boreholes (single, double, coaxial), fluids, fields of 1 to 25 '
        'boreholes, flow rates, load shapes and horizons; the ground heat '
        'exchanger is simulated at several heights in a row with the hybrid '
        'or the hourly time steps. Distinct by kind of borehole, field, load '
        'shape, method and number of g-function curves.')
ASSUMPTIONS = [
    'The reference takes the steps (hours and loads) from the simulated '
    'object; the profile of the steps is judged by C10 and C13.',
    'The short-time g-function of a fresh object is taken from the code '
    '(judged by C16), the long-time one from pygfunction directly.']
REQUIRED = {'temperatures': 40, 'wall': 40, 'maximum': 40, 'minimum': 40,
            'excess': 100, 'linear': 3, 'causal': 3, 'zero': 3,
            'superpose': 3, 'unchanged': 20}


def plan(rng, tier):
    n = 64 if tier == 'quick' else 1500
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        H0, H1 = round(r.uniform(35., 90.), 2), round(r.uniform(100., 260.), 2)
        many = r.random() < .6
        heights = [H0, (H0 + H1) / 2., H1] if many else \
            [round(r.uniform(H0, H1), 2)]
        hourly = i % 8 in (3, 7)
        s, e = gen.horizon(r, short=hourly)
        c = {'what': 'simulate', 'phys': gen.phys(r), 'coords': gen.field(r),
             'heights': heights,
             'loads': gen.load_spec(r), 'method': 'hourly' if hourly
             else 'hybrid',
             'sim': [s, e, round(r.uniform(20, 45), 1),
                     round(r.uniform(-5, 15), 1), H1, H0]}
        if r.random() < .25:
            # triple U-tubes
            c['phys'] = gen.phys(r, kinds=('triple',))
        c['H'] = [round(r.uniform(H0, H1), 3) for _ in range(2)] if many \
            else heights
        if many and r.random() < .5:
            c['H'][-1] = r.choice(heights)
        cases.append(c)
    for i in range(2 if tier == 'quick' else 8):
        # years of hours
        r = random.Random(rng.random())
        H, a = round(r.uniform(50., 200.), 2), r.randint(1, 12)
        cases.insert(0, {
            'what': 'simulate', 'phys': gen.phys(r), 'heights': [H],
            'coords': gen.field(r, 4), 'loads': gen.load_spec(r),
            'method': 'hourly', 'H': [H],
            'sim': [a, a + r.randint(25, 30), 35., 5., H, H]})
    for i in range(8 if tier == 'quick' else 60):
        r = random.Random(rng.random())
        H = round(r.uniform(50., 200.), 2)
        cases.append({'what': 'relations', 'phys': gen.phys(r, H=H),
                      'coords': gen.field(r, 9), 'heights': [H],
                      'loads': gen.load_spec(r), 'other': gen.load_spec(r),
                      'factor': round(r.uniform(-3., 3.), 3) or .5,
                      'cut': r.randint(24, 700),
                      'sim': [1, r.choice([1, 2]), 35., 5., H, H]})
    cases.append({'what': 'cost', 'phys': gen.phys(rng, ('single',)),
                  'coords': [[0., 0.]], 'heights': [100.],
                  'loads': gen.load_spec(rng, ['seasonal']),
                  'sim': [1, 12, 35., 5., 120., 60.],
                  'seed': rng.randrange(10 ** 6)})
    return cases


def judge(mon, c, ghe, R, q, method, got):
    mx, mn = got
    T = np.asarray(ghe.HPEFT, dtype=float)
    if method == 'hybrid':
        L = np.asarray(ghe.hybrid_load.load, dtype=float)
        h = np.asarray(ghe.hybrid_load.hour, dtype=float)
        loads, hours = L[2:] * 1000., h[2:] - h[1]
    else:
        s, e = c['sim'][:2]
        a, z = gen_hours(s, e)
        loads = -np.tile(np.asarray(q, dtype=float),
                         int(np.ceil(z / 8760.)))[a:z]
        hours = np.arange(1, z - a + 1)
    want, dTb = R.temperatures(loads, hours)
    size = ghx.scale(want, R.p['soil'][2])
    mon.close('temperatures', T, want, rtol=0., atol=1e-5 * size,
              what=method)
    mon.close('wall', np.asarray(ghe.dTb, dtype=float), dTb, rtol=0.,
              atol=1e-5 * size, what=method)
    mon.check('maximum', mx == T.max(), lambda: (mx, T.max()))
    mon.check('minimum', mn == T.min(), lambda: (mn, T.min()))
    mon.note(method)
    return T


def gen_hours(s, e):
    from .. import ref
    return ref.hours_before(s), ref.hours_before(e + 1)


def excess(sim, mx, mn):
    return max(mx - sim[2], sim[3] - mn)


def run(c, mon):
    if c['what'] == 'relations':
        return relations(c, mon)
    ghe, b, q = mon.call('GHE', ghx.build, c)
    if c['what'] == 'cost':
        r = random.Random(c['seed'])
        for _ in range(200):
            sim = ghe.sim_params
            sim.max_EFT_allowable = r.choice([35., r.uniform(20, 50)])
            sim.min_EFT_allowable = r.choice([5., r.uniform(-10, 19)])
            a = r.choice([sim.max_EFT_allowable, sim.min_EFT_allowable,
                          r.uniform(-30, 90)])
            z = r.choice([sim.max_EFT_allowable, sim.min_EFT_allowable,
                          r.uniform(-30, 90)])
            mx, mn = max(a, z), min(a, z)
            x = mon.call('cost', ghe.cost, mx, mn)
            mon.close('excess', x, max(mx - sim.max_EFT_allowable,
                                       sim.min_EFT_allowable - mn),
                      rtol=1e-12, atol=1e-12)
            ok = mx <= sim.max_EFT_allowable and mn >= sim.min_EFT_allowable
            mon.check('excess', (x <= 0.) == ok, (mx, mn, x))
        return
    before = (list(q), gen.tuples(c['coords']))
    g_rows = None
    for H in c['H']:
        ghe.bhe.b.H = H
        got = mon.call('simulate', ghe.simulate, method=c['method'])
        R = ghx.Reference(c, H, heights=c['heights'], g_rows=g_rows)
        g_rows = R.g_rows
        T = judge(mon, c, ghe, R, q, c['method'], got)
        mon.check('excess', abs(ghe.cost(*got) - excess(
            c['sim'], T.max(), T.min())) < 1e-9, 'cost')
        mon.check('unchanged', ghe.bhe.b.H == H, 'height')
    mon.check('unchanged', ghe.hourly_extraction_ground_loads == before[0] and
              list(q) == before[0], 'loads')
    mon.seen(c['phys']['kind'], c['coords'], c['loads']['kind'], c['method'],
             len(c['heights']), c['sim'][:2])
    mon.sample = {'T': [float(T.min()), float(T.max())], 'steps': int(T.size)}


def relations(c, mon):
    """Relations that hold whatever the response factors are."""
    b = gen.build(c['phys'])
    q1, q2 = np.array(gen.loads(c['loads'])), np.array(gen.loads(c['other']))
    Tg = c['phys']['soil'][2]

    def go(q):
        ghe, _, _ = mon.call('GHE', ghx.build, c,
                             loads=[float(x) for x in q])
        mon.call('simulate', ghe.simulate, method='hourly')
        return np.array(ghe.HPEFT, dtype=float) - Tg
    T1, T2 = go(q1), go(q2)
    tol = 3e-6 * (1. + np.abs(T1).max() + np.abs(T2).max())
    mon.close('linear', go(c['factor'] * q1), c['factor'] * T1, rtol=0.,
              atol=4 * tol)
    mon.close('superpose', go(q1 + q2), T1 + T2, rtol=0., atol=tol)
    k = c['cut']
    q3 = q1.copy()
    q3[k:] = q2[k:]
    mon.close('causal', go(q3)[:k], T1[:k], rtol=0., atol=tol)
    mon.close('zero', go(np.zeros(8760)), np.zeros(T1.size), rtol=0.,
              atol=1e-9)
    mon.seen('relations', c['loads']['kind'], c['other']['kind'])
