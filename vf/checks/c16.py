"""Short-time response factors, and their union with the long-time ones."""
import math
import random

import numpy as np

from .. import gen, ghx, ref
from ..target import dt, plat

PROPERTY = 'C16'
RULE = ('Seeded boreholes of all kinds; the short-time response factors are '
        'recomputed by an independent implicit radial model, for fresh objects '
        'and for objects used before; the union with the long-time ones is '
        'compared point by point. Distinct by kind, depth and sequence.')
ASSUMPTIONS = ['The layers, cells and the time step of 120 s are those '
               'documented for the radial model.']
REQUIRED = {'g': 40, 'times': 40, 'covers': 40, 'interpolant': 40,
            'union': 60, 'refreshed': 20}


def plan(rng, tier):
    n = 44 if tier == 'quick' else 1200
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        kinds = ('single', 'double', 'coaxial', 'triple')
        cases.append({'what': 'sts', 'phys': [
            gen.phys(r, H=round(r.choice([r.uniform(15, 60), r.uniform(
                60, 150), r.uniform(150, 400)]), 2)) for _ in range(2)],
            'hours': r.choice([None, None, 50., 60., 72.])})
    for i in range(n):
        r = random.Random(rng.random())
        cases.append({'what': 'union', 'seed': r.randrange(10 ** 9)})
    for i in range(n // 4):
        r = random.Random(rng.random())
        H = round(r.uniform(20., 300.), 2)
        cases.append({'what': 'ghe', 'phys': gen.phys(r, H=H),
                      'coords': gen.field(r, 9), 'heights': [H],
                      'loads': gen.load_spec(r, ['seasonal']),
                      'sim': [1, 12, 35., 5., H, H]})
    return cases


def judge(mon, p, eq, r, hours, label):
    H = p['H']
    ts = H ** 2 / (9. * p['soil'][0] / p['soil'][1])
    want = max(49. * 3600., ts * math.exp(-8.6)) if hours is None \
        else hours * 3600.
    lng, g = np.asarray(r.lntts, dtype=float), np.asarray(r.g, dtype=float)
    mon.demand('times', lng.shape == g.shape and lng.size > 100, lng.shape)
    n = g.size
    mon.close('times', np.exp(lng[1:]) * ts, 120. * np.arange(1, n),
              rtol=1e-6, atol=1e-6, what='seconds')
    mon.check('times', bool(np.all(np.diff(lng) > 0)), 'not increasing')
    mon.check('covers', want - 120.001 <= math.exp(lng[-1]) * ts <= want +
              120.001, lambda: (math.exp(lng[-1]) * ts, want))
    Rb = eq.compute_effective_borehole_resistance()
    f = eq.fluid
    gr = ref.radial(eq.r_in, eq.r_out, eq.b.r_b, p['pipe_rhoCp'],
                    p['grout'][1], f.rho * f.cp, f.cp, p['soil'][0],
                    p['soil'][1], eq.R_f, eq.R_p, Rb, n)
    mon.close('g', g, gr, rtol=1e-6, atol=1e-6, what=label)
    x = np.linspace(lng[1], lng[-1] - 1e-9, 37)
    mon.close('interpolant', r.g_sts(x), np.interp(x, lng, gr), rtol=1e-6,
              atol=1e-6, what=label)
    mon.close('scale', r.t_s, ts, rtol=1e-9)


def run(c, mon):
    RN = plat.radial_numerical_borehole.RadialNumericalBH
    if c['what'] == 'union':
        return union(c, mon)
    if c['what'] == 'ghe':
        ghe, b, q = mon.call('GHE', ghx.build, c)
        H = c['heights'][0]
        g = mon.call('grab', ghe.grab_g_function,
                     ghx.spacing(c['coords'], b.p['r_b']) / H)
        R = ghx.Reference(c, H)
        mon.close('union', g.x, R.lng, rtol=1e-9, atol=1e-9, what='ln t/ts')
        mon.close('union', g.y, R.g, rtol=1e-5, atol=1e-5, what='g')
        return
    r = None
    for i, p in enumerate(c['phys']):
        b = gen.build(p)
        bh = gen.bhe(b)
        eq = mon.call('equivalent', plat.equivalance.compute_equivalent, bh)
        fresh = mon.call('radial', RN, eq)
        k = {} if c['hours'] is None else {'final_time': c['hours'] * 3600.}
        out = mon.call('calc', fresh.calc_sts_g_functions, eq, **k)
        judge(mon, p, eq, fresh, c['hours'], 'fresh')
        mon.check('returned', np.array_equal(out[0], fresh.lntts) and
                  np.array_equal(out[1], fresh.g))
        mon.seen(p['kind'], p['H'])
        if r is not None:
            # an object that was used for another borehole
            mon.call('calc', r.calc_sts_g_functions, eq, **k)
            mon.check('refreshed', np.array_equal(r.g, fresh.g) and
                      np.array_equal(r.lntts, fresh.lntts),
                      'differs from a fresh object')
            # and once more
            mon.call('calc', r.calc_sts_g_functions, eq, **k)
            mon.check('refreshed', np.array_equal(r.g, fresh.g) and
                      np.array_equal(r.lntts, fresh.lntts), 'repeated')
            # a deeper borehole
            eq.b.H = 1.7 * p['H']
            mon.call('calc', r.calc_sts_g_functions, eq)
            judge(mon, dict(p, H=1.7 * p['H']), eq, r, None, 'deeper')
            eq.b.H = p['H']
        r = fresh


def union(c, mon):
    r = random.Random(c['seed'])
    f = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts
    for _ in range(6):
        n1 = r.randint(3, 60)
        lts = sorted({round(r.uniform(-8.5, 3.), 4) for _ in range(
            r.randint(2, 40))})
        a = r.uniform(-40., -12.)
        z = lts[0] + r.choice([-.5, -.01, .01, .3, 2.])
        sts = sorted({round(r.uniform(a, z), 5) + 1e-6 for _ in range(n1)})
        y1 = [r.uniform(-5, 5) for _ in sts]
        y2 = [r.uniform(0, 50) for _ in lts]
        keep = (list(lts), list(y2), list(sts), list(y1))
        g = mon.call('combine', f, lts, y2, sts, y1)
        mon.check('inputs', (lts, y2, sts, y1) == keep, 'inputs changed')
        x, y = ref.combine(lts, y2, sts, y1)
        mon.close('union', g.x, x, rtol=1e-12, atol=1e-12)
        mon.close('union', g.y, y, rtol=1e-12, atol=1e-12)
        t = [r.uniform(x[0], x[-1]) for _ in range(30)]
        mon.close('between', g(t), np.interp(t, x, y), rtol=1e-9, atol=1e-9)
    mon.seen('union', c['seed'] % 50)
