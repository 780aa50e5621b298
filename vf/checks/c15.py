"""Interpolation over the depth, radius correction and stored g-functions."""
import copy
import random
import warnings

import numpy as np
from scipy.interpolate import interp1d

from .. import ref
from ..target import dt

PROPERTY = 'C15'
RULE = ('Seeded families of 1 to 7 curves over depths, radii and burial '
        'depths; sequences of requests inside, at and outside of the range '
        'with different kinds of interpolation in random order; stored '
        'dictionaries in random order. Distinct by number of curves, kind, '
        'position and previous request.')
ASSUMPTIONS = ['Default: linear for 2 curves, quadratic for 3 and 4, cubic '
               'from 5 on; a single curve serves its own height only.']
REQUIRED = {'curve': 800, 'radius': 800, 'history': 800, 'at-node': 100,
            'single': 50, 'refused': 40, 'correction': 100, 'stored': 100,
            'scaled': 60, 'warned': 100, 'in-range': 100}
CHUNK = 10
GF = dt.gfunction.GFunction
LOG = ref.LOG_TIMES


def plan(rng, tier):
    n = 5000 if tier == 'quick' else 8000
    return [{'seed': rng.randrange(10 ** 9), 'what': (
        'interpolate', 'interpolate', 'correct', 'stored', 'scale',
        'single')[i % 6]} for i in range(n)]


def family(r, n):
    hs = sorted({round(r.uniform(20., 400.), 2) for _ in range(n)})
    while len(hs) < n or min(np.diff(hs), default=9.) < 2.:
        hs = sorted({round(r.uniform(20., 400.), 2) for _ in range(n)})
    g, rb, D = {}, {}, {}
    order = list(hs)
    if r.random() < .3:
        r.shuffle(order)
    r0 = r.uniform(.05, .1)
    for h in order:
        g[h] = [float(x) for x in np.cumsum([r.uniform(0., 2.) for _ in LOG])]
        rb[h] = r0 if r.random() < .5 else round(r.uniform(.05, .1), 4)
        D[h] = round(r.uniform(1., 5.), 2)
    return hs, g, rb, D


def run(c, mon):
    globals()['do_' + c['what']](random.Random(c['seed']), mon)


def expected(hs, rows, kind, H):
    y = np.array([rows[h] for h in hs])
    if kind == 'linear':
        i = int(np.clip(np.searchsorted(hs, H) - 1, 0, len(hs) - 2))
        w = (H - hs[i]) / (hs[i + 1] - hs[i])
        return y[i] + w * (y[i + 1] - y[i])
    if kind == 'lagrange' or len(hs) == {'quadratic': 3, 'cubic': 4}[kind]:
        return ref.polynomial(hs, list(y), H)
    return interp1d(hs, y, kind=kind, axis=0, fill_value='extrapolate')(H)


def do_interpolate(r, mon):
    n = r.choice([2, 3, 3, 3, 4, 5, 6, 7, r.randint(8, 14)])
    hs, g, rb, D = family(r, n)
    B = round(r.uniform(2., 10.), 3)
    keep = copy.deepcopy((g, rb, D))
    o = GF(B, rb, D, g, list(LOG), [(0., 0.), (B, 0.)])
    last = None
    for _ in range(r.randint(3, 8)):
        where = r.choice(['in', 'in', 'node', 'above', 'below', 'near'])
        H = {'in': lambda: r.uniform(hs[0], hs[-1]),
             'node': lambda: r.choice(hs),
             'above': lambda: hs[-1] * r.uniform(1.001, 1.3),
             'below': lambda: hs[0] * r.uniform(.7, .999),
             'near': lambda: r.choice([hs[0], hs[-1]]) +
             r.choice([-1e-7, 1e-7, -3e-4, 3e-4, 5e-13])}[where]()
        kind = r.choice(['default', 'default', 'default', 'linear',
                         'quadratic', 'cubic'])
        real = kind
        if kind == 'default':
            real = 'cubic' if n >= 5 else 'quadratic' if n >= 3 else 'linear'
        need = {'linear': 2, 'quadratic': 3, 'cubic': 4}[real]
        if need > n:
            real = {2: 'linear', 3: 'quadratic'}[n]
        args = (B / H,) if kind == 'default' and r.random() < .7 \
            else (B / H, kind)
        with warnings.catch_warnings(record=True) as said:
            warnings.simplefilter('always')
            got, rb_v, D_v, H_eq = mon.call(
                'interpolation', o.g_function_interpolation, *args)
        said = [w for w in said if 'xtrapol' in str(w.message)]
        far = H < hs[0] - .01 or H > hs[-1] + .01
        if far:
            mon.check('warned', len(said) > 0, 'extrapolates silently')
        elif hs[0] <= H <= hs[-1]:
            mon.check('in-range', not said, 'warns in the range')
        fresh = GF(B, dict(rb), dict(D), {k: list(v) for k, v in g.items()},
                   list(LOG), [(0., 0.), (B, 0.)])
        f_got, f_rb, f_D, f_H = fresh.g_function_interpolation(*args)
        mon.close('history', list(got) + [rb_v, D_v, H_eq],
                  list(f_got) + [f_rb, f_D, f_H], rtol=1e-12, atol=1e-12,
                  what='{} after {}'.format((where, kind), last))
        size = max(abs(x) for row in g.values() for x in row)
        tol = dict(rtol=1e-8, atol=1e-8 * size * (30 if far else 1) +
                   (2e-3 * size if where == 'near' else 0.))
        mon.close('curve', got, expected(hs, g, real, H),
                  what='{} {} {}'.format(n, real, where), **tol)
        mon.close('radius', [rb_v, D_v], [
            expected(hs, rb, real, H), expected(hs, D, real, H)],
            what='{} {} {}'.format(n, real, where), rtol=1e-8,
            atol=1e-8 if where != 'near' else 1e-2)
        mon.close('depth', H_eq, H, rtol=1e-9,
                  atol=1.1e-3 if where == 'near' else 1e-9)
        if where == 'node':
            mon.close('at-node', got, g[H], rtol=1e-9, atol=1e-9)
        mon.seen(n, real, where, last)
        last = (where, kind)
        mon.check('kept', (g, rb, D) == keep, 'the curves were changed')


def do_single(r, mon):
    hs, g, rb, D = family(r, 1)
    B = round(r.uniform(2., 10.), 3)
    H = hs[0]
    o = GF(B, rb, D, g, list(LOG), [(0., 0.), (B, 0.)])
    for _ in range(4):
        f = r.choice([1., 1. + r.uniform(-5e-4, 5e-4)])
        got, rb_v, D_v, H_eq = mon.call(
            'interpolation', o.g_function_interpolation, B / (H * f))
        mon.close('single', list(got) + [rb_v, D_v], g[H] + [rb[H], D[H]],
                  rtol=1e-12, atol=0.)
        f = r.choice([r.uniform(.3, .997), r.uniform(1.003, 3.),
                      r.uniform(.99, .997), r.uniform(1.003, 1.01)])
        mon.raises('refused', ValueError, o.g_function_interpolation,
                   B / (H * f))
        mon.raises('refused', ValueError, o.g_function_interpolation,
                   B / (H * f), r.choice(['linear', 'cubic']))
    mon.seen('single', round(H, -1))


def do_correct(r, mon):
    for _ in range(6):
        g = [r.uniform(-3, 60) for _ in range(r.randint(1, 40))]
        a, b = r.uniform(.03, .2), r.uniform(.03, .2)
        keep = list(g)
        got = mon.call('correct', GF.borehole_radius_correction, g, a, b)
        mon.close('correction', got, np.array(keep) - np.log(b / a),
                  rtol=1e-12, atol=1e-12)
        mon.check('kept', g == keep, 'the curve was changed')
        back = GF.borehole_radius_correction(list(got), b, a)
        mon.close('inverse', back, keep, rtol=1e-12, atol=1e-12)
        same = GF.borehole_radius_correction(g, a, a)
        mon.close('inverse', same, keep, rtol=1e-12, atol=1e-12)


def do_stored(r, mon):
    n = r.randint(1, 7)
    hs, g, rb, D = family(r, n)
    if r.random() < .4:
        # close together, in the file in another order
        h = hs[0]
        hs, g2 = [h, h + .3, h + .6][:r.randint(2, 3)], {}
        rows = list(g.values())
        for i, x in enumerate(hs):
            g2[x] = [v + i for v in rows[0]]
        g = g2
        rb = {x: round(r.uniform(.05, .1), 4) for x in hs}
        D = {x: round(r.uniform(1., 5.), 2) for x in hs}
    B = round(r.uniform(2., 10.), 3)
    with_D = r.random() < .6
    order = list(hs)
    r.shuffle(order)
    d = {'logtime': list(LOG), 'bore_locations': [[0., 0.], [0., B]],
         'g': {}}
    for h in order:
        k = '{}_{}_{}'.format(B, h, rb[h])
        if with_D:
            k += '_{}'.format(D[h])
        d['g'][k] = list(g[h])
    keep = copy.deepcopy(d)
    out = mon.call('read', GF.configure_database_file_for_usage, d)
    mon.check('kept', d == keep, 'the dictionary was changed')
    o = mon.call('construct', lambda: GF(**out))
    mon.check('stored', o.B == B and list(o.log_time) == list(LOG) and
              o.bore_locations == keep['bore_locations'], 'fields')
    mon.check('stored', o.g_lts == g, lambda: sorted(o.g_lts))
    mon.check('stored', o.r_b_values == rb, lambda: o.r_b_values)
    mon.check('stored', o.D_values == (D if with_D else {h: 2. for h in hs}),
              lambda: o.D_values)
    mon.seen('stored', len(hs), with_D)


def do_scale(r, mon):
    B, B2 = round(r.uniform(2., 10.), 3), round(r.uniform(2., 12.), 3)
    pts = [(0., 0.)] + [(r.choice([0., r.uniform(-40, 40)]),
                         r.choice([0., r.uniform(-40, 40)]))
                        for _ in range(r.randint(1, 30))]
    o = GF(B, {100.: .075}, {100.: 2.}, {100.: [1.] * 27}, list(LOG), pts)
    got = mon.call('scale', o.correct_coordinates, B2)
    mon.close('scaled', np.array(got, dtype=float),
              np.array(pts) * (B2 / B), rtol=1e-12, atol=1e-12)
    mon.check('scaled', o.bore_locations == pts and o.B == B, 'kept')
