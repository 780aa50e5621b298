"""Sizing: the height found, judged by a fresh, independent simulation."""
import random
import warnings

import numpy as np

from .. import gen, ghx, ref

PROPERTY = 'C04'
RULE = ('Seeded ground heat exchangers; the temperature limits are placed so '
        'that the height is found inside the range, at the minimum or at the '
        'maximum, for the upper or the lower limit, by the hybrid or the '
        'hourly simulation, once or repeatedly. Distinct by regime, limit, '
        'method, kind of borehole, field and load shape.')
ASSUMPTIONS = ['The excess at the height found is evaluated by the reference '
               'convolution with g-functions computed by pygfunction at the '
               'three heights and interpolated by a parabola.']
REQUIRED = {'root': 15, 'at-min': 4, 'at-max': 4, 'bounds': 30, 'stored': 30,
            'curves': 20, 'warned': 8, 'quiet': 10,
            'excess': 900}


def plan(rng, tier):
    n = 60 if tier == 'quick' else 900
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        lo = round(r.uniform(30., 90.), 1)
        hi = round(r.uniform(lo + 15., 260.), 1)
        hourly = i % 10 == 9
        s, e = gen.horizon(r, short=hourly)
        if hourly:
            e = min(e, s + 1)
        cases.append({
            'phys': gen.phys(r, H=round(r.uniform(lo, hi), 2)),
            'coords': gen.field(r, 16),
            'loads': gen.load_spec(r, [k for k in gen.LOAD_KINDS
                                       if k not in ('zero', 'small',
                                                    'sparse')]),
            'method': 'hourly' if hourly else 'hybrid',
            'regime': ['inside', 'inside', 'min', 'inside', 'max'][i % 5],
            'limit': r.choice(['both', 'upper', 'lower']),
            'target': round(r.uniform(.03, .97), 4),
            'twice': r.random() < .3,
            'sim': [s, e, 1e3, -1e3, hi, lo]})
    return cases


def run(c, mon):
    s, e, _, _, hi, lo = c['sim']
    c = dict(c, heights=[c['phys']['H']])
    ghe, b, q = mon.call('GHE', ghx.build, c)
    mon.call('compute_g_functions', ghe.compute_g_functions)
    hs = [lo, (lo + hi) / 2., hi]
    g = ghe.GFunction
    mon.demand('curves', sorted(g.g_lts) == sorted(hs) and
               [tuple(x) for x in g.bore_locations] ==
               gen.tuples(c['coords']), lambda: list(g.g_lts))
    R0 = ghx.Reference(c, hi, heights=hs)
    for h, row in zip(hs, R0.g_rows):
        mon.close('curves', g.g_lts[h], row, rtol=1e-5, atol=1e-5)

    # the steps are taken from the simulated object (judged by C10, C13)
    if c['method'] == 'hybrid':
        L, hh = ghe.hybrid_load.load, ghe.hybrid_load.hour
        Q, t = np.array(L[2:]) * 1000., np.array(hh[2:]) - hh[1]
    else:
        a, z = ref.hours_before(s), ref.hours_before(e + 1)
        Q = -np.tile(np.asarray(q), int(np.ceil(z / 8760.)))[a:z]
        t = np.arange(1, z - a + 1)

    def fresh(H):
        R = ghx.Reference(c, H, heights=hs, g_rows=R0.g_rows)
        return R.temperatures(Q, t)[0]
    Tg = c['phys']['soil'][2]
    T_lo, T_hi = fresh(lo), R0.temperatures(Q, t)[0]
    H_t = lo + c['target'] * (hi - lo)
    regime = c['regime']
    T = {'inside': lambda: fresh(H_t), 'min': lambda: T_lo,
         'max': lambda: T_hi}[regime]()
    size = ghx.scale(T, Tg)
    off = {'inside': 0., 'min': .05 * size, 'max': -.02 * size}[regime]
    limit = c['limit']
    if limit == 'upper' and T.max() <= Tg + .01 * size:
        limit = 'lower'
    if limit == 'lower' and T.min() >= Tg - .01 * size:
        limit = 'upper'
    # with `both`, the other limit is satisfied with a margin of its own
    up = T.max() + off if limit != 'lower' else T.max() + 10 * size
    low = T.min() - off if limit != 'upper' else T.min() - 10 * size
    if limit == 'both' and regime == 'inside':
        if T.max() - Tg > Tg - T.min():
            low -= .2 * size
        else:
            up += .2 * size
    ghe.sim_params.max_EFT_allowable = float(up)
    ghe.sim_params.min_EFT_allowable = float(low)

    def exc(T):
        return max(float(T.max()) - up, low - float(T.min()))

    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter('always')
        mon.call('size', ghe.size, method=c['method'])
        if c['twice']:
            H1 = ghe.bhe.b.H
            del seen[:]
            mon.call('size', ghe.size, method=c['method'])
            mon.close('repeat', ghe.bhe.b.H, H1, rtol=2e-5)
    # the excess of any pair of temperatures is the worse of the two
    r = random.Random(repr(c['target']))
    for _ in range(30):
        a = up + r.choice([-1, 1]) * r.choice([0., .1, 3., 40., 1e3]) * \
            r.random()
        z = low + r.choice([-1, 1]) * r.choice([0., .1, 3., 40., 1e3]) * \
            r.random()
        mon.close('excess', mon.call('cost', ghe.cost, a, z),
                  max(a - up, low - z), rtol=1e-9, atol=1e-9 * size)
    said = [str(w.message) for w in seen if w.category is UserWarning and
            'xtrapolation' not in str(w.message)]
    H = float(ghe.bhe.b.H)
    mon.check('bounds', lo <= H <= hi, lambda: (lo, H, hi))
    T = fresh(H)
    x, x_lo, x_hi = exc(T), exc(T_lo), exc(T_hi)
    mon.close('stored', np.asarray(ghe.HPEFT, dtype=float), T, rtol=0.,
              atol=1e-5 * size, what='temperatures stored')
    mon.close('stored-wall', len(ghe.dTb), T.size)
    tiny = 3e-6 * size
    if lo < H < hi:
        h = 2e-4 * H
        slope = abs(exc(fresh(H + h)) - exc(fresh(H - h))) / (2 * h)
        d = 3e-6 + 3e-6 * H
        ok = abs(x) <= slope * d + 3e-6 * size
        if not ok and exc(fresh(H - d)) * exc(fresh(H + d)) <= 0.:
            # the temperatures jump across the limit (where the joint of the
            # short-time and the long-time response passes a peak)
            mon.note('jump at the depth')
            ok = True
        mon.check('root', ok, lambda: (H, x, slope))
        mon.check('quiet', not said, said)
    elif H == lo:
        # the shallowest height allowed suffices
        mon.check('at-min', x <= tiny and not (x_hi > tiny and x_lo < -tiny),
                  lambda: (x_lo, x_hi))
        mon.check('warned', len(said) > 0, 'at the minimum')
    else:
        mon.check('at-max', x >= -tiny and x_lo >= -tiny,
                  lambda: (x_lo, x_hi))
        mon.check('warned', len(said) > 0, 'at the maximum')
    if regime == 'inside' and x_lo > tiny and x_hi < -tiny:
        mon.check('interior', lo < H < hi, lambda: (H, x_lo, x_hi))
    if x_lo < -tiny and x_hi < -tiny:
        mon.check('at-min', H == lo, lambda: (H, x_lo, x_hi))
    if x_lo > tiny and x_hi > tiny:
        mon.check('at-max', H == hi, lambda: (H, x_lo, x_hi))
    mon.note('{} {} {}'.format(regime, limit, c['method']))
    mon.seen(regime, limit, c['method'], c['phys']['kind'], c['coords'],
             c['loads']['kind'])
    mon.sample = {'H': H, 'excess': x, 'excess at the bounds': [x_lo, x_hi]}
