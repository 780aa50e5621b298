"""Long-time g-functions against pygfunction and an integral."""
import random

import numpy as np
from scipy.integrate import quad
from scipy.special import erf

from .. import gen, ghx, ref
from ..target import dt

PROPERTY = 'C14'
RULE = ('Seeded fields of 1 to 832 boreholes, boreholes of all kinds, depths '
        'and flow rates; default settings (uniform inlet temperature, eight '
        'unequal segments, equivalent boreholes) and the optional ones. '
        'Distinct by field, kind, depth and options.')
ASSUMPTIONS = ['pygfunction 2.3 is trusted for the default boundary '
               'condition; for uniform heat extraction the reference is an '
               'own integral of the finite line source.']
REQUIRED = {'curve': 60, 'keys': 30, 'options': 20, 'tilted': 4, 'integral': 8,
            'moved': 10, 'kept': 40, 'refused': 6, 'increasing': 60, 'live-options': 30,
            'search': 20}


def plan(rng, tier):
    n = 150 if tier == 'quick' else 1200
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        hs = sorted(round(r.uniform(20., r.choice([300.] * 9 + [700.])), 2)
                    for _ in range(r.choice([1, 1, 2, 3, 4])))
        if r.random() < .3:
            r.shuffle(hs)
        cases.append({'what': 'live', 'heights': hs,
                      'phys': gen.phys(r, ('single', 'double', 'coaxial',
                                           'triple')),
                      'r_b': round(r.uniform(1., 1.3), 3),
                      'coords': gen.field(r), 'rb_each': r.random() < .4,
                      'times': r.choice([27, 27, 5, 12])})
    for i in range(n):
        r = random.Random(rng.random())
        cases.append({'what': 'options', 'phys': gen.phys(r),
                      'H': round(r.uniform(20., 300.), 2),
                      'coords': gen.field(r, r.choice([9, 25])),
                      'boundary': ['MIFT', 'UHTR', 'UBWT'][i % 3],
                      'segments': r.choice(['equal', 'unequal', 'Unequal']),
                      'n': r.choice([1, 4, 8, 8, 12]),
                      'solver': r.choice(['equivalent', 'similarities']),
                      'end': r.choice([.02, .05]),
                      'given': r.random() < .2,
                      'tilt': r.choice([0., 0., 0., .15, .3]),
                      'orientation': r.choice([0., 1., 2.5])})
    for i in range(n // 3):
        r = random.Random(rng.random())
        cases.append({'what': 'moved', 'phys': gen.phys(r),
                      'coords': gen.field(r, 12),
                      'H': round(r.uniform(30., 250.), 2),
                      'by': [round(r.uniform(-50, 50), 2) for _ in range(2)],
                      'seed': r.randrange(10 ** 6)})
    for i in range(n // 6):
        r = random.Random(rng.random())
        nx, ny = r.choice([(14, 20), (20, 26), (26, 32)])
        nx, ny = r.randint(8, nx), r.randint(8, ny)
        cases.append({'what': 'live', 'heights': [round(r.uniform(
            40., 250.), 2)], 'phys': gen.phys(r, ('single', 'double',
                                                  'coaxial')),
            'r_b': 1., 'coords': rect(nx, ny, round(r.uniform(3., 9.), 2),
                                      round(r.uniform(3., 9.), 2)),
            'rb_each': False, 'times': 27})
    for i in range(n // 8):
        r = random.Random(rng.random())
        nx, ny = r.randint(3, 7), r.randint(4, 8)
        if i % 6 == 0:
            nx, ny = r.randint(8, 14), r.randint(8, 14)
        cases.append({'what': 'search', 'phys': gen.phys(r), 'grid': [
            nx, ny, round(r.uniform(3., 9.), 2), round(r.uniform(3., 9.), 2)],
            'H': round(r.uniform(40., 250.), 2), 'first': gen.field(r, 9),
            'flow': r.choice(['borehole', 'system'])})
    cases += [{'what': 'bad', 'k': k, 'phys': gen.phys(rng, ('single',))}
              for k in range(6)]
    return cases


def line_source(H, D, alpha, coords, r_b, t):
    """Average response of the field to uniform heat extraction."""
    def ierf(x):
        return x * erf(x) - (1. - np.exp(-x * x)) / np.sqrt(np.pi)

    def h(d):
        def f(s):
            I = 2 * ierf(H * s) + 2 * ierf((H + 2 * D) * s) - \
                ierf((2 * H + 2 * D) * s) - ierf(2 * D * s)
            return np.exp(-d * d * s * s) / (H * s * s) * I
        lo = 1. / np.sqrt(4 * alpha * t)
        return .5 * quad(f, lo, max(20. / d, 50 * lo), limit=400,
                         points=sorted([lo * 3, lo * 10, 1. / d]) if
                         1. / d > lo else None)[0]
    n = len(coords)
    tot, memo = 0., {}
    for i in range(n):
        for j in range(n):
            d = r_b if i == j else round(float(np.hypot(
                coords[i][0] - coords[j][0], coords[i][1] - coords[j][1])), 9)
            if d not in memo:
                memo[d] = h(d)
            tot += memo[d]
    return tot / n


def run(c, mon):
    globals()['do_' + c['what']](c, mon)


def do_live(c, mon):
    p = c['phys']
    b = gen.build(p)
    hs = c['heights']
    r_b = [p['r_b'] * (c['r_b'] if c['rb_each'] and i % 2 else 1.)
           for i in range(len(hs))]
    D = [p['D'] + (i if c['rb_each'] else 0.) for i in range(len(hs))]
    coords = gen.tuples(c['coords'])
    log = list(ref.LOG_TIMES[:c['times']])
    B = ghx.spacing(coords, p['r_b'])
    keep = (list(coords), list(log), list(hs), list(r_b), list(D))
    g = mon.call('g-function', dt.gfunction.compute_live_g_function, B, hs,
                 r_b, D, b.m_flow, b.cls, log, coords, b.fluid, b.pipe,
                 b.grout, b.soil)
    mon.check('kept', (coords, log, hs, r_b, D) == keep, 'inputs changed')
    mon.check('keys', set(g.g_lts) == set(hs) and g.r_b_values ==
              dict(zip(hs, r_b)) and g.D_values == dict(zip(hs, D)),
              lambda: (g.g_lts.keys(), g.r_b_values, g.D_values))
    mon.check('keys', abs(g.B - B) < 1e-9 and list(g.log_time) == log and
              gen.tuples(g.bore_locations) == keep[0], 'fields')
    for h, r_, d in zip(hs, r_b, D):
        q = {k: v for k, v in p.items() if k != 'config'}
        want = ref.lts(dict(q, r_b=r_), b.fluid, c['coords'], h, b.m_flow,
                       D=d, r_b=r_, log_time=log)
        mon.close('curve', g.g_lts[h], want, rtol=1e-5, atol=1e-5,
                  what=p['kind'])
        mon.check('increasing', bool(np.all(np.diff(g.g_lts[h]) > 0.)))
    mon.seen(p['kind'], c['coords'], hs)


def do_options(c, mon):
    p = c['phys']
    b = gen.build(p)
    H = c['H']
    # the equivalent boreholes are vertical ones
    tilt = 0. if c['solver'] == 'equivalent' else c['tilt']
    coords = c['coords'][:4] if tilt else c['coords']
    bore = dt.gfunction.gt.boreholes.Borehole(
        H, p['D'], p['r_b'], 3., 4., tilt, c['orientation'])
    alpha = p['soil'][0] / p['soil'][1]
    t = np.exp(np.array(ref.LOG_TIMES[::4])) * H ** 2 / (9 * alpha)
    kw = dict(nSegments=c['n'], segments=c['segments'], solver=c['solver'],
              boundary=c['boundary'])
    if c['segments'].lower() == 'unequal':
        kw['end_length_ratio'] = c['end']
        if c['given']:
            w = np.arange(c['n'], 2. * c['n'])
            kw['segment_ratios'] = w / w.sum()
    f = mon.call('g-function', dt.gfunction.calculate_g_function, b.m_flow,
                 b.cls, t, gen.tuples(coords), bore, b.fluid, b.pipe,
                 b.grout, b.soil, **kw)
    q = {k: v for k, v in p.items() if k != 'config'}
    want = ref.lts(q, b.fluid, coords, H, b.m_flow,
                   tilt=tilt, orientation=c['orientation'],
                   log_time=ref.LOG_TIMES[::4], boundary=c['boundary'],
                   solver=c['solver'], n_segments=c['n'],
                   ratios=kw.get('segment_ratios', c['segments'].lower()), end=c['end'])
    got = np.asarray(f.gFunc, dtype=float)
    mon.close('tilted' if tilt else 'options', got, want, rtol=1e-5, atol=1e-5,
              what='{} {} {}'.format(c['boundary'], c['segments'], c['n']))
    if not tilt and c['segments'].lower() + str(c['end']) in (
            'equal0.02', 'equal0.05', 'unequal0.02') or c['given']:
        # the same options asked of the table of response factors
        kw.pop('end_length_ratio', None)
        hs = [H, round(H * 1.1, 2)]
        o = mon.call('live options', dt.gfunction.compute_live_g_function,
                     ghx.spacing(coords, p['r_b']), hs, [p['r_b']] * 2,
                     [p['D']] * 2, b.m_flow, b.cls, list(ref.LOG_TIMES[::4]),
                     gen.tuples(coords), b.fluid, b.pipe, b.grout, b.soil,
                     **kw)
        if not tilt:
            mon.close('live-options', o.g_lts[H], want, rtol=1e-5, atol=1e-5,
                      what='{} {} {} {}'.format(c['boundary'], c['segments'],
                                                c['n'], c['solver']))
    mon.check('kept', bore.H == H and bore.x == 3. and bore.y == 4. and
              bore.tilt == tilt)
    mon.seen(c['boundary'], c['segments'], c['n'], c['solver'], c['coords'])
    if c['boundary'] == 'UHTR' and len(coords) <= 6 and not tilt:
        k = [2, 5]
        mon.close('integral', got[k], [line_source(
            H, p['D'], alpha, coords, p['r_b'], t[i]) for i in k],
            rtol=3e-3, atol=3e-3)
        mon.note('integral')


def do_search(c, mon):
    """The response factors of the fields a search looks at, whatever it has
    looked at before, and those of the sizing that follows."""
    p = c['phys']
    b = gen.build(p)
    large = rect(*c['grid'])
    small = gen.tuples(c['first'])
    V = p['V'] * (len(large) if c['flow'] == 'system' else 1)
    S = mon.call('Bisection1D', dt.search_routines.Bisection1D,
                 [small, large], V, b.borehole, b.cls, b.fluid, b.pipe,
                 b.grout, b.soil, gen.sim(1, 12, 35., 5., c['H'] * 1.2,
                                          c['H'] * .8),
                 [100.] * 8760, flow=c['flow'], search=False)
    q = {k: v for k, v in p.items() if k != 'config'}
    for coords, n in ((large, 1), (small, 2)):
        if c['flow'] == 'system':
            m_flow = V / len(coords) / 1000. * b.fluid.rho
            if coords is small:
                break
        else:
            m_flow = V / 1000. * b.fluid.rho
        mon.call('initialize_ghe', S.initialize_ghe, coords, c['H'])
        g = S.ghe.GFunction
        mon.check('search/heights', list(g.g_lts) == [c['H']] and
                  gen.tuples(g.bore_locations) == coords,
                  lambda: (list(g.g_lts), g.bore_locations))
        mon.close('search', g.g_lts[c['H']],
                  ref.lts(q, b.fluid, coords, c['H'], m_flow),
                  rtol=1e-5, atol=1e-5, what='{} boreholes'.format(len(coords)))
        mon.seen('search', len(coords), c['H'])
        if n == 1:
            mon.call('compute_g_functions', S.ghe.compute_g_functions)
            g = S.ghe.GFunction
            for h in (c['H'] * .8, c['H'] * 1.2):
                k = [x for x in g.g_lts if abs(x - h) < 1e-9]
                if mon.check('search/heights', len(k) == 1, lambda: (
                        h, list(g.g_lts))):
                    mon.close('search', g.g_lts[k[0]], ref.lts(
                        q, b.fluid, coords, h, m_flow), rtol=1e-5, atol=1e-5,
                        what='sizing of {} boreholes'.format(len(coords)))


def rect(nx, ny, bx, by):
    return [(i * bx, j * by) for i in range(nx) for j in range(ny)]


def do_moved(c, mon):
    """The g-function does not depend on where the field lies, on its
    orientation or on the order of the boreholes."""
    p = c['phys']
    b = gen.build(p)
    H = c['H']
    r = random.Random(c['seed'])

    def g(coords):
        o = mon.call('g-function', dt.gfunction.compute_live_g_function, 5.,
                     [H], [p['r_b']], [p['D']], b.m_flow, b.cls,
                     list(ref.LOG_TIMES), coords, b.fluid, b.pipe, b.grout,
                     b.soil)
        return np.array(o.g_lts[H])
    base = g(gen.tuples(c['coords']))
    other = [(y + c['by'][0], c['by'][1] - x) for x, y in c['coords']]
    r.shuffle(other)
    mon.close('moved', g(other), base, rtol=2e-2, atol=2e-2)
    if len(base) > 1 and len(c['coords']) > 1:
        # a field that is spread out interacts less
        far = [(2. * x, 2. * y) for x, y in c['coords']]
        w = g(far)
        mon.check('interaction', bool(np.all(w <= base + 1e-3)) and
                  w[-1] < base[-1], lambda: (w[-1], base[-1]))
    mon.seen('moved', c['coords'])


def do_bad(c, mon):
    b = gen.build(c['phys'])
    k = c['k']
    bore = b.borehole
    kw = [dict(boundary='XXXX'), dict(segments='some'), dict(solver='none'),
          dict(boundary='mift'), dict(segments=''), dict(boundary='')][k]
    t = np.array([1e6, 1e7, 1e9])
    mon.raises('refused', (ValueError, KeyError, TypeError, AttributeError,
                           UnboundLocalError, AssertionError),
               dt.gfunction.calculate_g_function, b.m_flow, b.cls, t,
               [(0., 0.), (5., 0.)], bore, b.fluid, b.pipe, b.grout, b.soil,
               **kw)
