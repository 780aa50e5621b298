"""Calendar, roots, geometry and statistics the design is built on."""
import math
import random

import numpy as np

from .. import ref
from ..target import dt, plat

PROPERTY = 'C25'
RULE = ('Seeded months, functions with a known root inside, at or outside of '
        'the bounds, polygons with a known area, series with a known mean '
        'error, and axes. Distinct by kind and the structure of the input.')
ASSUMPTIONS = ['All years have 365 days.',
               'The functions whose root is searched are monotonic.',
               'Properties lie in the first quadrant.',
               'The sign of the mean percentage error is that of the code: '
               'positive where the prediction is too high (the formula in its '
               'documentation has the opposite sign).']
REQUIRED = {'calendar': 2000, 'calendar/name': 20, 'root': 300, 'root/bound': 60,
            'root/outside': 100, 'root/effort': 300, 'area': 200, 'box': 100,
            'scale': 50, 'bracket': 200, 'sign': 200, 'mpe': 100,
            'perimeter': 50, 'ticks': 30}
CHUNK = 10
GL = plat.ground_loads
U = dt.utilities


def plan(rng, tier):
    n = 40 if tier == 'quick' else 200
    kinds = ['calendar'] * 10 + ['root'] * 160 + ['polygon'] * 60 + \
        ['series'] * 40 + ['signs'] * 20 + ['ticks'] * 10
    return [{'what': k, 'seed': rng.randrange(10 ** 9)} for k in kinds * n]


def run(c, m):
    globals()[c['what']](random.Random(c['seed']), m)


NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
         'August', 'September', 'October', 'November', 'December']


def calendar(r, m):
    for _ in range(120):
        k = r.choice([r.randint(1, 13), r.randint(1, 48), r.randint(1, 700),
                      r.randint(700, 2400),
                      12 * r.randint(1, 50), 12 * r.randint(1, 50) + 1])
        hours = ref.month_hours(k)
        before = ref.hours_before(k)
        m.check('calendar', GL.monthdays(k) * 24 == hours,
                lambda: 'month {} has {} days'.format(k, GL.monthdays(k)))
        m.check('calendar', GL.firstmonthhour(k) == before + 1,
                lambda: 'month {} starts in hour {}, not {}'.format(
                    k, GL.firstmonthhour(k), before + 1))
        m.check('calendar', GL.lastmonthhour(k) == before + hours,
                lambda: 'month {} ends in hour {}, not {}'.format(
                    k, GL.lastmonthhour(k), before + hours))
        m.seen('month', k)
    for i, name in enumerate(NAMES, 1):
        m.check('calendar/name', GL.number_to_month(i) == name and
                GL.monthindex(name) == i, lambda: (i, GL.number_to_month(i),
                                                   GL.monthindex(name)))


def functions(r, x0):
    a = math.exp(r.uniform(-5., 5.))
    p = r.choice([1, 3])
    w = math.exp(r.uniform(-2., 2.))
    return r.choice([
        lambda x: a * (x - x0),
        lambda x: a * ((x - x0) + ((x - x0) / w) ** 3),
        lambda x: a * math.atan((x - x0) / w),
        lambda x: a * (math.exp(min((x - x0) / w, 50.)) - 1.),
        lambda x: a * (math.log(x) - math.log(x0))])


def root(r, m):
    f_ = plat.equivalance.solve_root
    x0 = math.exp(r.uniform(-3., 5.))
    start = x0 * math.exp(r.uniform(-1.5, 1.5))
    default = r.random() < .3
    lo, hi = (start / 100., start * 10.) if default else (
        x0 * r.uniform(.01, .99), x0 * r.uniform(1.01, 9.))
    up = functions(r, x0)
    sg = r.choice([1., -1.])
    calls = []

    def f(x):
        calls.append(x)
        return sg * up(x)
    k = {} if default else {'lower': lo, 'upper': hi}
    mode = r.choice(['inside', 'inside', 'bound', 'outside'])
    if mode == 'bound' and not default:
        at = r.choice(['lower', 'upper'])
        k[at] = x0
        got = m.call('solve_root', f_, start, f, **k)
        if f(x0) == 0.:
            m.check('root/bound', got == x0, lambda: (at, got, x0))
        m.seen('bound', at, sg)
        return
    if mode == 'outside':
        # all positive: the lower bound, all negative: the upper bound
        k = {'lower': x0 * 1.1, 'upper': x0 * r.uniform(1.2, 5.)} \
            if r.random() < .5 else {'lower': x0 * .1,
                                     'upper': x0 * r.uniform(.2, .9)}
        got = m.call('solve_root', f_, start, f, **k)
        v = f(k['lower'])
        want = k['lower'] if v > 0 else k['upper']
        m.check('root/outside', got == want, lambda: '{} instead of {} for '
                'values of sign {}'.format(got, want, np.sign(v)))
        m.seen('outside', v > 0, sg)
        return
    xtol = r.choice([None, 1e-6, 1e-9, 1e-3])
    if xtol is not None:
        k['xtol'] = xtol
    got = m.call('solve_root', f_, start, f, **k)
    tol = (xtol or 1e-6) + 1e-6 * x0
    m.check('root', abs(got - x0) <= 2. * tol, lambda: 'root {} instead of {}'
            ' in [{}, {}]'.format(got, x0, lo, hi))
    m.check('root/effort', len(calls) <= 60 and
            lo * (1 - 1e-12) <= min(calls) and max(calls) <= hi * (1 + 1e-12),
            lambda: '{} evaluations in [{}, {}], allowed [{}, {}]'.format(
                len(calls), min(calls), max(calls), lo, hi))
    m.seen('root', default, sg, xtol)


def polygon(r, m):
    n = r.randint(3, 12)
    # star-shaped: area as the sum of triangles around the centre
    ang = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
    if max((ang[(i + 1) % n] - ang[i]) % (2 * math.pi)
           for i in range(n)) > math.pi - .05:
        ang = [2 * math.pi * (i + r.uniform(0., .7)) / n for i in range(n)]
        if n < 4:
            ang = [0.1, 2.2, 4.3]
            n = 3
    rad = [r.uniform(1., 30.) for _ in range(n)]
    cx, cy = r.uniform(40., 90.), r.uniform(40., 90.)
    poly = [[cx + q * math.cos(a), cy + q * math.sin(a)]
            for a, q in zip(ang, rad)]
    want = sum(.5 * rad[i] * rad[(i + 1) % n] *
               math.sin((ang[(i + 1) % n] - ang[i]) % (2 * math.pi))
               for i in range(n))
    k = r.randrange(n)
    for p in (poly, poly[::-1], poly[k:] + poly[:k],
              [[x - 100., y + 7.] for x, y in poly],
              [tuple(v) for v in poly], poly + poly[:1]):
        m.close('area', m.call('polygonal_area', U.polygonal_area, p), want,
                rtol=1e-8, atol=1e-7)
    box = m.call('largest_rectangle',
                 dt.feature_recognition.determine_largest_rectangle, poly)
    X, Y = max(p[0] for p in poly), max(p[1] for p in poly)
    m.check('box', {tuple(map(float, p)) for p in box} ==
            {(0., 0.), (X, 0.), (X, Y), (0., Y)}, lambda: (box, X, Y))
    m.close('box', U.polygonal_area(box), X * Y, rtol=1e-12)
    s = r.choice([.5, 2., 1000., 1e-3, 1.])
    before = [tuple(p) for p in poly]
    got = m.call('scale_coordinates',
                 dt.feature_recognition.scale_coordinates, before, s)
    m.close('scale', [list(p) for p in got],
            [[x * s, y * s] for x, y in poly], rtol=1e-12)
    lx, ly = r.uniform(1., 90.), r.uniform(1., 90.)
    o = (r.uniform(-9., 9.), r.uniform(-9., 9.))
    kw = {'origin': o} if r.random() < .7 else {}
    o = o if kw else (0., 0.)
    per = m.call('perimeter', U.make_rectangle_perimeter, lx, ly, **kw)
    m.close('perimeter', sorted(map(list, per)), sorted(
        [o[0] + a, o[1] + b] for a in (0., lx) for b in (0., ly)))
    m.close('perimeter', U.polygonal_area(per), lx * ly, rtol=1e-9, atol=1e-7)
    m.seen('polygon', n, k)


def series(r, m):
    n = r.choice([1, 2, 3, 27, 100])
    a = [r.choice([-1., 1.]) * r.uniform(.3, 30.) for _ in range(n)]
    p = [x * r.uniform(.7, 1.4) for x in a]
    want = 100. / n * math.fsum((y - x) / x for x, y in zip(a, p))
    m.close('mpe', m.call('compute_mpe', U.compute_mpe, a, p), want,
            rtol=1e-9, atol=1e-9)
    m.close('mpe', U.compute_mpe(a, a), 0., atol=1e-12)
    f = r.uniform(.5, 2.)
    m.close('mpe', U.compute_mpe(a, [f * x for x in a]), 100. * (f - 1.),
            rtol=1e-9, atol=1e-8)
    m.seen('mpe', n, round(want))


def signs(r, m):
    for _ in range(8):
        x = r.choice([-1., 1.]) * math.exp(r.uniform(-40., 40.))
        m.check('sign', m.call('sign', U.sign, x) == (1 if x > 0 else -1),
                lambda: x)
        y = r.choice([-1., 1.]) * math.exp(r.uniform(-40., 40.))
        got = m.call('check_bracket', U.check_bracket, U.sign(x), U.sign(y))
        m.check('bracket', bool(got) == ((x > 0) != (y > 0)), lambda: (x, y))
        m.seen('sign', x > 0, y > 0, math.floor(math.log(abs(x))))


def ticks(r, m):
    from matplotlib.figure import Figure
    lt = r.choice([1., 1., .1, 10.])
    top = lt * 10. ** r.randint(1, 4)
    fig = Figure()
    ax = fig.add_subplot(111)
    ax.set_xscale('symlog', linthresh=lt)
    ax.set_xlim(-top, top)
    loc = U.MinorSymLogLocator(lt)
    ax.xaxis.set_minor_locator(loc)
    t = np.array(m.call('minor ticks', ax.xaxis.get_minorticklocs))
    major = np.array(ax.xaxis.get_majorticklocs())
    for a, b in zip(major[:-1], major[1:]):
        if abs(b) > lt * 1.01 and abs(a) > lt * .99:
            between = np.unique(np.round(t[(t > a + 1e-9 * abs(a)) &
                                           (t < b - 1e-9 * abs(b))] /
                                         min(abs(a), abs(b)), 9))
            want = np.arange(2., 10.)
            m.close('ticks', np.sort(np.abs(between)), want, rtol=1e-6)
    m.seen('ticks', lt, top)
