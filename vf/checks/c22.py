"""Impossible and incomplete requests are refused, complete ones accepted."""
import contextlib
import io
import os
import random
import tempfile

import numpy as np

from .. import gen, ghx, fake
from ..state import state, differences
from ..target import dt, plat, gt

PROPERTY = 'C22'
RULE = ('Seeded requests, each complete and then spoiled in one respect: a '
        'geometric parameter left out, an unknown routine, flow, simulation '
        'method, unit, pipe configuration, boundary condition or interpolation, '
        'a year of the wrong length, impossible counts. The complete request '
        'is made too and must be accepted. Distinct by kind of request and '
        'spoiled part.')
ASSUMPTIONS = ['Any error counts as a refusal, except those that show a fault '
               'in the program (AttributeError, NameError, UnboundLocalError).']
REQUIRED = {'geometry/missing': 150, 'geometry/complete': 80,
            'geometry/unneeded': 80, 'routine': 60, 'flow': 40, 'method': 20,
            'method/untouched': 10, 'units': 40, 'length': 40, 'config': 30,
            'options': 20, 'counts': 60, 'kind': 30, 'empty': 20, 'mpe': 20,
            'file': 20, 'accepted': 200}
CHUNK = 4
CASE_SECONDS = 120
ERR = (ValueError, AssertionError, TypeError, KeyError, IndexError, OSError)
NEEDED = {'near-square': ('B', 'length'),
          'rectangle': ('length', 'width', 'B_min', 'B_max_x'),
          'bi-rectangle': ('length', 'width', 'B_min', 'B_max_x', 'B_max_y'),
          'bi-zoned': ('length', 'width', 'B_min', 'B_max_x', 'B_max_y')}
WORDS = ['', 'Rectangle', 'near_square', 'nearsquare', 'rectangles', 'zoned',
         'bi-rectangle ', 'hybrid', 'square', None, 3]


def plan(rng, tier):
    n = 3 if tier == 'quick' else 40
    kinds = ['geometry'] * 90 + ['routine'] * 20 + ['flow'] * 20 + \
        ['method'] * 12 + ['units'] * 16 + ['length'] * 14 + ['config'] * 20 + \
        ['options'] * 12 + ['counts'] * 40 + ['kind'] * 20 + ['small'] * 30
    return [{'what': k, 'seed': rng.randrange(10 ** 9)}
            for k in kinds for _ in range(n)]


def run(c, m):
    r = random.Random(c['seed'])
    with contextlib.redirect_stdout(io.StringIO()):
        globals()[c['what']](r, m)


def refuse(m, mon, what, fn, *a, **k):
    ok = m.raises(mon, ERR, fn, *a, **k)
    m.seen(mon, what)
    if not ok:
        m.violations[-1]['detail'] = '{}: {}'.format(
            what, m.violations[-1]['detail'])


def accept(m, what, fn, *a, **k):
    out = m.call(what, fn, *a, **k)
    m.check('accepted', True)
    return out


def geometry_of(r):
    B = round(r.uniform(3., 6.), 2)
    L, W = round(r.uniform(22., 60.), 1), round(r.uniform(22., 60.), 1)
    return dict(B=B, length=L, width=W, B_min=B, B_max_x=B + 4.,
                B_max_y=B + 4.5)


def geometry(r, m):
    full = geometry_of(r)
    routine = r.choice(sorted(NEEDED))
    need = NEEDED[routine]
    b = fake.parts(60., 135.)
    want = None
    for drop in [()] + [tuple(k for k in full if k not in need)]:
        gc = dt.media.GeometricConstraints(
            **{k: v for k, v in full.items() if k not in drop})
        d = accept(m, 'Design({}) without {}'.format(routine, drop),
                   fake.design, b, gc, routine)
        dom = d.coordinates_domain if routine in ('near-square', 'rectangle') \
            else [f for x in d.coordinates_domain_nested for f in x]
        got = [fake.key(f) for f in dom]
        m.check('geometry/unneeded' if drop else 'geometry/complete',
                len(got) > 0 and (want is None or got == want),
                lambda: '{} without {}: {} fields, {} with them'.format(
                    routine, drop, len(got), want and len(want)))
        want = got
    for k in need:
        left = {a: v for a, v in full.items() if a != k}
        if r.random() < .5:
            left = {a: v for a, v in left.items() if a in need}
        gc = dt.media.GeometricConstraints(**left)
        refuse(m, 'geometry/missing', (routine, k), fake.design, b, gc,
               routine)


def routine(r, m):
    gc = dt.media.GeometricConstraints(**geometry_of(r))
    b = fake.parts(60., 135.)
    for w in r.sample(WORDS, 4):
        refuse(m, 'routine', w, fake.design, b, gc, w)
    good = r.choice(sorted(NEEDED))
    d = accept(m, 'Design', fake.design, b, gc, good)
    d.routine = r.choice(WORDS)
    refuse(m, 'routine', ('later', d.routine), d.find_design)


def small_ghe(r, **k):
    p = gen.phys(r)
    p.pop('config', None)
    H = p['H']
    c = {'phys': p, 'coords': gen.field(r, 6), 'heights': [H],
         'sim': [1, 12, 35., 5., H + 10., H - 10.],
         'loads': gen.load_spec(r, ['office', 'seasonal', 'weekly'])}
    return c, ghx.build(c, **k)


def flow(r, m):
    b = fake.parts(60., 135.)
    ex = fake.physical(1, 135. * 9, 135., 20., 0.)
    dom = [gen.rect(n, n, 5., 5.) for n in range(1, 7)]
    nested = [dom[:3], dom[2:]]
    S = dt.search_routines
    for cls, x in ((S.Bisection1D, dom), (S.Bisection2D, nested),
                   (S.BisectionZD, nested)):
        for w in r.sample(['', 'Borehole', 'boreholes', 'System', 'systems',
                           'pipe', None, 1], 2):
            with fake.world(fake.World(ex)) as w_:
                refuse(m, 'flow', (cls.__name__, w), fake.search, cls, x, b,
                       flow=w)
                m.check('flow/nothing', not w_.sims, 'simulated without flow')
        for w in ('borehole', 'system'):
            with fake.world(fake.World(ex)):
                accept(m, 'search', fake.search, cls, x, b,
                       V=.3 if w == 'borehole' else 3., flow=w)
    gc = dt.media.GeometricConstraints(**geometry_of(r))
    d = accept(m, 'Design', fake.design, b, gc, 'near-square', flow='both') \
        if r.random() < .5 else None
    if d is not None:
        with fake.world(fake.World(ex)):
            refuse(m, 'flow', 'find_design', d.find_design)


def method(r, m):
    c, (ghe, b, q) = small_ghe(r)
    accept(m, 'simulate', ghe.simulate, method='hybrid')
    before = [float(x) for x in ghe.HPEFT]
    H = ghe.bhe.b.H
    for w in r.sample(['', 'Hybrid', 'daily', 'monthly', 'hour', None, 0], 3):
        refuse(m, 'method', ('simulate', w), ghe.simulate, method=w)
        refuse(m, 'method', ('size', w), ghe.size, method=w)
    ghe.bhe.b.H = H
    m.close('method/untouched', ghe.HPEFT, before, rtol=0., atol=0.)
    mx, mn = accept(m, 'simulate', ghe.simulate, method='hybrid')
    m.close('method/untouched', [mx, mn], [max(before), min(before)],
            rtol=1e-5, atol=1e-4)


def units(r, m):
    H = plat.ground_loads.HybridLoad
    q = [r.uniform(-1, 1) for _ in range(48)]
    for w in r.sample(['w', 'KW', 'kw', 'MW', '', None, 'BTU', 'Watt'], 3):
        refuse(m, 'units', ('split', w), H.split_heat_and_cool, q, units=w)
        refuse(m, 'units', ('synthetic', w),
               plat.ground_loads.create_synthetic_doubling_load_profile,
               units=w)
    for w in ('W', 'kW'):
        accept(m, 'split', H.split_heat_and_cool, q, units=w)


def length(r, m):
    from .. import hyb
    p = gen.phys(r)
    q = gen.loads(gen.load_spec(r))
    for n in r.sample([8759, 8761, 8784, 8736, 24, 744, 17520, 0], 3):
        bad = (q * 2 + [0.])[:n]
        refuse(m, 'length', ('HybridLoad', n), hyb.hybrid, p, bad,
               [1, 12, 35., 5., 100., 50.])
        if r.random() < .4:
            refuse(m, 'length', ('GHE', n), small_ghe, r, loads=bad)
    refuse(m, 'length', 'leap', plat.ground_loads.Loads, q, None, 1., 1., 1.,
           year=r.choice([2020, 2000, 2024]))
    accept(m, 'HybridLoad', hyb.hybrid, p, q, [1, 12, 35., 5., 100., 50.])


def config(r, m):
    p = gen.phys(r, ('double', 'triple'))
    b = gen.build(p)
    for w in r.sample(['', 'paralel', 'serial', 'both', 'parallel '], 3):
        refuse(m, 'config', w, b.cls, b.m_flow, b.fluid, b.borehole, b.pipe,
               b.grout, b.soil, config=w)
        refuse(m, 'config', ('flow', w),
               b.cls.compute_mass_flow_rate_pipe, b.m_flow, w)
    for w in ('parallel', 'series'):
        accept(m, 'MultipleUTube', b.cls, b.m_flow, b.fluid, b.borehole,
               b.pipe, b.grout, b.soil, config=w)


def options(r, m):
    p = gen.phys(r)
    p.pop('config', None)
    b = gen.build(p)
    t = np.exp(np.array([-4., 0.])) * p['H'] ** 2 / (
        9. * p['soil'][0] / p['soil'][1])
    f = dt.gfunction.calculate_g_function
    a = (b.m_flow, b.cls, t, gen.tuples(gen.field(r, 4)), b.borehole, b.fluid,
         b.pipe, b.grout, b.soil)
    for k in ({'boundary': r.choice(['uhtr', 'UHF', '', 'mift', 'UIFT'])},
              {'segments': r.choice(['', 'uniform', 'un-equal', 'both'])}):
        refuse(m, 'options', sorted(k.items()), f, *a, **k)
    for k in ({'boundary': r.choice(['UHTR', 'UBWT', 'MIFT'])},
              {'segments': r.choice(['equal', 'Unequal', 'UNEQUAL'])}):
        accept(m, 'calculate_g_function', f, *a, nSegments=4, **k)


def counts(r, m):
    f = dt.domains.square_and_near_square
    B = round(r.uniform(1., 9.), 2)
    lo, hi = r.randint(1, 9), r.randint(1, 9)
    refuse(m, 'counts', 'zero', f, 0, hi, B)
    refuse(m, 'counts', 'negative', f, -lo, hi, B)
    refuse(m, 'counts', 'upper zero', f, r.choice([0, 1, -2]), 0, B)
    refuse(m, 'counts', 'reversed', f, hi + lo, hi, B)
    out = accept(m, 'near-square', f, hi, hi + lo - 1, B)
    m.check('counts', [len(x) for x in out] == [
        n for k in range(hi, hi + lo) for n in (k * k, k * (k + 1))],
        lambda: (hi, lo, [len(x) for x in out]))


def kind(r, m):
    p = gen.phys(r, ('single', 'double', 'coaxial'))
    b = gen.build(p)
    from .. import ref
    wrong = [None, 'single', b.pipe, b.borehole,
             ref.pipe(p, b.fluid, b.borehole, b.m_flow)]
    for w in r.sample(wrong, 3):
        refuse(m, 'kind', type(w).__name__, plat.equivalance.compute_equivalent,
               w)


def small(r, m):
    b = fake.parts(60., 135.)
    refuse(m, 'empty', 'spacing', dt.utilities.borehole_spacing, b.borehole,
           [])
    n = r.randint(1, 9)
    a = [r.uniform(.5, 2.) for _ in range(n)]
    refuse(m, 'mpe', 'length', dt.utilities.compute_mpe, a,
           a + [1.] if r.random() < .5 else a[:-1])
    d = tempfile.mkdtemp(prefix='vf-c22-')
    try:
        refuse(m, 'file', 'obj', dt.utilities.read_input_file,
               os.path.join(d, 'missing.obj'))
        refuse(m, 'file', 'json', dt.utilities.js_load,
               os.path.join(d, 'missing.json'))
        m.check('file', not os.listdir(d), 'a file appeared')
    finally:
        os.rmdir(d)
