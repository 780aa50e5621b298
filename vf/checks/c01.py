"""A complete design: the field and the depth keep the temperature limits."""
import contextlib
import io
import random

import numpy as np

from .. import gen, ghx
from ..target import dt

PROPERTY = 'C01'
RULE = ('Complete designs with the real physics through the design interface: '
        'all routines, boreholes, flow bases, load shapes and horizons. The '
        'selected field, the field before it and the sized depth are simulated '
        'again with fresh objects and with an independent superposition of '
        'independently combined response factors. Distinct by routine, kind, '
        'flow basis, load shape and selection.')
ASSUMPTIONS = [
    'The hybrid loads and the equivalent borehole are taken from fresh objects '
    'of the code under test (they are judged by C09 to C11 and C18).']
REQUIRED = {'within-limits': 16, 'before-exceeds': 10, 'agrees': 30, 'reported': 30,
            'sized': 16, 'sized/agrees': 16, 'rejected': 2}
CASE_SECONDS = 240


def plan(rng, tier):
    n = 56 if tier == 'quick' else 1200
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        p = gen.phys(r, ('single', 'double', 'coaxial', 'single'))
        p.pop('config', None)
        routine = (['near-square'] * 4 + ['rectangle'] * 4 + ['bi-rectangle'] +
                   (['bi-zoned'] if i % 30 == 9 else ['bi-rectangle']))[i % 10]
        B = round(r.uniform(4., 7.), 2)
        if routine == 'near-square':
            gc = {'B': B, 'length': round(B * r.uniform(1.2, 3.8), 2)}
        elif routine == 'rectangle':
            gc = {'length': round(B * r.uniform(2.5, 5.), 2),
                  'width': round(B * r.uniform(1.3, 4.), 2), 'B_min': B,
                  'B_max_x': round(B * r.uniform(1.5, 2.2), 2)}
        else:
            gc = {'length': round(B * r.uniform(3.1, 4.), 2),
                  'width': round(B * r.uniform(2.1, 3.5), 2), 'B_min': B,
                  'B_max_x': round(B * r.uniform(1.4, 1.9), 2),
                  'B_max_y': round(B * r.uniform(1.4, 1.9), 2)}
        hi = round(r.uniform(80., 200.), 1)
        lo = round(hi * r.uniform(.25, .6), 1)
        p['H'] = round(r.choice([lo, hi, r.uniform(lo, hi)]), 1)
        Tg = p['soil'][2]
        s, e = gen.horizon(r)
        e = min(e, s + 59) if r.random() < .8 else e
        spec = gen.load_spec(r, ['seasonal', 'office', 'heating', 'cooling',
                                 'weekly', 'plateau', 'monthly', 'sameday'])
        cases.append({
            'phys': p, 'routine': routine, 'gc': gc,
            'flow': r.choice(['borehole', 'system']),
            'sim': [s, e, round(Tg + r.uniform(10., 22.), 2),
                    round(Tg - r.uniform(6., 14.), 2), hi, lo],
            'loads': spec, 'method': 'hourly' if i % 44 in (0, 14, 18, 36) else 'hybrid',
            # boreholes worth of loads, at so many W per m
            'worth': round(r.choice([r.uniform(.1, .6)] * 8 + [.01, 5.]) *
                           n_max(gc), 3),
            'wpm': round(r.uniform(25., 50.), 2)})
        if cases[-1]['method'] == 'hourly':
            cases[-1]['sim'][1] = s + r.choice([2, 5, 11])
    return cases


def n_max(gc):
    B = gc.get('B') or gc['B_min']
    return (1. + gc['length'] / B) * (1. + gc.get('width', gc['length']) / B)


def the_loads(c):
    q = np.array(gen.loads(c['loads']))
    pk = np.abs(q).max()
    q = q / pk * c['worth'] * c['wpm'] * c['sim'][4]
    return [float(x) for x in q]


def excess(c, T):
    return max(float(np.max(T)) - c['sim'][2], c['sim'][3] - float(np.min(T)))


class Again:
    """The field once more, from fresh objects."""

    def __init__(self, c, coords, q, heights):
        V = c['phys']['V'] if c['flow'] == 'borehole' else \
            c['V'] / len(coords)
        p = dict(c['phys'], V=V, H=c['sim'][4])
        self.c = dict(c, phys=p, coords=[list(x) for x in coords],
                      heights=heights)
        self.ghe, self.b, _ = ghx.build(self.c, loads=q)
        self.q = q

    def rejection(self):
        if self.c['method'] == 'hybrid':
            h = self.ghe.hybrid_load
            return np.array(h.load[2:]) * 1000., \
                np.array(h.hour[2:]) - h.hour[1]
        from .. import ref
        a = ref.hours_before(self.c['sim'][0])
        z = ref.hours_before(self.c['sim'][1] + 1)
        n = -(-z // 8760)
        return -np.tile(np.array(self.q), n)[a:z], np.arange(1, z - a + 1)

    def code(self, H):
        self.ghe.bhe.b.H = H
        self.ghe.simulate(method=self.c['method'])
        return np.array(self.ghe.HPEFT)

    def reference(self, H, rows=None):
        R = ghx.Reference(self.c, H, self.c['heights'], rows)
        self.rows = R.g_rows
        return R.temperatures(*self.rejection())[0]


def run(c, m):
    b = gen.build(c['phys'])
    q = the_loads(c)
    gc = dt.media.GeometricConstraints(**c['gc'])
    # the flow of the system is a volume for a typical number of boreholes
    c['V'] = c['phys']['V'] if c['flow'] == 'borehole' else \
        c['phys']['V'] * 5.
    with contextlib.redirect_stdout(io.StringIO()):
        d = make(c, m, b, gc, q)
    judge(c, m, d, q)


def make(c, m, b, gc, q):
    return m.call('design', dt.design.Design, c['V'], b.borehole, b.cls, b.fluid,
               b.pipe, b.grout, b.soil, gen.sim(*c['sim']), gc, q,
               method=c['method'], routine=c['routine'], flow=c['flow'])


def judge(c, m, d, q):
    nested = c['routine'].startswith('bi')
    dom = d.coordinates_domain_nested if nested else d.coordinates_domain
    hi, lo = c['sim'][4], c['sim'][5]
    try:
        s = d.find_design()
    except ValueError as e:
        fields = [dom[0][0]] + [row[-1] for row in dom] if nested else dom
        a = Again(c, fields[0], q, [hi])
        z = Again(c, fields[-1], q, [hi])
        ea, ez = excess(c, a.code(hi)), excess(c, z.code(hi))
        ok = (ea > -1e-3 and ez > -1e-3) or (ea < 1e-3 and ez < 1e-3)
        if nested and not ok:
            m.note('a row was rejected, not judged')
            return
        m.check('rejected', ok, lambda: 'rejected with {!r} although the '
                'excess goes from {} to {}'.format(e, ea, ez))
        m.seen('rejected', c['routine'], ea > 0.)
        return
    f = [tuple(x) for x in s.selected_coordinates]
    n = len(f)
    if c['routine'] == 'bi-zoned':
        return zoned(c, m, s, f, q, lo, hi)
    again = Again(c, f, q, [hi])
    T = again.reference(hi)
    S = max(ghx.scale(T, c['phys']['soil'][2]), 5.)
    tol = 2e-5 * S + 1e-4
    m.check('within-limits', excess(c, T) <= tol, lambda: '{} boreholes of '
            '{} m exceed the limits by {}'.format(n, hi, excess(c, T)))
    m.close('agrees', s.ghe.simulate(method=c['method']),
            [T.max(), T.min()], rtol=0., atol=tol, what='after the search')
    m.close('agrees', again.code(hi), T, rtol=0., atol=tol, what='fresh')
    m.close('reported', s.calculated_temperatures[s.selection_key],
            excess(c, T), rtol=0., atol=tol, what='excess of the selection')
    # the field before it
    row = dom
    if nested:
        row = next(r for r in dom if any(same(x, f) for x in r))
    k = next(i for i, x in enumerate(row) if same(x, f))
    if not nested:
        m.check('index', s.selection_key == k, s.selection_key)
    if k > 0:
        T1 = Again(c, row[k - 1], q, [hi]).reference(hi)
        if k - 1 in s.calculated_temperatures:
            m.close('reported', s.calculated_temperatures[k - 1],
                    excess(c, T1), rtol=0., atol=tol, what='excess before')
        # (with a flow for the system, fewer boreholes may run cooler: of all
        # that keep the limits, the one nearest to them is to be chosen)
        if excess(c, T1) < excess(c, T) - tol:
            m.note('fewer boreholes are farther from the limits')
        m.check('before-exceeds', excess(c, T1) > -tol or
                excess(c, T1) < excess(c, T) - tol, lambda: '{} boreholes '
                'although {} keep the limits by {}'.format(
                    n, len(row[k - 1]), -excess(c, T1)))
    # sizing
    m.call('g-functions', s.ghe.compute_g_functions)
    m.call('size', s.ghe.size, method=c['method'])
    sized(c, m, s, f, q, lo, hi)
    m.seen(c['routine'], c['phys']['kind'], c['flow'], c['loads']['kind'], n,
           k)
    m.note(c['routine'])
    m.sample = {'boreholes': n, 'depth': s.ghe.bhe.b.H,
                'excess at the maximum depth': excess(c, T)}


def same(a, b):
    return len(a) == len(b) and all(tuple(x) == tuple(y)
                                    for x, y in zip(a, b))


def sized(c, m, s, f, q, lo, hi):
    H = s.ghe.bhe.b.H
    m.check('sized', lo <= H <= hi, lambda: (lo, H, hi))
    again = Again(c, f, q, [lo, .5 * (lo + hi), hi])
    T = again.reference(H)
    S = max(ghx.scale(T, c['phys']['soil'][2]), 5.)
    tol = 2e-5 * S + 1e-4
    e = excess(c, T)
    # the short-time and the long-time response need not meet: the temperatures
    # jump where their joint passes a peak, and the root may be such a jump
    jump = False
    if not -2. * tol <= e <= 2. * tol and lo * 1.0001 < H < hi * .9999:
        a, z = (excess(c, again.reference(x, again.rows))
                for x in (H * (1. - 1e-5), H * (1. + 1e-5)))
        jump = abs(a - z) > 4. * tol and min(a, z) < 2. * tol and \
            max(a, z) > -2. * tol
    if jump:
        m.note('jump at the depth')
    m.check('sized', e <= 2. * tol or jump, lambda: '{} m exceed the limits '
            'by {}'.format(H, e))
    m.check('sized', e >= -2. * tol or H <= lo * (1. + 1e-6) or jump,
            lambda: '{} m are deeper than needed, {} K to the limits'.format(
                H, -e))
    m.close('sized/agrees', s.ghe.HPEFT, T, rtol=0., atol=tol,
            what='temperatures left by the sizing')
    if H > lo * 1.02:
        rows = again.rows
        T2 = again.reference(H * .99 if H * .99 > lo else lo, rows)
        ok = excess(c, T2) > -tol
        if not ok:
            x = [excess(c, again.reference(H * (.99 + .001 * k), rows))
                 for k in range(10)] + [e]
            if np.abs(np.diff(x)).max() > .005 * S:
                m.note('jump at the depth')
                return
        m.check('sized', ok, lambda: 'one percent less than {} m suffices: '
                'excess {} rather than {}'.format(H, excess(c, T2), e))


def zoned(c, m, s, f, q, lo, hi):
    again = Again(c, f, q, [hi])
    T = again.reference(hi)
    S = max(ghx.scale(T, c['phys']['soil'][2]), 5.)
    m.check('within-limits', excess(c, T) <= 2e-5 * S + 1e-4, excess(c, T))
    m.check('zoned', abs(len(f) * s.ghe.bhe.b.H - min(
        s.calculated_heights.values())) < 1e-3 * len(f), 'drilling')
    sized(c, m, s, f, q, lo, hi)
    m.note('bi-zoned')
    m.seen('bi-zoned', len(f), c['phys']['kind'], c['flow'])
