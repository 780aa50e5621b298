"""Horizon: the months simulated, and hybrid against hourly steps."""
import random

import numpy as np

from .. import gen, ghx, ref

PROPERTY = 'C13'
RULE = ('Seeded ground heat exchangers over start and end months in any '
        'calendar position and year; loads that are constant within each month '
        '(hybrid and hourly steps must agree at the month ends) and general '
        'loads (length, rotation of the year). Distinct by horizon and load.')
ASSUMPTIONS = ['The years have 365 days and repeat, month 13 is January of '
               'the second year.',
               'The peaks of month-constant loads last 1e-6 hours, which may '
               'move the hybrid temperatures by a thousandth of the range.']
REQUIRED = {'hours': 20, 'month-ends': 20, 'agree': 20, 'rotated': 4,
            'values': 20, 'steps': 40, 'mean': 40}


def plan(rng, tier):
    n = 64 if tier == 'quick' else 500
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        if i % 3 == 0:
            s = r.choice([1, 1, 2, 3, 6, 12, 13, 14])
            e = s + r.choice([0, 1, 2, 10, 11, 12, 13, 23, 25]) \
                if i % 6 == 0 else s + r.choice([0, 1, 3, 11, 12])
        else:
            s = r.choice([2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 15, 18, 24, 25])
            e = s + r.choice([0, 1, 2, 4, 6, 9, 11, 12])
        H = round(r.uniform(50., 200.), 2)
        kind = 'monthly' if i % 4 != 3 else r.choice(
            ['seasonal', 'office', 'blocks', 'weekly', 'edges'])
        cases.append({'what': 'agree' if i % 4 != 3 else 'rotate',
                      'phys': gen.phys(r, H=H), 'coords': gen.field(r, 9),
                      'heights': [H], 'loads': gen.load_spec(r, [kind]),
                      'rates': [round(r.uniform(-1, 1), 3) *
                                r.choice([0, 1, 1, 1, 1]) for _ in range(12)],
                      'unit': round(r.uniform(500, 50000), 1),
                      'as': ['list', 'array', 'list', 'tuple', 'list'][i % 5],
                      'sim': [s, e, 35., 5., H, H]})
    # long horizons, hybrid only
    for i in range(60 if tier == 'quick' else 400):
        r = random.Random(rng.random())
        s, e = gen.horizon(r)
        H = round(r.uniform(50., 200.), 2)
        cases.append({'what': 'steps', 'phys': gen.phys(r, H=H),
                      'coords': [[0., 0.]], 'heights': [H],
                      'loads': gen.load_spec(r),
                      'sim': [s, e, 35., 5., H, H]})
    return cases


def steps(c, mon, ghe, q):
    """The steps of the hybrid simulation against the calendar."""
    s, e = c['sim'][:2]
    load = np.asarray(ghe.hybrid_load.load, dtype=float)[2:]
    hour = np.asarray(ghe.hybrid_load.hour, dtype=float)
    t = hour[2:] - hour[1]
    mon.demand('steps', len(load) == len(ghe.HPEFT) == len(ghe.dTb) and
               len(t) > 0, lambda: (len(load), len(ghe.HPEFT)))
    start = ref.hours_before(s)
    ends = np.array([ref.hours_before(m + 1) - start
                     for m in range(s, e + 1)], dtype=float)
    mon.close('steps', t[-1], ends[-1], rtol=0, atol=1e-6, what='end')
    mon.check('steps', bool(np.all(np.diff(np.hstack([0., t])) > 0.)),
              'time runs backwards')
    idx = []
    for x in ends:
        k = int(np.argmin(np.abs(t - x)))
        mon.check('month-ends', abs(t[k] - x) < 1e-6, lambda: (x, t[k]))
        idx.append(k)
    dt_ = np.diff(np.hstack([0., t]))
    # the mean rejection of every month is that of the calendar month
    year = np.asarray(q, dtype=float) / 1000.
    lo = 0
    for m, k in zip(range(s, e + 1), idx):
        a = ref.hours_before((m - 1) % 12 + 1)
        n = ref.month_hours(m)
        want = -np.sum(year[a:a + n])
        got = float(np.dot(load[lo:k + 1], dt_[lo:k + 1]))
        mon.close('mean', got / n, want / n, rtol=1e-6,
                  atol=1e-7 * (1 + np.abs(year).max()), what='month')
        lo = k + 1
    return idx


def run(c, mon):
    s, e = c['sim'][:2]
    q = None
    if c['what'] == 'agree':
        q = []
        for m in range(12):
            q += [c['rates'][m] * c['unit']] * ref.month_hours(m + 1)
    if q is None:
        q = gen.loads(c['loads'])
    ghe, b, _ = mon.call('GHE', ghx.build, c,
                         loads=gen.as_numbers(c.get('as'), q))
    mon.call('simulate', ghe.simulate, method='hybrid')
    hyb = np.asarray(ghe.HPEFT, dtype=float)
    idx = steps(c, mon, ghe, q)
    mon.seen(c['what'], s, e, c['loads']['kind'])
    if c['what'] == 'steps':
        return
    n = ref.hours_before(e + 1) - ref.hours_before(s)
    mon.call('simulate', ghe.simulate, method='hourly')
    hly = np.asarray(ghe.HPEFT, dtype=float)
    mon.demand('hours', hly.size == n, lambda: (hly.size, n))
    Tg = c['phys']['soil'][2]
    size = ghx.scale(hly, Tg)
    if c['what'] == 'agree':
        ends = [ref.hours_before(m + 1) - ref.hours_before(s) - 1
                for m in range(s, e + 1)]
        mon.close('agree', hyb[idx], hly[ends], rtol=0., atol=1e-4 * size,
                  what='month ends')
    R = ghx.Reference(c, c['heights'][0])
    a = ref.hours_before(s)
    Q = -np.tile(np.asarray(q), int(np.ceil((a + n) / 8760.)))[a:a + n]
    mon.close('values', hly, R.temperatures(Q, np.arange(1, n + 1))[0],
              rtol=0., atol=1e-5 * size)
    if c['what'] == 'rotate':
        # the same months, begun in January with the year rotated
        k = ref.hours_before((s - 1) % 12 + 1)
        c2 = dict(c, sim=[1, e - s + 1] + c['sim'][2:])
        if (s - 1) % 12 == 0 or n <= 24 * 365:
            ghe2, _, _ = mon.call('GHE', ghx.build, c2,
                                  loads=q[k:] + q[:k])
            ghe2.sim_params.end_month = e - s + 1
            mon.call('simulate', ghe2.simulate, method='hourly')
            T2 = np.asarray(ghe2.HPEFT, dtype=float)
            m = min(T2.size, hly.size)
            mon.close('rotated', T2[:m], hly[:m], rtol=0., atol=1e-5 * size)
