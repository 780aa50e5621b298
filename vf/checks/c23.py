"""Synthetic loads, and the hourly representation of the hybrid loads."""
import calendar
import math
import random

import numpy as np

from .. import gen, hyb
from ..target import plat

PROPERTY = 'C23'
RULE = ('The block of a monthly peak written into a year of hours at seeded '
        'months, days, durations and loads; the doubling profile for all units '
        'and many years; the hourly representation of the hybrid loads of '
        'seeded years. Distinct by kind, month, duration and day.')
ASSUMPTIONS = [
    'The peak splits noon of its day, shifted left by half an hour if its '
    'duration is odd, and is moved to lie within its month.',
    'The representation has the average load in every hour but those of the '
    'peak, which lasts the rounded peak duration.']
REQUIRED = {'month': 1000, 'others': 1000, 'doubling': 100, 'doubling/days': 20,
            'hourly/peak': 500, 'hourly/average': 1000, 'hourly/none': 50,
            'hourly/mean': 40, 'inputs': 40}
CHUNK = 4
GL = plat.ground_loads


def plan(rng, tier):
    n = 3 if tier == 'quick' else 40
    kinds = ['block'] * 240 + ['doubling'] * 24 + ['hourly'] * 90
    return [{'what': k, 'seed': rng.randrange(10 ** 9),
             'kind': gen.LOAD_KINDS[i % len(gen.LOAD_KINDS)]}
            for i, k in enumerate(kinds * n)]


def run(c, m):
    globals()[c['what']](random.Random(c['seed']), m, c)


def days_of(year):
    return [calendar.monthrange(year, i)[1] for i in range(1, 13)]


def block(r, m, c):
    days = days_of(r.choice([2019, 2020, 2021, 2024]))
    x = [r.uniform(-5., 5.) for _ in range(24 * sum(days))]
    for _ in range(6):
        i = r.randrange(12)
        n, before = 24 * days[i], 24 * sum(days[:i])
        avg, peak = r.uniform(0., 9.), r.uniform(9., 90.)
        d = r.choice([0, 1, 2, 3, 7, 8, 23, 24, 25, 36, 47, 48])
        day = r.choice([0, 1, days[i] - 1, days[i] - 2,
                        r.randrange(days[i])])
        old = list(x)
        m.call('synthetic_load_function', GL.synthetic_load_function, x, avg,
               peak, d, day, before, n)
        m.check('others', len(x) == len(old) and x[:before] == old[:before] and
                x[before + n:] == old[before + n:],
                'hours of other months changed (month {}, day {}, {} h)'.format(
                    i + 1, day + 1, d))
        s = day * 24 + 12 - (d + 1) // 2
        s = max(0, min(s, n - d))
        want = [avg] * n
        want[s:s + d] = [peak] * d
        m.check('month', x[before:before + n] == want, lambda: 'month {} day '
                '{} duration {}: peak at hours {}'.format(
                    i + 1, day + 1, d,
                    [k for k, v in enumerate(x[before:before + n])
                     if v == peak]))
        m.seen('block', i, d, day in (0, days[i] - 1))


def doubling(r, m, c):
    units = r.choice(['W', 'kW', None])
    year = r.choice([2019, 2019, 2020, 2021, 2000, 1900, 2024])
    k = {} if units is None else {'units': units}
    if year != 2019 or r.random() < .5:
        k['year'] = year
    rej, ext = m.call('doubling',
                      GL.create_synthetic_doubling_load_profile, **k)
    scale = 1. if units == 'kW' else 1000.
    days = days_of(year)
    at = {}
    for name, x in (('rejection', rej), ('extraction', ext)):
        m.check('doubling', len(x) == 24 * sum(days),
                '{} hours in {}'.format(len(x), year))
        a = 0
        at[name] = []
        for i in range(1, 13):
            n = 24 * days[i - 1]
            y = np.array(x[a:a + n])
            a += n
            u = i if name == 'extraction' else 13 - i
            hi = np.where(y == 2. * u * scale)[0]
            lo = np.where(y == 1. * u * scale)[0]
            m.check('doubling', len(hi) == u and len(lo) == n - u and
                    hi[-1] - hi[0] == u - 1,
                    lambda: '{} month {}: {} peak and {} other hours, '
                    'units {}'.format(name, i, len(hi), len(lo), units))
            if len(hi):
                mid = (hi[0] + hi[-1] + 1) / 2.
                m.check('doubling/noon', abs(mid % 24 - 12) <= .5,
                        lambda: '{} month {}: centre {}'.format(name, i, mid))
                at[name].append(int(mid // 24))
    m.check('doubling/days', list(np.diff(at['extraction'])) == [1] * 11 and
            list(np.diff(at['rejection'])) == [-1] * 11, lambda: at)
    m.seen('doubling', units, year)


def hourly(r, m, c):
    q = gen.loads(gen.load_spec(r, [c['kind']]))
    p = gen.phys(r)
    h, rej, ext = m.call('HybridLoad', hyb.hybrid, p, q,
                         [1, 12, 35., 5., 100., 50.])
    year = r.choice([2019, 2021, 2020, 2024])
    got = m.call('hourly_load_representation', h.hourly_load_representation,
                 **({} if year == 2019 else {'year': year}))
    again = h.hourly_load_representation()
    m.check('inputs', (sum(days_of(year)) > 365 or
                       [list(g) for g in got] == [list(g) for g in again]) and
            list(h.rejection.hourly) == list(rej) and
            list(h.extraction.hourly) == list(ext), 'the loads changed')
    for name, x, kw, o in zip(('rejection', 'extraction'), got,
                              hyb.parts(q), (h.rejection, h.extraction)):
        m.check('hourly', len(x) == 24 * sum(days_of(year)),
                '{} hours in {}'.format(len(x), year))
        x = np.asarray(x, dtype=float)
        for i, (s, st) in enumerate(zip(hyb.month_slices(days_of(year)),
                                        hyb.stats(kw)), 1):
            tot, pk, avg, day = st
            y = x[s]
            d = int(round(float(o.monthly_peak_duration[i])))
            if pk <= 0.:
                m.check('hourly/none', not y.any(), lambda: (name, i))
                continue
            if pk - avg < 1e-9 * pk:
                continue
            top = np.abs(y - pk) < 1e-9 * pk
            m.check('hourly/average', np.allclose(y[~top], avg, rtol=1e-9),
                    lambda: '{} month {}: other loads than the average and the '
                    'peak'.format(name, i))
            k = np.where(top)[0]
            m.check('hourly/peak', len(k) == d and (
                d == 0 or k[-1] - k[0] == d - 1),
                lambda: '{} month {}: {} hours of peak, duration {}'.format(
                    name, i, len(k), o.monthly_peak_duration[i]))
            if 0 < d < 24 and len(k):
                m.check('hourly/day', k[0] // 24 == day - 1 and
                        abs((k[0] + k[-1] + 1) / 2. - 24 * (day - 1) - 12) <=
                        .5, lambda: '{} month {}: hours {} to {}, peak on day '
                        '{}'.format(name, i, k[0], k[-1], day))
            m.close('hourly/mean', y.sum(), avg * (len(y) - d) + pk * d,
                    rtol=1e-9)
            m.seen('hourly', name, i, d)
    m.note(c['kind'])
