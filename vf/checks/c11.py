"""The duration of the monthly peaks."""
import random

import numpy as np
from scipy.interpolate import interp1d

from .. import gen, hyb, ref
from ..target import plat

PROPERTY = 'C11'
RULE = ('Seeded years of loads (18 shapes) on seeded boreholes; for every '
        'month with a peak the two-day simulation is repeated independently. '
        'Distinct by shape, month and window (wrapping or not).')
ASSUMPTIONS = [
    'Definition: the duration for which the peak load less the '
    'monthly average changes the fluid temperature as much as the actual '
    'loads, (q - average) q / peak, of a two-day window do at most.',
    'The window is the day of the peak and the day after it. A comment in the '
    'code says the day before and the day of, but the test suite pins the '
    'durations of the former; see DESIGN.md.',
    'The day after the 31st of December is the first of January.']
REQUIRED = {'duration': 800, 'range': 1500, 'window': 800, 'none': 100,
            'response': 400}
CHUNK = 4


def plan(rng, tier):
    n = 2000 if tier == 'quick' else 5000
    ps = [gen.phys(rng) for _ in range(6)]
    cases = [{'phys': rng.choice(ps),
             'direct': i % 3 == 2,
             'leap': i % 9 == 2,
             'loads': gen.load_spec(rng, [gen.LOAD_KINDS[
                 i % len(gen.LOAD_KINDS)]])} for i in range(n)]
    for c in cases[::10]:
        # loads of some megawatts
        c['loads']['scale'] *= 100.
    return cases


def response(q, g, two_pi_k, Rb):
    """Change of fluid temperature at the end of hours 0..48; g[j] is the
    response factor after j+1 hours."""
    dq = np.diff(np.hstack([0., q]))
    T = [0.]
    for i in range(1, len(q) + 1):
        T.append(np.dot(dq[:i], g[:i][::-1]) / two_pi_k + q[i - 1] * Rb)
    return np.array(T)


def run(c, mon):
    hours = 8784 if c['leap'] else 8760
    q = gen.loads(c['loads'], hours)
    eq, r = hyb.base(c['phys'])
    x = np.log(3600. * np.arange(1, 49) / r.t_s)
    two_pi_k = 2. * np.pi * c['phys']['soil'][0]
    Rb = eq.compute_effective_borehole_resistance()
    if c['direct']:
        # response factors of the harness
        r_ = np.random.RandomState(c['loads']['seed'] % 1000)
        g = np.cumsum(r_.uniform(.001, .2, 48))[::1] - .5
        Rb = .5 / two_pi_k + r_.uniform(.02, .2)
        lng = np.hstack([x[0] - 9., x, x[-1] + 1.])
        f = interp1d(lng, np.hstack([g[0] - .2, g, g[-1] + .01]))
        rej, ext = (list(map(float, y)) for y in hyb.parts(q))
        objs = [mon.call('Loads', plat.ground_loads.Loads, y, f, r.t_s,
                         two_pi_k, Rb, year=2020 if c['leap'] else 2019)
                for y in (rej, ext)]
    else:
        g = np.interp(x, r.lntts, r.g)
        h, rej, ext = mon.call('HybridLoad', hyb.hybrid, c['phys'], q,
                               [1, 12, 35., 5., 100., 50.])
        objs = [h.rejection, h.extraction]
    days = list(ref.MONTHS)
    if c['leap']:
        days[1] = 29
    for name, o, kw in zip(('rejection', 'extraction'), objs, hyb.parts(q)):
        st = hyb.stats(kw, days)
        sl = hyb.month_slices(days)
        for m in range(1, 13):
            tot, pk, avg, day = st[m - 1]
            d = float(o.monthly_peak_duration[m])
            mon.check('range', 0. < d <= 48., lambda: (name, m, d))
            if pk <= 0.:
                mon.check('none', d < 1e-3, lambda: (name, m, d))
                continue
            first = sl[m - 1].start + (day - 1) * 24
            w = np.array([kw[k % hours] for k in range(first, first + 48)])
            mon.close('window', np.asarray(
                o.monthly_two_day_hourly_peak[m], dtype=float), w,
                rtol=1e-12, atol=0., what=name)
            top = w.max()
            T_pk = response(np.full(48, top - avg), g, two_pi_k, Rb)
            T_nm = response((w - avg) / top * w, g, two_pi_k, Rb)
            best = T_nm.max()
            mon.close('response', o.monthly_two_day_fluid_temps_pk[m],
                      T_pk, rtol=1e-7, atol=1e-7 * (1 + abs(T_pk).max()))
            mon.close('response', o.monthly_two_day_fluid_temps_nm[m],
                      T_nm, rtol=1e-7, atol=1e-7 * (1 + abs(T_nm).max()))
            if top - avg < 1e-9 * top:
                # rounding decides, and any duration is the same load
                mon.note('constant month')
                continue
            if T_nm[1:].max() <= 1e-9 * max(1e-9, abs(T_pk).max()):
                if T_nm[1:].max() < -1e-9 * max(1e-9, abs(T_pk).max()):
                    # the fluid only cools below its initial temperature
                    mon.check('none', d < 1e-3, lambda: (name, m, d))
                continue
            want = float(np.interp(min(best, T_pk.max()), T_pk,
                                   np.arange(49.)))
            # the temperature the duration is read from
            mon.close('duration', d, want, rtol=1e-6, atol=1e-6, what=name)
            mon.seen(c['loads']['kind'], name, m, first + 48 > hours, c['direct'])
        mon.check('sane', len(o.monthly_peak_duration) == 13)
    mon.note(c['loads']['kind'])
