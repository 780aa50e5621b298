"""The hybrid load profile: time, energy and peaks."""
import random

import numpy as np

from .. import gen, hyb, ref

PROPERTY = 'C10'
RULE = ('Seeded years of loads (18 shapes) over start and end months in any '
        'position and up to 20 years; every step of the profile is judged. '
        'Distinct by shape and horizon.')
ASSUMPTIONS = [
    'Peaks are placed around the middle of the day they occur on (within 1.5 '
    'hours), unless they would leave the month or meet the other peak.',
    'Months whose two peaks fall on the same day carry no peaks (documented '
    'in the code); their mean rate carries the whole energy.',
    'The durations of the peaks are those of the object (judged by C11).']
REQUIRED = {'time': 100, 'span': 100, 'energy': 3000, 'steps-of-load': 100,
            'peak-size': 1500, 'peak-duration': 1500, 'peak-day': 800,
            'no-peak': 500, 'same-day': 100}
CHUNK = 4


def plan(rng, tier):
    n = 2700 if tier == 'quick' else 8000
    ps = [gen.phys(rng) for _ in range(6)]
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        s, e = gen.horizon(r)
        if e - s > 130 and r.random() < .7:
            e = s + 35
        if i % 60 == 7:
            e = s + r.randint(361, 720)
        cases.append({'phys': r.choice(ps), 'loads': gen.load_spec(
            r, [gen.LOAD_KINDS[i % len(gen.LOAD_KINDS)]]),
            'sim': [s, e, 35., 5., 100., 50.]})
    return cases


def run(c, mon):
    q = gen.loads(c['loads'])
    s, e = c['sim'][:2]
    h, rej, ext = mon.call('HybridLoad', hyb.hybrid, c['phys'], q, c['sim'])
    judge(c, mon, h, q, s, e)
    mon.seen(c['loads']['kind'], s, e)
    mon.note(c['loads']['kind'])
    mon.sample = {'steps': int(np.size(h.load)) - 2}


def judge(c, mon, h, q, s, e):
    load = np.asarray(h.load, dtype=float)
    hour = np.asarray(h.hour, dtype=float)
    mon.demand('span', load.shape == hour.shape and load.size >= 2 +
               (e - s + 1), lambda: (load.shape, hour.shape))
    start, end = ref.hours_before(s), ref.hours_before(e + 1)
    sf = np.asarray(h.sfload, dtype=float)
    mon.close('steps-of-load', sf[1:] if sf.size == load.size else sf,
              np.diff(load), rtol=1e-9, atol=1e-9)
    mon.close('span', [hour[1], hour[-1]], [start, end], rtol=0., atol=1e-6)
    t, L = hour[2:], load[2:]
    t0 = np.hstack([hour[1], t[:-1]])
    mon.check('time', bool(np.all(t > t0)), lambda: (
        'time runs backwards', float(np.min(t - t0))))
    mon.check('finite', bool(np.all(np.isfinite(L))))
    mean = {}
    cl, hl = hyb.parts(q)
    st_r, st_e = hyb.stats(cl), hyb.stats(hl)
    big = 1. + max(cl.max(), hl.max())
    k = 0
    for m in range(s, e + 1):
        a, z = ref.hours_before(m), ref.hours_before(m + 1)
        idx = []
        while k < t.size and t[k] <= z + 1e-7:
            idx.append(k)
            k += 1
        mon.demand('month', idx and abs(t[idx[-1]] - z) < 1e-6,
                   lambda: ('no step ends with month', m, z))
        mi = (m - 1) % 12
        rt, rp, _, rd = st_r[mi]
        et, ep, _, ed = st_e[mi]
        n_h = z - a
        energy = float(np.dot(L[idx], (t - t0)[idx]))
        mon.close('energy', energy / n_h, (rt - et) / n_h, rtol=1e-7,
                  atol=1e-7 * big, what='month')
        peaks = m < s + 12 or m > e - 12
        if not peaks or rd == ed:
            mon.check('same-day' if peaks else 'no-peak', len(idx) == 1,
                      lambda: ('steps', m, len(idx)))
            mon.close('same-day' if peaks else 'no-peak',
                      L[idx], [(rt - et) / n_h] * len(idx), rtol=1e-7,
                      atol=1e-7 * big)
            continue
        want = []
        if rp > 0.:
            want.append((rd, rp, h.rejection.monthly_peak_duration[mi + 1]))
        if ep > 0.:
            want.append((ed, -ep, h.extraction.monthly_peak_duration[mi + 1]))
        want.sort()
        if not mon.check('peak-count', len(idx) == 2 * len(want) + 1,
                         lambda: (m, len(idx), want)):
            continue
        base = [L[idx[j]] for j in range(0, len(idx), 2)]
        mon.close('rest', base, [base[0]] * len(base), rtol=1e-9, atol=1e-9)
        spans = []
        for day, size, dur in want:
            mid = a + (day - 1) * 24. + 12.5
            spans.append((mid - dur / 2. - 1.5, mid + dur / 2. + 1.5))
        for j, (day, size, dur) in enumerate(want):
            i = idx[2 * j + 1]
            mon.close('peak-size', L[i], size, rtol=1e-9, atol=1e-9)
            mon.close('peak-duration', t[i] - t0[i], dur, rtol=1e-6,
                      atol=2e-6)
            mon.check('in-month', t0[i] >= a - 1e-6 and t[i] <= z + 1e-6,
                      lambda: (m, t0[i], t[i]))
            free = spans[j][0] >= a and spans[j][1] <= z
            for o in range(len(want)):
                if o != j:
                    free = free and (spans[o][1] < spans[j][0] or
                                     spans[j][1] < spans[o][0]) and \
                        spans[o][0] >= a and spans[o][1] <= z
            mid = .5 * (t0[i] + t[i])
            if free:
                mon.check('peak-day', abs(mid - (a + (day - 1) * 24. + 12.5))
                          <= 1.5, lambda: (m, day, mid - a))
            else:
                mon.note('peaks moved or at an edge')
