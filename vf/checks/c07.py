"""The progression of the candidate fields of every domain."""
import math
from ..target import dt
from .. import domref
from . import c06

PROPERTY = 'C07'
RULE = ('Seeded land sizes and spacing limits. The sequence of candidate '
        'fields is compared with an independent enumeration, and judged for '
        'growth, duplicates, its first and its densest field. Distinct by '
        'routine, orientation and the numbers of boreholes.')
ASSUMPTIONS = [
    'Land whose number of boreholes hinges on floating point error, and ties '
    'of the growth rule of zoned fields, are only judged by the invariants.',
    'Coordinates are compared after rounding to 1e-5 m.']
REQUIRED = {'first': 100, 'growth': 500, 'duplicates': 100,
            'enumeration/rectangle': 20, 'enumeration/bi-rectangle': 20,
            'enumeration/bi-zoned': 10, 'enumeration/near-square': 20,
            'direct/zones': 40, 'direct/bi-rectangular': 40, 'reorder': 20, 'mirror': 50, 'count': 200}
CHUNK = 4
ROUTINES = ['rectangle', 'bi-rectangle', 'bi-zoned', 'near-square', 'reorder',
            'rectangle', 'bi-rectangle', 'bi-zoned', 'count', 'zones',
           'bi-rectangular']


def plan(rng, tier):
    n = 5000 if tier == 'quick' else 6000
    cases = []
    for i in range(n):
        r = ROUTINES[i % len(ROUTINES)]
        c = {'routine': r, 'design': rng.random() < .4}
        if r == 'near-square':
            c['lower'] = rng.choice([1, 1, 1, 2, 3, 5])
            c['upper'] = c['lower'] + rng.randint(0, 9)
            c['b'] = round(rng.uniform(2., 9.), 2)
            c['more'] = rng.choice([0., .02, .3, .49, .51, .75, .98])
        elif r == 'zones':
            c.update(domref.land(rng), nx=rng.randint(3, 9),
                     ny=rng.randint(3, 9), transpose=rng.random() < .4)
        elif r == 'reorder':
            c['sizes'] = [rng.randint(1, 12)
                          for _ in range(rng.randint(1, 25))]
            if i % 200 < len(ROUTINES):
                c['sizes'] = [rng.randint(1, 4000) for _ in range(12)]
        elif r == 'count':
            c['b'] = [round(rng.uniform(.5, 12.), rng.choice([0, 1, 2, 3]))
                      or 1. for _ in range(20)]
            c['n'] = [rng.randint(1, 60) for _ in range(20)]
            c['part'] = [round(rng.uniform(.02, .98), 2) for _ in range(20)]
        else:
            for _ in range(50):
                c.update(domref.land(rng))
                if c06.possible(c):
                    break
            c['transpose'] = rng.random() < .4
        cases.append(c)
    for i in range(12 if tier == 'quick' else 60):
        c = {'routine': ['rectangle', 'near-square', 'bi-rectangle',
                         'rectangle', 'near-square', 'bi-zoned'][i % 6],
             'design': rng.random() < .4, 'transpose': False}
        if c['routine'] == 'near-square':
            c.update(lower=rng.choice([1, 1, 8]), upper=rng.randint(26, 60),
                     b=round(rng.uniform(2., 9.), 2), more=.3)
        else:
            c.update(domref.large(rng))
            if c['routine'] == 'bi-zoned':
                c['lx'], c['ly'] = c['lx'] / 2., c['ly'] / 2.
        cases.append(c)
    for i in range(2 if tier == 'quick' else 10):
        # many rows of few fields
        b = round(rng.uniform(2.5, 4.), 1)
        c = {'routine': 'bi-rectangle', 'design': i % 2 == 0,
             'transpose': False, 'large': True, 'b_min': b,
             'lx': round(b * (40.3 + rng.random() * .5), 1),
             'ly': round(b * (38. + rng.random()), 1),
             'bx': round(b * 1.06, 2), 'by': round(b * 19.7, 2)}
        if rng.random() < .5:
            c['lx'], c['ly'] = c['ly'], c['lx']
            c['bx'], c['by'] = c['by'], c['bx']
        cases.append(c)
    return cases


def run(c, m):
    r = c['routine']
    if r == 'reorder':
        return reorder(c, m)
    if r == 'count':
        return count(c, m)
    if r == 'near-square':
        return near_square(c, m)
    if r == 'zones':
        return zones(c, m)
    if not c06.possible(c):
        m.note('skipped: no whole number of boreholes')
        return
    if r == 'bi-rectangular':
        return bi_rectangular(c, m)
    domains = c06.fields_of(c, m)
    keys = [[domref.key(f) for f in dom] for dom in domains]
    for di, dom in enumerate(keys):
        size = [len(k) for k in dom]
        for a, z in zip(size, size[1:]):
            m.check('growth', z > a or (r == 'rectangle' and z >= a),
                    '{} boreholes after {} in domain {} of {}'.format(
                        z, a, di, c))
        m.check('duplicates', len(set(dom)) == len(dom),
                'domain {} of {} repeats a field'.format(di, c))
        m.check('first', size[0] == 1 or (r == 'bi-zoned' and di > 0),
                'domain {} of {} starts with {}'.format(di, c, size[0]))
    if len(domains) > 1:
        last = [len(d[-1]) for d in keys]
        m.check('outer-growth', all(a < b for a, b in zip(last, last[1:])),
                'the last fields have {} boreholes in {}'.format(last, c))
    # the same land turned by 90 degrees
    if c['lx'] != c['ly']:
        t = dict(c, lx=c['ly'], ly=c['lx'], bx=c['by'], by=c['bx'])
        if r == 'rectangle':
            t['bx'] = c['bx']
        other = [[domref.key(domref.swap(f)) for f in dom]
                 for dom in c06.fields_of(t, m)]
        m.check('mirror', domref.same(other, keys), 'turned land differs: {}'.format(c))
    if r == 'rectangle':
        want = domref.rectangular(c)
        if want is not None:
            same(c, m, r, [keys[0]], [want])
    elif r == 'bi-rectangle':
        want = domref.bi_nested(c)
        if want is not None:
            same(c, m, r, keys, want)
    else:
        want = domref.zoned_nested(c)
        if want is not None:
            m.check('enumeration/bi-zoned', len(want) == len(keys),
                    '{} domains instead of {} in {}'.format(
                        len(keys), len(want), c))
            for di, (w, k) in enumerate(zip(want, keys)):
                lead = k[:len(w['lead'])]
                m.check('enumeration/bi-zoned', domref.same(lead, w['lead']),
                        'lead-in of {}'.format(c))
                m.check('enumeration/bi-zoned', domref.same(k[-1], w['last']),
                        'densest field of domain {} of {}'.format(di, c))
                rest = k[len(w['lead']):]
                if w['fields'] is not None:
                    m.check('enumeration/bi-zoned', domref.same(rest, w['fields']),
                            'zoned fields {} of domain {} of {}'.format(
                                [len(x) for x in rest], di, c))
    m.seen(r, c['lx'] < c['ly'], [[len(f) for f in d][-3:] for d in keys][:8])
    m.note('fields', sum(len(d) for d in keys))
    m.sample = {'last fields': [len(d[-1]) for d in keys][:6]}


def same(c, m, r, keys, want):
    m.check('enumeration/' + r, domref.same(keys, want), lambda: 'boreholes per field '
            '{} instead of {} in {}'.format(
                [[len(f) for f in d] for d in keys][:3],
                [[len(f) for f in d] for d in want][:3], c))


def zones(c, m):
    """The zoned fields of given numbers of boreholes, called by itself."""
    f = m.call('zones', dt.domains.zoned_rectangle_domain, c['lx'], c['ly'],
               c['nx'], c['ny'], transpose=c['transpose'])
    keys = [domref.key(x) for x in f]
    want, first, last = domref.zones(c)
    if want is not None:
        m.check('direct/zones', domref.same(keys, want), lambda: 'boreholes '
                '{} instead of {} in {}'.format(
                    [len(x) for x in keys], [len(x) for x in want], c))
    m.check('direct/zones', domref.same(keys[0], first) and
            domref.same(keys[-1], last), 'first or densest field of {}'.format(
                c))
    m.check('growth', all(len(z) > len(a) for a, z in zip(keys, keys[1:])),
            'zones of {}'.format(c))
    m.check('duplicates', len(set(keys)) == len(keys), 'zones of {}'.format(c))
    m.seen('zones', c['lx'] < c['ly'], c['nx'], c['ny'], c['transpose'])


def bi_rectangular(c, m):
    f = m.call('bi-rectangular', dt.domains.bi_rectangular, c['lx'], c['ly'],
               c['b_min'], c['bx'], c['by'], transpose=c['transpose'])
    want = domref.bi_rectangular(c)
    if want is None:
        m.note('hinges on floating point error')
        return
    keys = [domref.key(x) for x in f]
    m.check('direct/bi-rectangular', domref.same(keys, want), lambda: 'bore'
            'holes {} instead of {} in {}'.format(
                [len(x) for x in keys], [len(x) for x in want], c))
    m.seen('bi-rectangular', c['lx'] < c['ly'], len(keys), c['transpose'])


def near_square(c, m):
    if c['lower'] == 1 and c['design']:
        n = c['upper']
        length = (n - 1) * c['b'] + c['more'] * c['b']
        d = m.call('design', c06.design, 'near-square', length=length, B=c['b'])
        dom = d.coordinates_domain
    else:
        dom = m.call('domain', dt.domains.square_and_near_square, c['lower'],
                     c['upper'], c['b'])
    want = []
    for i in range(c['lower'], c['upper'] + 1):
        want.append(domref.grid(i, i, c['b'], c['b']))
        want.append(domref.grid(i, i + 1, c['b'], c['b']))
    keys = [domref.key(f) for f in dom]
    want = [domref.key(f) for f in want]
    flip = [domref.key(domref.swap(f)) for f in want]
    m.check('enumeration/near-square',
            len(keys) == len(want) and all(
                domref.same(a, b) or domref.same(a, f) for a, b, f in zip(keys, want, flip)),
            'sizes {} instead of {}'.format([len(k) for k in keys],
                                            [len(k) for k in want]))
    m.check('first', len(keys[0]) == c['lower'] ** 2, 'first field')
    for a, z in zip(dom, dom[1:]):
        m.check('growth', len(z) > len(a), 'near-square')
    m.seen('near-square', c['lower'], c['upper'])


def reorder(c, m):
    # unique fields of given sizes
    fields = [[(float(i), float(j)) for j in range(n)]
              for i, n in enumerate(c['sizes'])]
    got = m.call('reorder', dt.domains.reorder_domain, list(fields))
    m.check('reorder', [len(f) for f in got] == sorted(c['sizes']),
            'sizes {} from {}'.format([len(f) for f in got], c['sizes']))
    m.check('reorder', {domref.key(f) for f in got} ==
            {domref.key(f) for f in fields} and len(got) == len(fields),
            'fields were lost or repeated: {}'.format(c['sizes']))
    temps = [float(x) for x in c['sizes']]
    d, uni = m.call('verify', dt.domains.verify_excess, temps)
    m.check('reorder', uni == all(b <= a for a, b in zip(temps, temps[1:]))
            and len(d) == len(temps) - 1, 'verify_excess of {}'.format(temps))
    m.seen('reorder', c['sizes'])


def count(c, m):
    import numpy as np
    u = dt.utilities
    for b, n, p in zip(c['b'], c['n'], c['part']):
        side = m.call('side', u.length_of_side, n, b)
        m.close('count', side, (n - 1) * b)
        if n > 1:
            m.close('count', m.call('spacing', u.spacing_along_length, side,
                                    n), b)
        for f in (np.ceil, np.floor):
            k = m.call('number', u.number_of_boreholes, side, b, func=f)
            m.check('count', k == n and isinstance(k, int),
                    '{} boreholes on {} at {}'.format(k, side, b))
        up = m.call('number', u.number_of_boreholes, side + p * b, b)
        dn = m.call('number', u.number_of_boreholes, side + p * b, b,
                    func=np.floor)
        m.check('count', (up, dn) == (n + 1, n),
                '{} {} boreholes on {} at {}'.format(up, dn, side + p * b, b))
    lx, ly = c['b'][0], c['b'][1]
    ox, oy = c['part'][0], c['part'][1]
    per = m.call('perimeter', u.make_rectangle_perimeter, lx, ly, (ox, oy))
    m.close('count', m.call('area', u.polygonal_area, per), lx * ly, rtol=1e-6)
    m.close('count', [list(p) for p in per],
            [[ox, oy], [ox + lx, oy], [ox + lx, oy + ly], [ox, oy + ly]])
    m.seen('count', c['n'][:4])
