"""Land fit and spacing limits of every field a design may choose."""
import math
import numpy as np
from scipy.spatial import cKDTree
from ..target import dt
from .. import gen, domref

PROPERTY = 'C06'
RULE = ('Seeded land sizes (wide and deep, narrow, multiples of the spacing) '
        'and spacing limits, through the domain functions and through the '
        'design interface. Every borehole of every candidate field is judged: '
        'inside the land, not closer than the minimum spacing, rows not wider '
        'than the maximum. Distinct by routine, orientation and number of '
        'fields.')
ASSUMPTIONS = [
    'Spacing limits that leave no whole number of boreholes on a side are '
    'outside of the property (zoned fields need three on each side).',
    'Lengths are compared with a tolerance of 1e-6 m.']
REQUIRED = {'land': 400, 'min-spacing': 400, 'max-spacing': 300,
            'near-square': 20}
CHUNK = 4
EPS = 1e-6
ROUTINES = ['rectangle', 'bi-rectangle', 'bi-zoned', 'near-square', 'rectangle',
            'bi-rectangle', 'bi-zoned']


def plan(rng, tier):
    n = 4000 if tier == 'quick' else 6000
    cases = [{'routine': 'near-square', 'length': 10., 'b': 5.},
             {'routine': 'near-square', 'length': 12., 'b': 5.}]
    for i in range(n):
        r = ROUTINES[i % len(ROUTINES)]
        c = {'routine': r, 'design': rng.random() < .5}
        if r == 'near-square':
            b = round(rng.uniform(2.5, 9.), rng.choice([0, 1, 2]))
            c['b'] = b
            c['length'] = round(b * rng.randint(1, 9), 6) \
                if rng.random() < .5 else round(rng.uniform(1., 60.), 1)
        else:
            c.update(domref.land(rng))
            if r == 'bi-zoned':
                c['lx'] = max(c['lx'], round(2.2 * c['b_min'], 2))
                c['ly'] = max(c['ly'], round(2.2 * c['b_min'], 2))
                c['bx'] = min(c['bx'], round(c['lx'] / 2., 2))
                c['by'] = min(c['by'], round(c['ly'] / 2., 2))
                if c['bx'] < c['b_min'] or c['by'] < c['b_min']:
                    c['bx'], c['by'] = c['b_min'] * 1.2, c['b_min'] * 1.2
        cases.append(c)
    for i in range(8 if tier == 'quick' else 40):
        c = {'routine': ['rectangle', 'bi-rectangle', 'near-square',
                         'rectangle'][i % 4], 'design': rng.random() < .5}
        if c['routine'] == 'near-square':
            c['b'] = round(rng.uniform(2.5, 9.), 1)
            c['length'] = round(c['b'] * rng.uniform(26.1, 50.4), 1)
        else:
            c.update(domref.large(rng))
        cases.append(c)
    return cases


_objects = {}


def design(routine, **constraints):
    if not _objects:
        b = gen.build({
            'kind': 'single', 'H': 100., 'D': 2., 'r_b': .075,
            'fluid': ['Water', 0.], 'soil': [2., 2.3e6, 15.],
            'grout': [1., 3.9e6], 'eps': 1e-6, 'pipe_rhoCp': 1.5e6, 'V': .2,
            'pipe_k': .4, 's': .032, 'r_in': .0108, 'r_out': .0133})
        _objects['b'] = b
    b = _objects['b']
    gc = dt.media.GeometricConstraints(**constraints)
    return dt.design.Design(
        .2, b.borehole, b.cls, b.fluid, b.pipe, b.grout, b.soil,
        gen.sim(1, 12), gc, [0.] * 8760, routine=routine)


def fields_of(c, m):
    r = c['routine']
    if r == 'near-square':
        d = m.call('design', design, r, length=c['length'], B=c['b'])
        return [d.coordinates_domain]
    lim = (c['lx'], c['ly'], c['b_min'], c['bx'], c['by'])
    if c['design']:
        d = m.call('design', design, r, length=c['lx'], width=c['ly'],
                   B_min=c['b_min'], B_max_x=c['bx'], B_max_y=c['by'])
        return [d.coordinates_domain] if r == 'rectangle' else \
            d.coordinates_domain_nested
    f = {'rectangle': lambda: [dt.domains.rectangular(*lim[:4])],
         'bi-rectangle': lambda: dt.domains.bi_rectangle_nested(*lim),
         'bi-zoned': lambda: dt.domains.bi_rectangle_zoned_nested(*lim)}[r]
    return m.call(r, f)


def possible(c):
    """A whole number of boreholes fits between the limits on each side."""
    def n(length, b_max):
        return (math.ceil(length / b_max - 1e-7) + 1,
                math.floor(length / c['b_min'] - 1e-7) + 1)
    r = c['routine']
    if r == 'rectangle':
        lo, hi = n(max(c['lx'], c['ly']), c['bx'])
        return 2 <= lo <= hi
    sides = [n(c['lx'], c['bx']), n(c['ly'], c['by'])]
    need = 3 if r == 'bi-zoned' else 2
    return all(need <= lo <= hi for lo, hi in sides)


def run(c, m):
    r = c['routine']
    if r != 'near-square' and not possible(c):
        m.note('skipped: no whole number of boreholes')
        return
    domains = fields_of(c, m)
    if r == 'near-square':
        near_square(c, m, domains[0])
        return
    nested = len(domains)
    m.check('fields', nested > 0 and all(len(d) > 0 for d in domains),
            'empty domain for {}'.format(c))
    for di, dom in enumerate(domains):
        # every field of small domains, otherwise the ends and a sample
        idx = range(len(dom)) if len(dom) <= 40 else \
            sorted({0, 1, 2, len(dom) - 1, len(dom) - 2} |
                   set(range(0, len(dom), max(1, len(dom) // 30))))
        for k in idx:
            judge(c, m, dom[k], (di, k))
    m.seen(r, c['lx'] < c['ly'], nested, [len(d) for d in domains][:6])
    m.note('fields', sum(len(d) for d in domains))
    m.sample = {'domains': nested, 'largest': max(len(d[-1]) for d in domains)}


def judge(c, m, field, where):
    a = np.array(field, dtype=float)
    m.check('land', a.shape[0] > 0 and a.shape[1] == 2 and
            a.min() >= -EPS and a[:, 0].max() <= c['lx'] + EPS and
            a[:, 1].max() <= c['ly'] + EPS,
            lambda: 'field {} spans x {}..{} y {}..{} on land {}'.format(
                where, a[:, 0].min(), a[:, 0].max(), a[:, 1].min(),
                a[:, 1].max(), c))
    if len(a) < 2:
        return
    d, _ = cKDTree(a).query(a, k=2)
    m.check('min-spacing', d[:, 1].min() >= c['b_min'] - EPS,
            lambda: 'field {}: boreholes {} m apart, {}'.format(
                where, d[:, 1].min(), c))
    # the spacing along the outer row and column respects the maxima
    limits = {'rectangle': (c['bx'], c['bx'])}.get(
        c['routine'], (c['bx'], c['by']))
    for axis in (0, 1):
        other = a[:, 1 - axis]
        line = np.sort(a[np.abs(other - other.min()) < EPS][:, axis])
        if len(line) > 1:
            gap = np.diff(line).max()
            m.check('max-spacing', gap <= limits[axis] + EPS,
                    lambda: 'field {} axis {}: gap {} in {}'.format(
                        where, axis, gap, c))


def near_square(c, m, dom):
    b, length = c['b'], c['length']
    n = math.floor(round(length / b, 9)) + 1
    for k, field in enumerate(dom):
        a = np.array(field, dtype=float)
        over = max(a.max() - length, 0.)
        last = k == len(dom) - 1 and len(a) == n * (n + 1)
        # The last field of the domain has one row too many
        key = 'near-square-last-row' if last and over <= b + EPS and \
            a[:, 0].max() <= length + EPS else None
        m.check('near-square', over <= EPS and a.min() >= -EPS,
                lambda: 'near-square field {} of {} reaches {} on {}'.format(
                    k, len(dom), a.max(), c), key)
        if len(a) > 1:
            d, _ = cKDTree(a).query(a, k=2)
            m.close('near-square-spacing', d[:, 1], np.full(len(a), b),
                    rtol=1e-9)
    m.seen('near-square', n, len(dom))
