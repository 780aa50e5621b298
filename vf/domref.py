"""Land generators and an independent enumeration of the design domains."""
import math

import numpy as np
from scipy.spatial import cKDTree

EPS = 1e-6


def land(rng, big=False):
    """Land and spacing limits; x and y are exchanged in half of the cases."""
    style = rng.random()
    if style < .25:      # lengths that are multiples of the spacings
        b_min = rng.choice([2.5, 3., 4., 4.5, 5., 3.2])
        lx = b_min * rng.randint(2, 24 if big else 14)
        ly = b_min * rng.randint(1, 12)
        bx = b_min * rng.choice([1., 1.25, 1.5, 2., 3.])
        by = b_min * rng.choice([1., 1.25, 1.5, 2., 3.])
    else:
        b_min = round(rng.uniform(2., 7.), rng.choice([0, 1, 2]))
        lx = round(rng.uniform(8., 120. if big else 70.), rng.choice([0, 1, 2]))
        ly = round(rng.uniform(3. if style < .4 else 8., 70.),
                   rng.choice([0, 1, 2]))
        bx = round(b_min + rng.uniform(0., 9.), rng.choice([1, 2]))
        by = round(b_min + rng.uniform(0., 9.), rng.choice([1, 2]))
        bx, by = max(bx, b_min), max(by, b_min)
    if rng.random() < .5:
        lx, ly = ly, lx
    if rng.random() < .08:
        ly = lx
    return {'lx': lx, 'ly': ly, 'b_min': b_min, 'bx': bx, 'by': by}


def large(rng):
    """Land for some thousand boreholes and a narrow range of spacings, which
    keeps the number of rows small."""
    b = round(rng.uniform(2.5, 6.), 1)
    n, k = rng.randint(26, 75), rng.randint(12, 60)
    c = {'lx': round((n + rng.random()) * b, 1),
         'ly': round((k + rng.random()) * b, 1), 'b_min': b,
         'bx': round(b * rng.uniform(1.05, 1.25), 2),
         'by': round(b * rng.uniform(1.05, 1.25), 2), 'large': True}
    if rng.random() < .5:
        c['lx'], c['ly'] = c['ly'], c['lx']
    return c


def _int_or_clear(v):
    """The number of spacings is exactly an integer, or clearly is not."""
    return abs(v - round(v)) > 1e-6 or v == round(v)


def counts(length, b_min, b_max):
    """Smallest and largest number of boreholes on a side, None if unclear."""
    a, z = length / b_max, length / b_min
    if not (_int_or_clear(a) and _int_or_clear(z)):
        return None
    return math.ceil(a) + 1, math.floor(z) + 1


def rows_at(length, b):
    v = length / b
    if abs(v - round(v)) < 1e-6:
        return None if v != round(v) else int(round(v)) + 1
    return math.floor(v) + 1


def grid(n1, n2, b1, b2):
    return {(i * b1, j * b2) for i in range(n1) for j in range(n2)}


def swap(points):
    return {(y, x) for x, y in points}


def key(points):
    return frozenset((round(float(x), 5) + 0., round(float(y), 5) + 0.)
                     for x, y in points)


def same(a, b):
    """Equal fields (or nested lists of fields), whatever side of a rounding
    boundary a coordinate fell on."""
    if a == b:
        return True
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, list) or isinstance(b, list) or len(a) != len(b):
        return False
    one, two = np.array(sorted(a - b)), np.array(sorted(b - a))
    if len(one) != len(two):
        return False
    d, i = cKDTree(two).query(one)
    return d.max() < 5e-5 and len(set(i.tolist())) == len(i)


def rectangular(c):
    """Enumeration by the description in CHANGELOG (issues 10 and 17)."""
    t = c['lx'] < c['ly']
    l1, l2 = (c['ly'], c['lx']) if t else (c['lx'], c['ly'])
    n = counts(l1, c['b_min'], c['bx'])
    if n is None or n[0] > n[1] or n[0] < 2:
        return None
    out, last = [], None
    for k in range(n[0], n[1] + 1):
        b = l1 / (k - 1)
        rows = rows_at(l2, b)
        if rows is None:
            return None
        if k == n[0]:
            out += [grid(i, 1, b, b) for i in range(1, k)]
            out += [grid(k, j, b, b) for j in range(1, rows)]
        if rows != last:
            out.append(grid(k, rows, b, b))
            last = rows
    return [key(swap(f) if t else f) for f in out]


def bi_nested(c):
    t = c['lx'] < c['ly']
    l1, l2, m1, m2 = (c['ly'], c['lx'], c['by'], c['bx']) if t else \
        (c['lx'], c['ly'], c['bx'], c['by'])
    n, r = counts(l1, c['b_min'], m1), counts(l2, c['b_min'], m2)
    if n is None or r is None or n[0] > n[1] or r[0] > r[1]:
        return None
    out = []
    for n2 in range(r[0], r[1] + 1):
        b2 = l2 / (n2 - 1)
        b1 = l1 / (n[0] - 1)
        d = [grid(i, 1, b1, b2) for i in range(1, n[0])]
        d += [grid(n[0], j, b1, b2) for j in range(1, n2)]
        d += [grid(k, n2, l1 / (k - 1), b2) for k in range(n[0], n[1] + 1)]
        out.append([key(swap(f) if t else f) for f in d])
    return out


def bi_rectangular(c):
    """Rows at the least number on the short side; the long side is along x."""
    l1, l2, m1, m2 = (c['ly'], c['lx'], c['by'], c['bx']) \
        if c['lx'] < c['ly'] else (c['lx'], c['ly'], c['bx'], c['by'])
    n, r = counts(l1, c['b_min'], m1), counts(l2, c['b_min'], m2)
    if n is None or r is None or n[0] > n[1] or r[0] > r[1]:
        return None
    n2 = r[0]
    b2, b1 = l2 / (n2 - 1), l1 / (n[0] - 1)
    d = [grid(i, 1, b1, b2) for i in range(1, n[0])]
    d += [grid(n[0], j, b1, b2) for j in range(1, n2)]
    d += [grid(k, n2, l1 / (k - 1), b2) for k in range(n[0], n[1] + 1)]
    return [key(swap(f) if c['transpose'] else f) for f in d]


def zones(c):
    """-> (fields or None, densest field) of zoned_rectangle_domain."""
    l1, l2, n1, n2 = (c['ly'], c['lx'], c['ny'], c['nx']) \
        if c['lx'] < c['ly'] else (c['lx'], c['ly'], c['nx'], c['ny'])
    b1, b2 = l1 / (n1 - 1), l2 / (n2 - 1)

    def k(i, j):
        f = zoned(n1, n2, b1, b2, i, j)
        return key(swap(f) if c['transpose'] else f)
    steps = zoned_steps(l1, l2, n1, n2)
    return None if steps is None else [k(i, j) for i, j in steps], \
        k(1, 1), k(n1 - 2, n2 - 2)


def perimeter(n1, n2, b1, b2):
    return {(i * b1, j * b2) for i in range(n1) for j in range(n2)
            if i in (0, n1 - 1) or j in (0, n2 - 1)}


def zoned(n1, n2, b1, b2, i1, i2):
    w1, w2 = (n1 - 1) * b1 / (i1 + 1), (n2 - 1) * b2 / (i2 + 1)
    return perimeter(n1, n2, b1, b2) | {
        ((i + 1) * w1, (j + 1) * w2) for i in range(i1) for j in range(i2)}


def zoned_steps(l1, l2, n1, n2):
    """Interior counts from 1 by 1; None where the rule is a tie."""
    b1, b2 = l1 / (n1 - 1), l2 / (n2 - 1)
    i1 = i2 = 1
    steps = [(1, 1)]
    while i1 < n1 - 2 or i2 < n2 - 2:
        # the direction that keeps the interior furthest from the perimeter
        ratio = (l1 / (i1 + 1)) / (l2 / (i2 + 2))
        if abs(ratio - b1 / b2) < 1e-9 * ratio:
            return None
        if ratio > b1 / b2:
            i1 += 1
        else:
            i2 += 1
        steps.append((i1, i2))
    return steps


def zoned_nested(c):
    """-> list of (lead-in fields, n1, n2, steps or None) per nested domain."""
    t = c['lx'] < c['ly']
    l1, l2, m1, m2 = (c['ly'], c['lx'], c['by'], c['bx']) if t else \
        (c['lx'], c['ly'], c['bx'], c['by'])
    n, r = counts(l1, c['b_min'], m1), counts(l2, c['b_min'], m2)
    if n is None or r is None or n[0] > n[1] or r[0] > r[1] or \
            n[0] < 3 or r[0] < 3:
        return None
    path = [(n[0], r[0])]
    turn = 0
    while path[-1] != (n[1], r[1]):
        a, b = path[-1]
        first = (turn % 2 == 0 and a < n[1]) or b == r[1]
        path.append((a + 1, b) if first else (a, b + 1))
        turn += 1
    a, b = n[0], r[0]
    b1, b2 = l1 / (a - 1), l2 / (b - 1)
    row = {(i * b1, 0.) for i in range(a)}
    left = [{(0., j * b2) for j in range(k)} for k in range(b + 1)]
    right = [{((a - 1) * b1, j * b2) for j in range(k)} for k in range(b + 1)]
    lead = [{(i * b1, 0.) for i in range(k)} for k in range(1, a + 1)]
    lead += [row | left[k] for k in range(2, b + 1)]
    lead += [row | left[b] | right[k] for k in range(2, b + 1)]
    lead += [row | left[b] | right[b] |
             {(i * b1, (b - 1) * b2) for i in range(1, k + 1)}
             for k in range(1, a - 1)]
    out = []
    for n1, n2 in path:
        steps = zoned_steps(l1, l2, n1, n2)
        d = {'n': (n1, n2), 'lead': [], 'fields': None}
        if (n1, n2) == path[0]:
            d['lead'] = [key(swap(f) if t else f) for f in lead]
        if steps is not None:
            d['fields'] = [key(swap(f) if t else f) for f in (
                zoned(n1, n2, l1 / (n1 - 1), l2 / (n2 - 1), i, j)
                for i, j in steps)]
        last = zoned(n1, n2, l1 / (n1 - 1), l2 / (n2 - 1), n1 - 2, n2 - 2)
        d['last'] = key(swap(last) if t else last)
        out.append(d)
    return out
