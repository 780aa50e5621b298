"""Drilling zones: which boreholes survive property lines and buildings."""
import math
import numpy as np
from scipy.spatial import cKDTree
from ..target import dt
from .. import domref

PROPERTY = 'C08'
RULE = ('Seeded polygons (convex, star shaped, combs, axis-parallel, either '
        'orientation, with and without buildings) and boreholes inside, '
        'outside, near and exactly on the outline. Kept boreholes are compared '
        'with a winding-number test written for this check. Distinct by '
        'polygon class, options and numbers kept and removed.')
ASSUMPTIONS = [
    'Coordinates are resolved to 1e-4 m: boreholes nearer than 5e-4 m to an '
    'outline they are not exactly on are not judged.']
REQUIRED = {'kept': 200, 'order': 200, 'land/inside': 30, 'land/complete': 20, 'land/between': 100,
            'on-contour': 30, 'land/wall': 200, 'land/on-wall': 200,
            'land/on-property-line': 200}
CHUNK = 8
BAND = 5e-4


def polygon(rng, cx, cy, size, exact=False):
    kind = rng.choice(['rect', 'convex', 'star', 'comb', 'L', 'triangle'])
    if kind == 'rect':
        w, h = size * rng.uniform(.3, 1.), size * rng.uniform(.3, 1.)
        p = [(cx - w, cy - h), (cx + w, cy - h), (cx + w, cy + h),
             (cx - w, cy + h)]
    elif kind == 'L':
        s, t = size, size * rng.uniform(.2, .7)
        p = [(cx - s, cy - s), (cx + s, cy - s), (cx + s, cy - s + t),
             (cx - s + t, cy - s + t), (cx - s + t, cy + s), (cx - s, cy + s)]
    elif kind == 'comb':
        teeth = rng.randint(2, 4)
        w = 2. * size / (2 * teeth - 1)
        p = [(cx - size, cy - size), (cx + size, cy - size)]
        for k in range(teeth):
            x1 = cx + size - 2 * k * w
            p += [(x1, cy + size), (x1 - w, cy + size)]
            if k < teeth - 1:
                p += [(x1 - w, cy), (x1 - 2 * w, cy)]
    else:
        n = {'triangle': 3}.get(kind, rng.randint(4, 9) if rng.random() < .9
                                else rng.randint(20, 150))
        ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        if kind == 'triangle':
            ang = [rng.uniform(0, 2) + 2 * math.pi * k / 3 for k in range(3)]
        r = [size * (rng.uniform(.35, 1.) if kind == 'star' else 1.)
             for _ in ang]
        p = [(cx + q * math.cos(a), cy + q * math.sin(a))
             for q, a in zip(r, ang)]
    d = 0 if exact else rng.choice([1, 2, 4])
    p = [[round(x, d), round(y, d)] for x, y in p]
    q = [p[0]]
    for v in p[1:]:
        if v != q[-1]:
            q.append(v)
    if q[-1] == q[0]:
        q.pop()
    if rng.random() < .5:
        q.reverse()
    k = rng.randrange(len(q))
    q = q[k:] + q[:k]
    if rng.random() < .3:
        q.append(list(q[0]))  # a closed outline
    return kind, q


def plan(rng, tier):
    n = 3000 if tier == 'quick' else 8000
    cases = []
    while len(cases) < n:
        i = len(cases)
        if i % 3 < 2:
            exact = rng.random() < .4
            neg = rng.random() < .2
            size = rng.uniform(6., 40.)
            off = 0. if neg else size + 1.
            kind, poly = polygon(rng, off + rng.uniform(0, 20),
                                 off + rng.uniform(0, 20), size, exact)
            if len(poly) < 3 or abs(area(poly)) < 4.:
                continue
            lo = np.min(poly, axis=0) - 3
            hi = np.max(poly, axis=0) + 3
            pts = [[rng.uniform(lo[0], hi[0]), rng.uniform(lo[1], hi[1])]
                   for _ in range(rng.choice([0, 1, 5, 40, 150] +
                                       [1200] * (i % 30 == 0))
                                   if i % 600 != 300 else 12000)]
            pts = [[round(x, 3), round(y, 3)] for x, y in pts]
            for _ in range(20):
                k = rng.randrange(len(poly))
                a, b = poly[k], poly[(k + 1) % len(poly)]
                if exact and (a[0] == b[0] or a[1] == b[1]) and \
                        rng.random() < .6:
                    # exactly on an axis-parallel edge or on a corner
                    t = rng.choice([0., .5, .25])
                    pts.append([a[0] + t * (b[0] - a[0]),
                                a[1] + t * (b[1] - a[1])])
                elif rng.random() < .3:
                    # close to an edge
                    t = rng.random()
                    pts.append([round(a[0] + t * (b[0] - a[0]) +
                                      rng.choice([-1, 1]) * 2e-3, 4),
                                round(a[1] + t * (b[1] - a[1]) +
                                      rng.choice([-1, 1]) * 2e-3, 4)])
            rng.shuffle(pts)
            if i % 15 == 7:
                # coordinates of a map projection
                x0, y0 = [rng.choice([rng.randrange(200000, 900000),
                                      rng.randrange(1000000, 6000000),
                                      -rng.randrange(300000, 800000)])
                          for _ in range(2)]
                poly = [[x + x0, y + y0] for x, y in poly]
                pts = [[x + x0, y + y0] for x, y in pts]
                kind += ' far'
            cases.append({'what': 'cut', 'kind': kind, 'poly': poly,
                          'pts': pts, 'exact': exact,
                          'inside': rng.random() < .5,
                          'contour': rng.random() < .5})
        else:
            if rng.random() < .3:
                cases.append(exact_land(rng))
                continue
            size = rng.uniform(14., 32.)
            kind, poly = polygon(rng, size + rng.uniform(0, 4.),
                                 size + rng.uniform(0, 4.), size)
            if len(poly) < 3 or abs(area(poly)) < 100. or \
                    min(map(min, poly)) < 0.:
                continue
            b_min = round(rng.uniform(3., 5.5), 1)
            c = {'what': 'land', 'kind': kind, 'poly': poly, 'b_min': b_min,
                 'bx': round(b_min + rng.uniform(1.5, 6.), 1),
                 'by': round(b_min + rng.uniform(1.5, 6.), 1),
                 'building': None}
            if rng.random() < .6:
                c['building'] = polygon(
                    rng, size * rng.uniform(.6, 1.4),
                    size * rng.uniform(.6, 1.4), size * rng.uniform(.15, .5)
                )[1]
                if len(c['building']) < 3 or abs(area(c['building'])) < 2. \
                        or min(map(min, c['building'])) < 0.:
                    c['building'] = None
            cases.append(c)
    return cases


def exact_land(rng):
    """Outlines along axes, at places where boreholes may be put."""
    lx, ly = rng.choice([24, 36, 48, 60]), rng.choice([24, 36, 48])
    step = 12

    def multiple(top, low=0):
        return step // 2 * rng.randint(low, 2 * top // step - 1)
    kind = rng.choice(['rect', 'rect', 'L', 'notch'])
    poly = [[0, 0], [lx, 0], [lx, ly], [0, ly]]
    a, b = multiple(lx, 1), multiple(ly, 1)
    if kind == 'L':
        poly = [[0, 0], [lx, 0], [lx, b], [a, b], [a, ly], [0, ly]]
    elif kind == 'notch':
        a = min(a, lx - 12)
        poly = [[0, 0], [lx, 0], [lx, ly], [a + 6, ly], [a + 6, b], [a, b],
                [a, ly], [0, ly]]
    bld = None
    if rng.random() < .8:
        x, y = multiple(lx), multiple(ly)
        bld = [[x, y], [min(x + multiple(24, 1), lx), y]]
        h = y + multiple(24, 1)
        bld += [[bld[1][0], h], [x, h]]
        if x == bld[1][0]:
            bld = None
    for p in (poly, bld or []):
        if rng.random() < .5:
            p.reverse()
        if p and rng.random() < .3:
            p.append(list(p[0]))
    b_min = rng.choice([3., 4., 6., 4.5])
    return {'what': 'land', 'kind': kind, 'poly': poly, 'exact': True,
            'b_min': b_min, 'bx': b_min + rng.choice([2., 4., 6.]),
            'by': b_min + rng.choice([2., 4., 6.]), 'building': bld}


def area(p):
    return .5 * sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1]
                    for i in range(len(p)))


def where(poly, pts):
    """-> (inside, distance to the outline) by ray crossing."""
    pts = np.asarray(pts, dtype=float).reshape(-1, 2)
    x, y = pts[:, 0], pts[:, 1]
    inside = np.zeros(len(pts), dtype=bool)
    dist = np.full(len(pts), np.inf)
    for i in range(len(poly)):
        (x1, y1), (x2, y2) = poly[i - 1], poly[i]
        if (x1, y1) == (x2, y2):
            continue
        cross = (y1 > y) != (y2 > y)
        with np.errstate(divide='ignore', invalid='ignore'):
            xi = x1 + (y - y1) * (x2 - x1) / (y2 - y1)
        inside ^= cross & (x < xi)
        dx, dy = x2 - x1, y2 - y1
        t = np.clip(((x - x1) * dx + (y - y1) * dy) / (dx * dx + dy * dy), 0, 1)
        dist = np.minimum(dist, np.hypot(x - x1 - t * dx, y - y1 - t * dy))
    return inside, dist


def verdicts(poly, pts, remove_inside, keep_contour, exact):
    """True: kept, False: removed, None: not judged."""
    inside, dist = where(poly, pts)
    out = []
    for i, d in zip(inside, dist):
        if exact and d < 1e-9:
            out.append(keep_contour)
        elif d < BAND:
            out.append(None)
        else:
            out.append(bool(i) != remove_inside)
    return out


def run(c, m):
    if c['what'] == 'cut':
        cut(c, m)
    else:
        land(c, m)


def match(got, pts):
    """Indices of the points returned, in order; None for a foreign point."""
    idx, start = [], 0
    for g in got:
        for k in range(start, len(pts)):
            if abs(g[0] - pts[k][0]) < 1e-8 and abs(g[1] - pts[k][1]) < 1e-8:
                idx.append(k)
                start = k + 1
                break
        else:
            return None
    return idx


def cut(c, m):
    pts = [tuple(p) for p in c['pts']]
    before = list(pts)
    poly = [list(p) for p in c['poly']]
    got = m.call('remove_cutout', dt.feature_recognition.remove_cutout, pts,
                 boundary=poly, remove_inside=c['inside'],
                 keep_contour=c['contour'])
    m.check('inputs', pts == before and poly == c['poly'], 'inputs changed')
    idx = match(got, pts)
    if not m.check('order', idx is not None,
                   'a borehole was moved, reordered or invented'):
        return
    want = verdicts(c['poly'], pts, c['inside'], c['contour'], c['exact'])
    kept = set(idx)
    for k, w in enumerate(want):
        if w is None:
            m.note('near the outline, not judged')
            continue
        m.check('kept', (k in kept) == w, lambda: 'borehole {} {} {} polygon '
                '{} (remove inside {}, keep contour {})'.format(
                    pts[k], 'kept' if k in kept else 'removed', 'for', poly,
                    c['inside'], c['contour']))
    if c['exact']:
        _, d = where(c['poly'], pts)
        m.counts['on-contour'] += int((d == 0.).sum())
    none = m.call('no boundary', dt.feature_recognition.remove_cutout, pts,
                  remove_inside=True)
    m.check('no-boundary', match(none, pts) == list(range(len(pts))),
            'boreholes removed although there is no boundary')
    m.seen(c['kind'], c['inside'], c['contour'], len(kept), len(pts))


def between(f, sure, may):
    """All of the sure boreholes and none but the possible ones."""
    if not len(sure) <= len(f) <= len(may):
        return False
    a = np.array(f)
    d, _ = cKDTree(np.array(sorted(may))).query(a)
    if d.max() > 5e-5:
        return False
    return not sure or cKDTree(a).query(np.array(sorted(sure)))[0].max() < 5e-5


def land(c, m):
    lim = (c['b_min'], c['bx'], c['by'])
    poly = [list(p) for p in c['poly']]
    bld = [list(p) for p in c['building']] if c['building'] else None
    if bld is None:
        dom = m.call('land', dt.domains.polygonal_land_constraint, poly, *lim)
    else:
        dom = m.call('land', dt.domains.polygonal_land_constraint, poly, *lim,
                     building_description=bld)
    m.check('inputs', poly == c['poly'] and bld == c['building'],
            'inputs changed')
    for d in dom:
        for f in d if c.get('exact') and bld else ():
            m.check('land/wall', bool(np.all(
                where(c['building'], f)[1] > 1e-9)),
                'a borehole on the outline of the building')
        m.check('land/nonempty', len(d) > 0, 'an empty domain')
        n = [len(f) for f in d]
        m.check('land/growth', n == sorted(n) and n[0] > 0,
                'boreholes per field {}'.format(n))
        for f in d:
            ins, dist = where(c['poly'], f)
            m.check('land/inside', bool(np.all(ins | (dist < BAND))),
                    lambda: 'borehole {} outside of the property'.format(
                        [p for p, i, q in zip(f, ins, dist)
                         if not i and q >= BAND][:2]))
            if bld:
                ins, dist = where(c['building'], f)
                m.check('land/building', bool(np.all(~ins | (dist < BAND))),
                        lambda: 'borehole {} below the building'.format(
                            [p for p, i, q in zip(f, ins, dist)
                             if i and q >= BAND][:2]))
    # completeness: what the outlines do not remove must be offered
    lx, ly = max(p[0] for p in c['poly']), max(p[1] for p in c['poly'])
    ref = domref.bi_nested({'lx': lx, 'ly': ly, 'b_min': c['b_min'],
                            'bx': c['bx'], 'by': c['by']})
    if ref is None:
        m.note('no reference for this land')
        return
    want = []
    for d in ref:
        fields = []
        for f in d:
            pts = sorted(f)
            exact = c.get('exact', False)
            a = verdicts(c['poly'], pts, False, True, exact)
            b = verdicts(c['building'], pts, True, False, exact) if bld else \
                [True] * len(pts)
            if exact and len(pts):
                m.counts['land/on-property-line'] += int(
                    (where(c['poly'], pts)[1] < 1e-9).sum())
                m.counts['land/on-wall'] += int(
                    (where(c['building'], pts)[1] < 1e-9).sum()) if bld else 0
            sure = frozenset(p for p, u, v in zip(pts, a, b)
                             if u is True and v is True)
            may = frozenset(p for p, u, v in zip(pts, a, b)
                            if u is not False and v is not False)
            fields.append((sure, may))
        want.append(fields)
    clear = all(s == y for d in want for s, y in d)
    if clear:
        exp = [sorted((len(s) for s, _ in d if s)) for d in want]
        exp = [e for e in exp if e]
        got = [[len(f) for f in d] for d in dom]
        m.check('land/complete', got == exp, lambda: 'boreholes per field {} '
                'instead of {}'.format(got[:3], exp[:3]))
        if got == exp:
            ref_f = [[s for s, _ in d if s] for d in want]
            ref_f = [sorted(d, key=len) for d in ref_f if d]
            keys = [[domref.key(f) for f in d] for d in dom]
            for a, b in zip(keys, ref_f):
                left = list(b)
                for k in a:
                    for j, s in enumerate(left):
                        if len(s) == len(k) and domref.same(k, s):
                            del left[j]
                            break
                    else:
                        m.check('land/complete', False,
                                'a field with {} boreholes is not the land '
                                'without its cut-outs'.format(len(k)))
    else:
        m.note('a borehole lies on an outline')
        for d in dom:
            for f in d:
                m.check('land/between', any(between(f, s, y)
                                            for w in want for s, y in w),
                        lambda: 'a field with {} boreholes is not the land '
                        'without its cut-outs'.format(len(f)))
    m.seen('land', c['kind'], bool(bld), [len(d[-1]) for d in dom][:5])
    m.sample = {'fields': [[len(f) for f in d][-3:] for d in dom][:3]}
