"""Borefield shapes: the set of boreholes against set-based definitions."""
import random
import numpy as np
from ..target import dt
from .. import domref

PROPERTY = 'C05'
RULE = ('Seeded shapes (rectangle, open rectangle, L, U, lop-sided U, C, zoned '
        'rectangle, transposes) with 1 to 25 boreholes per side, spacings and '
        'origins; a case is distinct by shape and numbers of boreholes. The '
        'set of boreholes is compared with a definition by lattice points.')
ASSUMPTIONS = ['Coordinates are compared after rounding to 1e-6 m.']
REQUIRED = {'set': 300, 'distinct': 300, 'count': 300, 'spacing': 200,
            'rejected': 10, 'transpose': 100}
CHUNK = 50

SHAPES = ['rectangle', 'rectangle_origin', 'open', 'L', 'U', 'lop', 'C',
          'zoned', 'zoned_bad']


def plan(rng, tier):
    n = 40000 if tier == 'quick' else 60000
    cases = []
    for i in range(n):
        s = SHAPES[i % len(SHAPES)]
        big = rng.random() < .3
        top = 25 if big else 6
        if i % 500 < len(SHAPES):
            top = 70
        nx, ny = rng.randint(1, top), rng.randint(1, top)
        bx = round(rng.uniform(.5, 12.), rng.choice([0, 1, 3])) or 5.
        by = bx if rng.random() < .3 else \
            round(rng.uniform(.5, 12.), rng.choice([0, 1, 3])) or 4.
        c = {'shape': s, 'nx': nx, 'ny': ny, 'bx': bx, 'by': by}
        if s == 'rectangle_origin':
            c['o'] = [round(rng.uniform(-20, 20), 2),
                      round(rng.uniform(-20, 20), 2)]
        if s == 'lop':
            c['nx'] = rng.randint(2, top)
            c['ny2'] = rng.randint(1, top)
        if s == 'C':
            c['nx'] = rng.randint(3, max(top, 3))
            c['ny'] = rng.randint(2, max(top, 2))
            c['nx2'] = rng.randint(1, c['nx'] - 2)
        if s.startswith('zoned'):
            c['nx'] = rng.randint(3, max(top, 3))
            c['ny'] = rng.randint(3, max(top, 3))
            c['nix'] = rng.randint(1, c['nx'] - 2)
            c['niy'] = rng.randint(1, c['ny'] - 2)
            if rng.random() < .2:
                c['nix'] = c['nx'] - 2
            if s == 'zoned_bad':
                k = rng.choice(['nix', 'niy'])
                c[k] = c['n' + k[-1]] - 2 + rng.randint(1, 3)
        cases.append(c)
    return cases


def key(points):
    return {(round(float(x), 6) + 0., round(float(y), 6) + 0.)
            for x, y in points}


def expected(c):
    nx, ny, bx, by = c['nx'], c['ny'], c['bx'], c['by']
    lat = {(i, j) for i in range(nx) for j in range(ny)}
    s = c['shape']
    ox, oy = c.get('o', [0., 0.])
    extra = set()
    if s in ('rectangle', 'rectangle_origin'):
        keep = lat
    elif s == 'open' or s == 'zoned':
        keep = {(i, j) for i, j in lat
                if i in (0, nx - 1) or j in (0, ny - 1)} \
            if nx > 2 and ny > 2 else lat
        if s == 'zoned':
            wx, wy = (nx - 1) * bx / (c['nix'] + 1), \
                (ny - 1) * by / (c['niy'] + 1)
            extra = {((i + 1) * wx, (j + 1) * wy) for i in range(c['nix'])
                     for j in range(c['niy'])}
    elif s == 'L':
        keep = {(i, j) for i, j in lat if i == 0 or j == 0}
    elif s == 'U':
        keep = {(i, j) for i, j in lat if i in (0, nx - 1) or j == 0} \
            if nx > 2 and ny > 1 else lat
    elif s == 'lop':
        keep = {(i, 0) for i in range(nx)} | {(0, j) for j in range(ny)} | \
            {(nx - 1, j) for j in range(c['ny2'])}
    elif s == 'C':
        keep = {(i, 0) for i in range(nx)} | {(0, j) for j in range(ny)} | \
            {(nx - 1, j) for j in range(ny)} | \
            {(i, ny - 1) for i in range(1, c['nx2'] + 1)}
    return [(ox + i * bx, oy + j * by) for i, j in keep] + sorted(extra)


def make(c):
    k = dt.coordinates
    s = c['shape']
    nx, ny, bx, by = c['nx'], c['ny'], c['bx'], c['by']
    if s == 'rectangle':
        return k.rectangle(nx, ny, bx, by)
    if s == 'rectangle_origin':
        return k.rectangle(nx, ny, bx, by, origin=tuple(c['o']))
    if s == 'open':
        return k.open_rectangle(nx, ny, bx, by)
    if s == 'L':
        return k.L_shape(nx, ny, bx, by)
    if s == 'U':
        return k.U_shape(nx, ny, bx, by)
    if s == 'lop':
        return k.lop_U(nx, ny, bx, by, c['ny2'])
    if s == 'C':
        return k.C_shape(nx, ny, bx, by, c['nx2'])
    return k.zoned_rectangle(nx, ny, bx, by, c['nix'], c['niy'])


class _B:
    r_b = .07


def run(c, m):
    if c['shape'] == 'zoned_bad':
        m.raises('rejected', ValueError, make, c)
        return
    got = m.call('shape', make, c)
    want = expected(c)
    m.check('count', len(got) == len(want), '{} boreholes instead of {} in {}'
            .format(len(got), len(want), c))
    kg, kw = key(got), key(want)
    m.check('distinct', len(kg) == len(got),
            '{} duplicates in {}'.format(len(got) - len(kg), c))
    m.check('set', domref.same(frozenset(kg), frozenset(kw)), lambda: 'missing {} extra {} in {}'.format(
        sorted(kw - kg)[:4], sorted(kg - kw)[:4], c))
    # transposing exchanges the axes, twice is the identity
    t = m.call('transpose', dt.coordinates.transpose_coordinates, got)
    m.check('transpose', [tuple(p) for p in t] == [(y, x) for x, y in got],
            'transposed {}'.format(c))
    # the spacing of a field is the distance of its first two boreholes, which
    # are neighbours
    b = m.call('spacing', dt.utilities.borehole_spacing, _B, got)
    if len(got) == 1:
        m.check('spacing', b == _B.r_b, 'one borehole: {}'.format(b))
    else:
        d = float(np.hypot(got[1][0] - got[0][0], got[1][1] - got[0][1]))
        m.close('spacing', b, d)
        near = min(abs(d - c['bx']), abs(d - c['by']))
        if c['shape'] not in ('zoned',):
            m.check('neighbours', near < 1e-6 or len(got) < 2,
                    'spacing {} in {}'.format(d, c))
    m.seen(c['shape'], c['nx'], c['ny'], c.get('nx2'), c.get('ny2'),
           c.get('nix'), c.get('niy'))
    m.sample = {'boreholes': len(got), 'first': got[:3]}
