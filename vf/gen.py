"""Seeded generators of physical inputs. Everything is JSON-able until built."""
import math
import os

import numpy as np

from .target import dt, plat, gt

BHE = plat.borehole_heat_exchangers
KINDS = {'single': BHE.SingleUTube, 'double': BHE.MultipleUTube,
         'triple': BHE.MultipleUTube, 'quad': BHE.MultipleUTube,
         'coaxial': BHE.CoaxialPipe}
N_U = {'single': 1, 'double': 2, 'triple': 3, 'quad': 4}
DAYS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]

FLUIDS = [('Water', 0.), ('MPG', 20.), ('MEG', 15.), ('MPG', 30.),
          ('MEA', 20.), ('MMA', 15.)]


def phys(rng, kinds=('single', 'double', 'coaxial'), H=None):
    """Random, physically plausible description of a borehole."""
    kind = rng.choice(kinds)
    p = {'kind': kind,
         'H': H if H is not None else round(rng.uniform(40., 220.), 2),
         'D': round(rng.uniform(0.5, 6.), 2),
         'fluid': list(rng.choice(FLUIDS)),
         'soil': [round(rng.uniform(0.9, 4.), 3),
                  round(rng.uniform(1.4e6, 3.4e6), 0),
                  round(rng.uniform(4., 24.), 2)],
         'grout': [round(rng.uniform(0.6, 2.4), 3),
                   round(rng.uniform(1.5e6, 4.0e6), 0)],
         'eps': rng.choice([1.0e-6, 1.0e-6, 3.0e-6, 1.5e-5]),
         'pipe_rhoCp': round(rng.uniform(1.4e6, 2.2e6), 0),
         # liters per second and borehole
         'V': round(math.exp(rng.uniform(math.log(.06), math.log(.8))), 4)}
    if kind == 'coaxial':
        r_in_in = round(rng.uniform(.016, .0225), 5)
        r_in_out = round(r_in_in + rng.uniform(.002, .0035), 5)
        r_out_in = round(r_in_out + rng.uniform(.012, .025), 5)
        r_out_out = round(r_out_in + rng.uniform(.004, .0075), 5)
        # (inner pipe in and out), (outer pipe in and out)
        p['r_in'] = [r_in_in, r_in_out]
        p['r_out'] = [r_out_in, r_out_out]
        p['s'] = 0.
        p['r_b'] = round(r_out_out + rng.uniform(.002, .03), 5)
        p['pipe_k'] = [round(rng.uniform(.2, .5), 3),
                       round(rng.uniform(.3, .5), 3)]
    else:
        n = N_U[kind]
        r_out = round(rng.choice([.0133, .01667, .0133, .01075]) *
                      rng.uniform(.95, 1.05), 6)
        sdr = rng.choice([9., 11., 13.5])
        p['r_out'] = r_out
        p['r_in'] = round(r_out * (1. - 2. / sdr), 6)
        # centers are at s/2 + r_out from the axis
        d_min = r_out / math.sin(math.pi / (2. * n)) * 1.02 if n > 1 \
            else r_out * 1.02
        d = d_min * rng.uniform(1., 1.6)
        p['s'] = round(2. * (d - r_out) + 1.0e-6, 6)
        p['r_b'] = round((p['s'] / 2. + 2. * r_out) *
                         rng.uniform(1.03, 1.5), 5)
        p['pipe_k'] = round(rng.uniform(.3, .5), 3)
        if n > 1:
            p['config'] = rng.choice(['parallel', 'parallel', 'series'])
    return p


class Built:
    pass


def build(p, borehole=True):
    """Build the objects of the code under test."""
    b = Built()
    b.p = p
    b.cls = KINDS[p['kind']]
    b.fluid = gt.media.Fluid(p['fluid'][0], p['fluid'][1])
    b.soil = plat.media.Soil(*p['soil'])
    b.grout = plat.media.Grout(*p['grout'])
    if p['kind'] == 'coaxial':
        pos = (0., 0.)
        b.pipe = plat.media.Pipe(pos, list(p['r_in']), list(p['r_out']), 0.,
                                 p['eps'], list(p['pipe_k']), p['pipe_rhoCp'])
    else:
        pos = plat.media.Pipe.place_pipes(p['s'], p['r_out'], N_U[p['kind']])
        b.pipe = plat.media.Pipe(pos, p['r_in'], p['r_out'], p['s'], p['eps'],
                                 p['pipe_k'], p['pipe_rhoCp'])
    b.borehole = gt.boreholes.Borehole(p['H'], p['D'], p['r_b'], 0., 0.)
    b.m_flow = p['V'] / 1000. * b.fluid.rho
    return b


def bhe(b, m_flow=None, borehole=None, config=None):
    m = b.m_flow if m_flow is None else m_flow
    bore = b.borehole if borehole is None else borehole
    config = config or b.p.get('config')
    if N_U.get(b.p['kind'], 1) > 1 and config is not None:
        return b.cls(m, b.fluid, bore, b.pipe, b.grout, b.soil, config=config)
    return b.cls(m, b.fluid, bore, b.pipe, b.grout, b.soil)


# --------------------------------------------------------------------- loads
LOAD_KINDS = ['seasonal', 'heating', 'cooling', 'blocks', 'noise', 'square',
              'small', 'edges', 'sameday', 'constant', 'monthly', 'steps',
              'sparse', 'office', 'plateau', 'firsthour', 'zero', 'weekly']


def load_spec(rng, kinds=None):
    return {'kind': rng.choice(kinds or LOAD_KINDS),
            'seed': rng.randrange(10 ** 9),
            'scale': round(math.exp(rng.uniform(math.log(2e3),
                                                math.log(2e5))), 1)}


_office = None


def office():
    global _office
    if _office is None:
        path = os.path.join(os.path.dirname(__file__), 'office.npy')
        _office = np.load(path).astype(float)
    return _office


def loads(spec, hours=8760):
    """Hourly ground loads of a year in W, heat extraction is positive."""
    r = np.random.RandomState(spec['seed'] % (2 ** 32 - 1))
    kind, a = spec['kind'], spec['scale']
    h = np.arange(hours)
    day, hod = h // 24, h % 24
    u = r.uniform
    starts = np.concatenate([[0], np.cumsum(np.array(DAYS) * 24)])
    if hours == 8784:
        starts[2:] += 24
    month = np.searchsorted(starts, h, side='right') - 1
    year = np.cos(2 * np.pi * h / hours)
    daily = np.cos(2 * np.pi * (hod - u(0, 24)) / 24.)
    if kind == 'seasonal':
        q = year + u(-.6, .6) + u(0, 1) * daily + u(0, .3) * r.randn(hours)
    elif kind == 'heating':
        q = np.maximum(0., year + .3 * daily + .2 * r.randn(hours) + u(-.4, .5))
    elif kind == 'cooling':
        q = np.minimum(0., year + .3 * daily + .2 * r.randn(hours) - u(-.4, .5))
    elif kind == 'blocks':
        q = np.zeros(hours)
        for _ in range(r.randint(1, 40)):
            s = r.randint(0, hours - 10)
            q[s:s + r.randint(1, 300)] += u(-1, 1)
    elif kind == 'noise':
        q = r.randn(hours)
    elif kind == 'square':
        n = r.choice([1, 6, 12, 24, 36, 48, 168])
        q = np.where((h // n) % 2 == 0, u(.1, 1), -u(.1, 1))
    elif kind == 'small':
        q = r.randn(hours) * 30. / a
    elif kind == 'edges':
        # the extremes lie in the first or last hours of months and of days
        q = .05 * r.randn(hours)
        for m in range(12):
            for sgn in (1, -1):
                if u() < .8:
                    k = [starts[m], starts[m + 1] - 1, starts[m] + 23,
                         starts[m] + 24, starts[m + 1] - 24][r.randint(5)]
                    k = min(max(k + r.randint(-1, 2), 0), hours - 1)
                    q[k:k + r.randint(1, 4)] = sgn * u(.5, 1)
    elif kind == 'sameday':
        q = np.cos(2 * np.pi * hod / 24.) * (1. + .5 * year)
        q[day % 3 == 1] *= u(1., 1.5)
    elif kind == 'constant':
        q = np.full(hours, r.choice([-1., 1.]) * u(.1, 1))
    elif kind == 'monthly':
        q = r.uniform(-1, 1, 12)[month]
        if u() < .5:
            q = np.where(r.uniform(size=12) < .3, 0., 1.)[month] * q
    elif kind == 'steps':
        # plateaus that differ by less than a tenth of a kW from month to month
        q = (u(50, 2000) + r.uniform(-60, 60, 12)[month]) / a * \
            r.choice([-1., 1.])
    elif kind == 'sparse':
        q = np.zeros(hours)
        k = r.randint(0, hours, r.randint(1, 12))
        q[k] = r.uniform(-1, 1, k.size)
    elif kind == 'office':
        q = office()[:8760] / np.abs(office()).max()
        if hours == 8784:
            q = np.concatenate([q, q[:24]])
        q = np.roll(q, 24 * r.randint(0, 365)) if u() < .3 else q
    elif kind == 'plateau':
        # flat working hours, so that the peak occurs many times
        on = (hod >= 8) & (hod < 8 + r.randint(2, 15))
        season = np.where(year > u(-.5, .5), 1., -1.)
        q = np.where(on, season * r.choice([.5, 1.]), 0.)
    elif kind == 'firsthour':
        q = .3 * daily * np.where(year > 0, 1, -.5)
        for m in range(12):
            q[starts[m]] = r.choice([-1., 1.]) * u(.8, 1)
    elif kind == 'zero':
        q = np.zeros(hours)
    elif kind == 'weekly':
        q = np.where(day % 7 < 5, 1., .2) * (year + .5 * daily + u(-.3, .3))
        dead = r.randint(0, 12, r.randint(0, 5))
        q[np.isin(month, dead)] = 0.
    else:
        raise KeyError(kind)
    if spec.get('shift'):
        q = np.roll(q, spec['shift'])
    return [float(x) for x in q * a]


def as_numbers(mode, q):
    """The loads as another sequence a user may pass."""
    return {'array': np.array, 'tuple': tuple}.get(mode, list)(q)


# ------------------------------------------------------------------ horizons
def horizon(rng, short=False):
    """Start and end month of a simulation, counted from 1."""
    starts = [1, 1, 1, 2, 3, 6, 7, 11, 12, 13, 14, 18, 25]
    s = rng.choice(starts)
    n = rng.choice([1, 2, 3, 5, 6, 11, 12, 13] if short else
                   [1, 5, 11, 12, 13, 18, 23, 24, 25, 26, 30, 36, 60, 120, 240,
                     361])
    return s, s + n - 1


def sim(s, e, max_eft=35., min_eft=5., max_h=150., min_h=60.):
    return plat.media.SimulationParameters(s, e, max_eft, min_eft, max_h,
                                           min_h)


# -------------------------------------------------------------------- fields
def field(rng, max_n=25):
    """A field and its spacing, from one borehole to a small field."""
    nx, ny = rng.randint(1, 6), rng.randint(1, 6)
    while nx * ny > max_n:
        nx, ny = rng.randint(1, 6), rng.randint(1, 6)
    bx, by = round(rng.uniform(3., 9.), 2), round(rng.uniform(3., 9.), 2)
    if rng.random() < .5:
        by = bx
    shape = rng.choice(['rectangle', 'rectangle', 'open', 'L', 'U'])
    lat = [(i, j) for i in range(nx) for j in range(ny)]
    edge = {'L': lambda i, j: i == 0 or j == 0,
            'U': lambda i, j: i in (0, nx - 1) or j == 0,
            'open': lambda i, j: i in (0, nx - 1) or j in (0, ny - 1)}
    r = [(i * bx, j * by) for i, j in lat
         if edge.get(shape, lambda i, j: True)(i, j)]
    return [[float(x), float(y)] for x, y in r]


def some_field(rng, max_n, large=.12):
    """Now and then a field of some hundred boreholes."""
    if rng.random() >= large:
        return field(rng, max_n)
    bx, by = round(rng.uniform(3., 9.), 2), round(rng.uniform(3., 9.), 2)
    return [list(p) for p in rect(rng.randint(8, 15), rng.randint(8, 15),
                                  bx, by)]


def tuples(coords):
    return [(x, y) for x, y in coords]


def rect(nx, ny, bx, by):
    """A rectangle of boreholes, made by the harness itself."""
    return [(i * bx, j * by) for i in range(nx) for j in range(ny)]
