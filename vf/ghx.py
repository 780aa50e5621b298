"""Ground heat exchangers: built from JSON, simulated, and judged against the
reference physics."""
import numpy as np

from . import gen, ref
from .target import dt, plat


def spacing(coords, r_b):
    if len(coords) == 1:
        return r_b
    (x0, y0), (x1, y1) = coords[0], coords[1]
    return max(r_b, float(np.hypot(x1 - x0, y1 - y0)))


def gfun(b, coords, heights, m_flow):
    return dt.gfunction.compute_live_g_function(
        spacing(coords, b.p['r_b']), list(heights),
        [b.p['r_b']] * len(heights), [b.p['D']] * len(heights), m_flow, b.cls,
        list(ref.LOG_TIMES), gen.tuples(coords), b.fluid, b.pipe, b.grout,
        b.soil)


def build(c, loads=None, b=None):
    """c: phys, coords, heights, sim [s, e, max, min, maxH, minH], loads."""
    b = b or gen.build(c['phys'])
    q = gen.loads(c['loads']) if loads is None else loads
    g = gfun(b, c['coords'], c['heights'], b.m_flow)
    V = c['phys']['V'] * len(c['coords'])
    ghe = dt.ground_heat_exchangers.GHE(
        V, spacing(c['coords'], c['phys']['r_b']), b.cls, b.fluid, b.borehole,
        b.pipe, b.grout, b.soil, g, gen.sim(*c['sim']), q)
    return ghe, b, q


class Reference:
    """Everything of a ground heat exchanger at one height, from fresh."""

    def __init__(self, c, H, heights=None, g_rows=None, V=None):
        p = dict(c['phys'], H=H)
        b = gen.build(p)
        self.b, self.p = b, p
        self.n = len(c['coords'])
        self.m = (p['V'] if V is None else V) / 1000. * b.fluid.rho
        heights = heights or [H]
        p2 = dict(p)
        p2.pop('config', None)
        if g_rows is None:
            g_rows = [ref.lts(p2, b.fluid, c['coords'], h, self.m)
                      for h in heights]
        self.g_rows = g_rows
        self.glts = interpolate(heights, g_rows, H)
        # the short time step of fresh objects
        fresh = gen.bhe(b, m_flow=self.m, config='parallel')
        eq = plat.equivalance.compute_equivalent(fresh)
        r = plat.radial_numerical_borehole.RadialNumericalBH(eq)
        r.calc_sts_g_functions(eq)
        self.lng, self.g = ref.combine(ref.LOG_TIMES, self.glts,
                                       r.lntts.tolist(), r.g.tolist())
        self.ts = H ** 2 / (9. * p['soil'][0] / p['soil'][1])
        self.Rb = ref.rb_star(p2, b.fluid, self.m, H=H)
        self.H = H

    def temperatures(self, q_rejection, hours):
        """q: rejection of the whole field in W."""
        return ref.fluid_temperatures(
            np.asarray(q_rejection, dtype=float) / self.n, hours, self.lng,
            self.g, self.ts, self.p['soil'][0], self.H, self.p['soil'][2],
            self.Rb, self.m, self.b.fluid.cp)


def interpolate(heights, rows, H):
    """The documented interpolation over the heights."""
    if len(heights) == 1:
        return np.asarray(rows[0])
    if len(heights) <= 3:
        return ref.polynomial(heights, rows, H)
    from scipy.interpolate import interp1d
    kind = 'quadratic' if len(heights) == 4 else 'cubic'
    return interp1d(heights, np.array(rows), kind=kind, axis=0)(H)


def scale(T, Tg):
    """Size of the temperatures, for tolerances."""
    return max(1., float(np.max(np.abs(np.asarray(T) - Tg))))
