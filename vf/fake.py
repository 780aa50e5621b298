"""The field searches of the code under test on a stand-in for the simulation.

Only the physics is replaced: the g-functions, the construction and the
simulation of a ground heat exchanger. The searches, the sizing, the excess and
the domains are the real code. Each simulation is recorded with everything the
search handed over, so that a monitor can judge whether the simulation was one
of the field and the height the search believed it was.
"""
import contextlib
import inspect
import io
import math
import sys
import types

from . import gen
from .target import dt, plat, Patch

GHE = dt.ground_heat_exchangers.GHE
LIVE = dt.gfunction.compute_live_g_function
SIG_INIT = inspect.signature(GHE.__init__)
SIG_LIVE = inspect.signature(LIVE)

_world = None


def key(coords):
    return tuple((round(x, 6), round(y, 6)) for x, y in coords)


class World:
    """excess(coords, H, method) and the record of what was simulated."""

    def __init__(self, excess, side='max', limits=(0., -200.), gap=30.):
        self.excess, self.side, self.gap = excess, side, gap
        self.max_EFT, self.min_EFT = limits
        self.sims, self.live, self.bad = [], [], []
        self.methods = set()

    def check(self, ok, what):
        if not ok:
            self.bad.append(what)


def fake_live(*a, **k):
    v = list(SIG_LIVE.bind(*a, **k).arguments.values())
    B, H, rb, D, m_flow, bhe_object, log_time, coords = v[:8]
    w = _world
    w.live.append({'B': B, 'H': list(H), 'm': m_flow, 'coords': coords})
    return dt.gfunction.GFunction(
        B, {h: r for h, r in zip(H, rb)}, {h: d for h, d in zip(H, D)},
        {h: [float(len(coords))] * len(log_time) for h in H}, list(log_time),
        coords)


class FakeGHE(GHE):
    def __init__(self, *a, **k):
        v = list(SIG_INIT.bind(self, *a, **k).arguments.values())[1:]
        (V, B, bhe_object, fluid, borehole, pipe, grout, soil, g, sim,
         loads) = v[:11]
        self.V_flow_system, self.B_spacing = V, B
        self.nbh = float(len(g.bore_locations))
        self.V_flow_borehole = V / self.nbh
        self.bhe_object = bhe_object
        self.bhe = types.SimpleNamespace(
            b=borehole, fluid=fluid, pipe=pipe, grout=grout, soil=soil,
            m_flow_borehole=self.V_flow_borehole / 1000. * fluid.rho)
        self.bhe_eq = types.SimpleNamespace()
        self.radial_numerical = types.SimpleNamespace()
        self.GFunction, self.sim_params = g, sim
        self.hourly_extraction_ground_loads = loads
        self.HPEFT, self.dTb = [], []

    def __repr__(self):
        return 'FakeGHE'

    def simulate(self, method='hybrid'):
        w = _world
        H, g = self.bhe.b.H, self.GFunction
        coords = g.bore_locations
        e = w.excess(coords, H, method)
        hs = sorted(g.g_lts)
        w.check(hs[0] - 1e-3 <= H <= hs[-1] + 1e-3,
                'simulated {} m with g-functions of {}'.format(H, hs))
        live = [r for r in w.live if r['coords'] is coords]
        m = self.bhe.m_flow_borehole
        w.check(bool(live) and all(
            abs(r['m'] - m) <= 1e-9 * m for r in live),
            'the g-function was computed for a flow of {} and not {}'.format(
                [r['m'] for r in live][:2], m))
        w.check(abs(self.B_spacing - g.B) <= 1e-9 * abs(g.B),
                'spacing {} and {}'.format(self.B_spacing, g.B))
        w.methods.add(method)
        w.sims.append({'coords': coords, 'H': H, 'excess': e, 'm': m,
                       'V': self.V_flow_system, 'method': method,
                       'loads': self.hourly_extraction_ground_loads})
        s = self.sim_params
        # the other limit is further away by the gap
        if w.side == 'max':
            hi = s.max_EFT_allowable + e
            lo = s.min_EFT_allowable - (e - w.gap)
        else:
            lo = s.min_EFT_allowable - e
            hi = s.max_EFT_allowable + (e - w.gap)
        self.HPEFT = [hi, lo]
        return hi, lo


@contextlib.contextmanager
def world(w):
    global _world
    out = io.StringIO()
    with Patch((GHE, FakeGHE), (LIVE, fake_live), (sys.stderr, out)), \
            contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        _world = w
        try:
            yield w
        finally:
            _world = None
    w.printed = out.getvalue()


P = {'kind': 'single', 'H': 100., 'D': 2., 'fluid': ['Water', 0.],
     'soil': [2., 2.3e6, 12.], 'grout': [1., 3.9e6], 'eps': 1e-6,
     'pipe_rhoCp': 1.5e6, 'V': .3, 'r_out': .0133, 'r_in': .0108, 's': .03,
     'r_b': .075, 'pipe_k': .4}


def parts(min_h, max_h, limits=(0., -200.), H=100.):
    b = gen.build(dict(P, H=H))
    b.sim = plat.media.SimulationParameters(1, 240, limits[0], limits[1],
                                            max_h, min_h)
    return b


LOADS = [1.] * 8760


def search(cls, domain, b, V=.3, flow='borehole', method='hybrid', **k):
    return cls(domain, V, b.borehole, b.cls, b.fluid, b.pipe, b.grout, b.soil,
               b.sim, LOADS, method=method, flow=flow, **k)


def design(b, gc, routine, V=.3, flow='borehole', method='hybrid'):
    return dt.design.Design(
        V, b.borehole, b.cls, b.fluid, b.pipe, b.grout, b.soil, b.sim, gc,
        LOADS, method=method, routine=routine, flow=flow)


def noise(coords, seed, amp):
    """A fixed perturbation of each field."""
    if amp == 0.:
        return 0.
    import hashlib
    h = hashlib.md5(repr((seed, key(coords))).encode()).digest()
    return amp * (int.from_bytes(h[:6], 'big') / 2. ** 47 - 1.)


def physical(seed, total, Hmax, gain, amp):
    """Excess that falls with the total length, perturbed per field."""
    def f(coords, H, method):
        n = len(coords)
        return gain * (total / (n * H) - 1.) + noise(coords, seed, amp)
    return f


def log2(n):
    return math.ceil(math.log2(max(n, 2)))
