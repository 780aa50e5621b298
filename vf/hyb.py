"""Hybrid loads on cheap, cached boreholes."""
import json

import numpy as np

from . import gen, ref
from .target import plat

_cache = {}


def base(p):
    """Equivalent borehole and short time step of a borehole, cached."""
    k = json.dumps(p, sort_keys=True)
    if k not in _cache:
        b = gen.build(p)
        bh = gen.bhe(b)
        eq = plat.equivalance.compute_equivalent(bh)
        r = plat.radial_numerical_borehole.RadialNumericalBH(eq)
        r.calc_sts_g_functions(eq)
        _cache[k] = (eq, r)
    return _cache[k]


def hybrid(p, q, sim, units='W'):
    eq, r = base(p)
    H = plat.ground_loads.HybridLoad
    rej, ext = H.split_heat_and_cool(q, units=units) if units != 'W' else \
        H.split_heat_and_cool(q)
    return H(rej, ext, eq, r, gen.sim(*sim)), rej, ext


def parts(q, units='W'):
    """Rejection and extraction in kW."""
    q = np.asarray(q, dtype=float) / (1000. if units == 'W' else 1.)
    return np.where(q < 0., -q, 0.), np.where(q > 0., q, 0.)


def month_slices(days):
    out, a = [], 0
    for n in days:
        out.append(slice(a, a + 24 * n))
        a += 24 * n
    return out


def stats(x, days=tuple(ref.MONTHS)):
    """Total, peak, average and first day of the peak of each month."""
    rows = []
    for s in month_slices(days):
        m = np.asarray(x[s], dtype=float)
        pk = m.max()
        rows.append((float(np.sum(m)), float(pk), float(np.mean(m)),
                     int(np.argmax(m)) // 24 + 1 if pk > 0. else 0))
    return rows
