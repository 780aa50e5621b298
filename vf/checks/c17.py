"""Borehole thermal resistances against the formulas and pygfunction."""
import random

import numpy as np

from .. import gen, ref
from ..target import gt, plat

PROPERTY = 'C17'
RULE = ('Seeded boreholes: single, double and triple (sometimes four) U-tubes (parallel and '
        'series) and coaxial pipes, fluids and flow rates from laminar to '
        'turbulent; sequences of updates of the flow rate, the fluid, the '
        'grout and the depth. Distinct by kind, arrangement, regime and fluid.')
ASSUMPTIONS = ['Convective coefficients and the multipole method are those of '
               'pygfunction; the latter is converged to about 1e-7 only.']
REQUIRED = {'R_f': 300, 'R_p': 300, 'Rb': 500, 'updated': 300, 'places': 200,
            'Re': 300, 'flow': 300, 'repeat': 300}
CHUNK = 10
BH = plat.borehole_heat_exchangers


def plan(rng, tier):
    n = 4800 if tier == 'quick' else 12000
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        p = gen.phys(r, (('single', 'double', 'triple', 'coaxial')[i % 4]
                          if i % 13 else 'quad',))
        ups = []
        for _ in range(r.randint(1, 4)):
            u = r.choice(['flow', 'fluid', 'both', 'none', 'grout', 'depth',
                          'pipe'])
            ups.append([u, round(np.exp(r.uniform(np.log(.03),
                                                  np.log(1.5))), 4),
                        list(r.choice(gen.FLUIDS)),
                        round(r.uniform(.4, 3.), 3),
                        round(r.uniform(30., 300.), 1)])
        cases.append({'phys': p, 'updates': ups})
    return cases


def judge(mon, p, fluid, m, o, kind, config, label):
    d = ref.resist(p, fluid, m, config)
    t = dict(rtol=1e-9, atol=1e-12, what='{} {} {}'.format(kind, config,
                                                           label))
    if kind == 'coaxial':
        mon.close('R_p', [o.R_p_in, o.R_p_out], [d['R_p_in'], d['R_p_out']],
                  **t)
        mon.close('R_f', [o.R_f_in, o.R_f_a_in, o.R_f_a_out],
                  [d['R_f_in'], d['R_f_a_in'], d['R_f_a_out']], **t)
        mon.close('R_fp', [o.R_ff, o.R_fp], [d['R_ff'], d['R_fp']], **t)
        mon.close('flow', [o.m_flow_pipe, o.m_flow_borehole], [m, m], **t)
        mon.close('R_g', o.R_grout, np.log(o.b.r_b / p['r_out'][1]) /
                  (2 * np.pi * p['grout'][0]), **t)
    else:
        mon.close('R_p', o.R_p, d['R_p'], **t)
        mon.close('R_f', [o.R_f, o.h_f], [d['R_f'], d['h']], **t)
        mon.close('R_fp', o.R_fp, d['R_fp'], **t)
        mon.close('flow', [o.m_flow_pipe, o.m_flow_borehole],
                  [d['m_pipe'], m], **t)
    want = ref.rb_star(p, fluid, m, config=config)
    got = mon.call('resistance', o.compute_effective_borehole_resistance)
    mon.close('Rb', got, want, rtol=1e-5, atol=1e-12, what=t['what'])
    again = o.compute_effective_borehole_resistance()
    mon.check('repeat', again == got, lambda: (got, again))
    mon.check('positive', got > 0., got)
    return want


def run(c, mon):
    p = dict(c['phys'])
    kind = p['kind']
    b = gen.build(p)
    config = p.get('config')
    keep = (b.pipe.k, b.grout.k, b.soil.k, b.borehole.H, b.borehole.r_b)
    o = mon.call('construct', gen.bhe, b)
    mon.check('kept', keep == (b.pipe.k, b.grout.k, b.soil.k, b.borehole.H,
                               b.borehole.r_b), 'inputs changed')
    m, fluid = b.m_flow, b.fluid
    judge(mon, p, fluid, m, o, kind, config, 'fresh')
    if gen.N_U.get(kind, 1) > 1 and config == 'parallel':
        # parallel is the default
        o2 = mon.call('construct', b.cls, m, fluid, b.borehole, b.pipe,
                      b.grout, b.soil)
        judge(mon, p, fluid, m, o2, kind, config, 'default')
    if kind != 'coaxial':
        n = gen.N_U[kind]
        pos = plat.media.Pipe.place_pipes(p['s'], p['r_out'], n)
        mon.close('places', np.array(pos), np.array(ref.places(
            p['s'], p['r_out'], n)), rtol=0, atol=1e-9)
        mon.check('places', b.pipe.n_pipes == n, b.pipe.n_pipes)
        Re = BH.compute_Reynolds(o.m_flow_pipe, p['r_in'], p['eps'], fluid)
        mon.close('Re', Re, 2. * o.m_flow_pipe / (np.pi * fluid.mu *
                                                  p['r_in']), rtol=1e-9)
        h = getattr(o, 'compute_convection_coefficient', None)
        if h is not None and kind == 'single':
            mon.close('R_f', mon.call('convection', h, m), o.h_f, rtol=1e-9)
        mon.seen(kind, config, Re > 2300, p['fluid'])
    else:
        a, z = p['r_in'][1], p['r_out'][0]
        Re = BH.compute_Reynolds_concentric(m, a, z, fluid)
        mon.close('Re', Re, 2. * m / (np.pi * fluid.mu * (a + z)), rtol=1e-9)
        mon.seen(kind, config, Re > 2300, p['fluid'])
    for u, V, fl, k_g, H in c['updates']:
        kw = {}
        if u in ('flow', 'both'):
            m = V / 1000. * fluid.rho
            kw['m_flow_borehole'] = m
        if u in ('fluid', 'both'):
            fluid = gt.media.Fluid(fl[0], fl[1])
            kw['fluid'] = fluid
        if u == 'grout':
            # as the matching of resistances does
            p = dict(p, grout=[k_g, p['grout'][1]])
            o.k_g = k_g
            o.grout.k = k_g
        if u == 'depth':
            p = dict(p, H=H)
            o.b.H = H
        if u == 'pipe':
            f = .5 + k_g / 3.
            p = dict(p, pipe_k=[x * f for x in p['pipe_k']]
                     if kind == 'coaxial' else p['pipe_k'] * f)
            o.pipe.k = p['pipe_k']
        if kw and len(c['updates']) % 2:
            # the other way to give a new flow or fluid
            r = mon.call('update', o.compute_effective_borehole_resistance,
                         **kw)
            mon.note('updated by asking for the resistance')
        else:
            r = mon.call('update', o.update_thermal_resistance, **kw)
        want = judge(mon, p, fluid, m, o, kind, config, u)
        mon.close('updated', r, want, rtol=1e-5, atol=1e-12, what=u)
        mon.note(u)
