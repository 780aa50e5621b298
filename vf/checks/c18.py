"""The equivalent single U-tube."""
import copy
import random

import numpy as np

from .. import gen, ref
from ..target import plat

PROPERTY = 'C18'
RULE = ('Seeded double and triple U-tubes (parallel, series), coaxial pipes '
        'and single U-tubes are converted, at several depths and flow rates in '
        'a row. Distinct by kind, arrangement, fluid and depth.')
ASSUMPTIONS = [
    'The grout conductivity of the equivalent may vary within 0.01 to 7 '
    'W/(m K), the documented limits; at a limit the resistance only has to be '
    'on the side that the limit implies.',
    'Fluid-to-pipe resistance is matched unless the conductivity of the pipe '
    'reaches a hundredth or the tenfold of its initial value.']
REQUIRED = {'Rb': 60, 'volumes': 60, 'kept': 100, 'separate': 60, 'same': 10,
            'flow': 60, 'fits': 60, 'R_fp': 60, 'repeat': 60}
CHUNK = 2


def plan(rng, tier):
    n = 170 if tier == 'quick' else 4000
    return [{'phys': gen.phys(rng, (('double', 'coaxial', 'triple', 'coaxial',
                                     'double', 'single')[i % 6]
                                    if i % 13 else 'quad',)),
             'H': [round(rng.uniform(30., 300.), 1) for _ in range(2)],
             'V': round(np.exp(rng.uniform(np.log(.05), np.log(1.))), 4)}
            for i in range(n)]


def state(o, b):
    out = [b.borehole.H, b.borehole.r_b, b.borehole.D, b.grout.k,
           b.grout.rhoCp, b.soil.k, b.soil.rhoCp, copy.deepcopy(b.pipe.k),
           copy.deepcopy(b.pipe.pos), copy.deepcopy(b.pipe.r_in),
           copy.deepcopy(b.pipe.r_out), b.pipe.s, b.pipe.rhoCp, b.fluid.rho,
           b.fluid.cp, b.fluid.mu, o.m_flow_borehole, o.m_flow_pipe]
    return out


def areas(p):
    if p['kind'] == 'coaxial':
        (a, b), (c, d) = p['r_in'], p['r_out']
        fluid = np.pi * (a ** 2 + c ** 2 - b ** 2)
        return fluid, np.pi * (b ** 2 - a ** 2 + d ** 2 - c ** 2)
    n = 2 * gen.N_U[p['kind']]
    fluid = n * np.pi * p['r_in'] ** 2
    return fluid, n * np.pi * p['r_out'] ** 2 - fluid


def run(c, mon):
    p = dict(c['phys'])
    b = gen.build(p)
    o = gen.bhe(b)
    conv = plat.equivalance.compute_equivalent
    m = b.m_flow
    for step in range(4):
        if step in (1, 3):
            H = c['H'][step // 2]
            b.borehole.H = H
            p = dict(p, H=H)
            o.update_thermal_resistance()
        if step == 2:
            m = c['V'] / 1000. * b.fluid.rho
            o.update_thermal_resistance(m_flow_borehole=m)
        before = state(o, b)
        Rb0 = o.compute_effective_borehole_resistance()
        eq = mon.call('convert', conv, o)
        mon.check('kept', state(o, b) == before and
                  o.compute_effective_borehole_resistance() == Rb0,
                  'the original was changed')
        mon.check('type', isinstance(
            eq, plat.borehole_heat_exchangers.SingleUTube))
        if p['kind'] == 'single':
            mon.check('same', eq is o, 'a single U-tube is its own equivalent')
            continue
        judge(mon, p, b, o, eq, m)
        eq2 = mon.call('convert', conv, o)
        mon.close('repeat', [eq2.grout.k, eq2.pipe.k, eq2.R_fp],
                  [eq.grout.k, eq.pipe.k, eq.R_fp], rtol=1e-4, atol=0.)
        # nothing is shared
        eq.grout.k *= 2.
        eq.soil.k *= 2.
        eq.b.H += 5.
        eq.pipe.rhoCp *= 2.
        eq.update_thermal_resistance(m_flow_borehole=.3)
        mon.check('separate', state(o, b) == before and
                  o.compute_effective_borehole_resistance() == Rb0,
                  'the original follows its equivalent')
    mon.seen(p['kind'], p.get('config'), p['fluid'], c['H'])
    mon.note(p['kind'])


def judge(mon, p, b, o, eq, m):
    fluid, pipe = areas(p)
    mon.close('volumes', [2 * np.pi * eq.r_in ** 2,
                          2 * np.pi * (eq.r_out ** 2 - eq.r_in ** 2)],
              [fluid, pipe], rtol=1e-9, atol=0., what='areas')
    mon.close('volumes', [eq.pipe.r_in, eq.pipe.r_out], [eq.r_in, eq.r_out],
              rtol=1e-12, atol=0.)
    mon.close('flow', [eq.m_flow_borehole, eq.m_flow_pipe], [m, m],
              rtol=1e-12, atol=0.)
    mon.close('carried', [
        eq.soil.k, eq.soil.rhoCp, eq.soil.ugt, eq.grout.rhoCp,
        eq.pipe.rhoCp, eq.pipe.eps, eq.b.H, eq.b.D, eq.fluid.rho,
        eq.fluid.cp, eq.k_s], [
        p['soil'][0], p['soil'][1], p['soil'][2], p['grout'][1],
        p['pipe_rhoCp'], p['eps'], p['H'], p['D'], b.fluid.rho, b.fluid.cp,
        p['soil'][0]], rtol=1e-12, atol=0.)
    r_b = eq.b.r_b
    mon.check('fits', r_b >= p['r_b'] - 1e-12 and all(
        np.hypot(x, y) + eq.r_out <= r_b * (1 + 1e-9) for x, y in eq.pos) and
        np.hypot(eq.pos[0][0] - eq.pos[1][0],
                 eq.pos[0][1] - eq.pos[1][1]) >= 2 * eq.r_out,
        lambda: (r_b, eq.pos, eq.r_out))
    if 2. * p['r_b'] - 4. * eq.r_out > 0.:
        mon.check('fits', r_b == p['r_b'], 'the borehole need not grow')
    # resistance from the fluid to the outside of the pipes
    if p['kind'] == 'coaxial':
        d = ref.resist(p, b.fluid, m)
        R_pipe = d['R_p_out']
        R_conv = 1. / (d['h_a_in'] * 2. * np.pi * p['r_out'][0])
    else:
        d = ref.resist(p, b.fluid, m, p.get('config') or 'parallel')
        n = 2 * d['n']
        R_pipe = d['R_p'] / n
        R_conv = 1. / (d['h'] * n * np.pi * (2. * p['r_in']) ** 2)
    k0 = np.log(eq.r_out / eq.r_in) / (2. * np.pi * 2. * R_pipe)
    R_p = np.log(eq.r_out / eq.r_in) / (2. * np.pi * eq.pipe.k)
    mon.close('own', [eq.R_p, eq.R_f + eq.R_p], [R_p, eq.R_fp], rtol=1e-9)
    if k0 / 100. * 1.001 < eq.pipe.k < k0 * 10. * .999:
        mon.close('R_fp', eq.R_fp, R_conv + R_pipe, rtol=2e-4, atol=1e-9,
                  what=p['kind'])
    elif eq.pipe.k >= k0 * 10. * .999:
        mon.check('R_fp', eq.R_fp >= (R_conv + R_pipe) * (1 - 1e-6),
                  lambda: ('pipe conductivity limit', eq.R_fp, R_conv +
                           R_pipe))
    else:
        mon.check('R_fp', eq.R_fp <= (R_conv + R_pipe) * (1 + 1e-6),
                  lambda: ('pipe conductivity limit', eq.R_fp))
    # the effective borehole resistance
    Rb = ref.rb_star(p, b.fluid, m, H=p['H'])
    got = eq.compute_effective_borehole_resistance()
    q = {'kind': 'single', 's': eq.pipe.s, 'r_out': eq.r_out,
         'r_in': eq.r_in, 'r_b': r_b, 'D': p['D'], 'H': p['H'],
         'eps': p['eps'], 'soil': p['soil'], 'pipe_k': eq.pipe.k,
         'grout': [eq.grout.k, p['grout'][1]]}
    mon.close('own', got, ref.rb_star(q, b.fluid, m, H=p['H']), rtol=1e-5,
              what='resistance of the equivalent')
    mon.close('own', eq.k_g, eq.grout.k, rtol=1e-12)
    if .01 * 1.001 < eq.grout.k < 7. * .999:
        mon.close('Rb', got, Rb, rtol=1e-4, atol=1e-7, what=p['kind'])
        mon.note('matched')
    elif eq.grout.k >= 7. * .999:
        mon.check('Rb', got >= Rb * (1 - 1e-6), lambda: (
            'limit of the grout', got, Rb))
        if p['kind'] != 'coaxial' and R_conv > 1. / (
                d['h'] * n * np.pi * 2. * p['r_in']):
            # the film is taken over the square of the diameter
            mon.check('matched', got <= Rb * (1 + 1e-4), lambda: (
                'the film resistance of the U-tubes is {} for {} m K/W and '
                'the borehole resistance {} for {}'.format(
                    R_conv, 1. / (d['h'] * n * np.pi * 2. * p['r_in']), got,
                    Rb)), key='u-tube-film-perimeter')
        mon.note('grout limit')
    else:
        mon.check('Rb', got <= Rb * (1 + 1e-6), lambda: (
            'limit of the grout', got, Rb))
        mon.note('grout limit')
    mon.check('range', .01 <= eq.grout.k <= 7., eq.grout.k)
