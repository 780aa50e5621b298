"""Calls of the code under test that are functions of their parameters.

Each call has a description of its parameters, from which a base and neighbours
that differ in a single parameter are drawn, and builds everything it needs
from these. The result is reduced to plain values.
"""
import contextlib
import io
import os
import shutil
import tempfile

import numpy as np

from . import fake, gen, ghx, ref
from .target import dt, gt, plat

CALLS = {}
PHYSICAL = set()


def call(name, physical=False, **spec):
    def add(f):
        CALLS[name] = (spec, f)
        if physical:
            PHYSICAL.add(name)
        return f
    return add


def draw(r, s):
    kind = s[0]
    if kind == 'f':
        return round(r.uniform(s[1], s[2]), 3)
    if kind == 'i':
        return r.randint(s[1], s[2])
    if kind == 'c':
        return r.choice(s[1])
    if kind == 'phys':
        p = gen.phys(r, s[1])
        p.pop('config', None)
        return p
    if kind == 'field':
        return gen.field(r, s[1])
    if kind == 'loads':
        return gen.load_spec(r, [k for k in gen.LOAD_KINDS if k != 'zero'])
    if kind == 'fs':
        return [round(r.uniform(s[1], s[2]), 3) for _ in range(s[3])]
    if kind == 'poly':
        w, h = s[1] * r.uniform(.6, 1.), s[1] * r.uniform(.6, 1.)
        a, b = w * r.uniform(.2, .8), h * r.uniform(.2, .8)
        p = [[0., 0.], [w, 0.], [w, h], [a, h], [a, b], [0., b]]
        if r.random() < .25:
            p.append([0., 0.])  # a closed outline
        return [[round(x, 2), round(y, 2)] for x, y in p]
    raise KeyError(kind)


def other(r, s, v):
    """Another value of a parameter."""
    if s[0] == 'phys':
        p = dict(v)
        k = r.choice(['k', 'rhoCp', 'Tg', 'kg', 'cg', 'kp', 'cp', 'V', 'H', 'D',
                      'eps', 'fluid', 'r_b'])
        f = r.choice([.8, .9, 1.1, 1.2])
        if k in ('k', 'rhoCp', 'Tg'):
            i = ('k', 'rhoCp', 'Tg').index(k)
            p['soil'] = [x * f if j == i else x
                         for j, x in enumerate(p['soil'])]
        elif k in ('kg', 'cg'):
            p['grout'] = [x * f if 'kc'[j] == k[0] else x
                          for j, x in enumerate(p['grout'])]
        elif k == 'kp':
            p['pipe_k'] = [x * f for x in p['pipe_k']] \
                if isinstance(p['pipe_k'], list) else p['pipe_k'] * f
        elif k == 'cp':
            p['pipe_rhoCp'] *= f
        elif k == 'eps':
            p['eps'] = 2e-5 if p['eps'] < 1e-5 else 1e-6
        elif k == 'fluid':
            p['fluid'] = ['Water', 0.] if p['fluid'][0] != 'Water' else \
                ['MPG', 25.]
        elif k == 'r_b':
            p['r_b'] *= r.choice([1.05, 1.1])
        else:
            p[k] *= f
        return p
    if s[0] == 'loads' and r.random() < .5:
        # the same loads at other times
        return dict(v, shift=r.choice([1, 24, 168, 2000]))
    if s[0] in ('field', 'poly') and r.random() < .7:
        # a borehole or a corner elsewhere, the number stays
        w = [list(x) for x in v]
        i = r.choice([1, r.randrange(len(w))]) if len(w) > 1 else 0
        if s[0] == 'field':
            w[i] = [w[i][0] + .37, w[i][1] + r.choice([0., .21])]
        elif i:
            k = r.randrange(2)
            w[i][k] = round(w[i][k] * .93, 2)
        return w
    for _ in range(30):
        w = draw(r, s)
        if w != v:
            return w
    return v


def params(r, name):
    return {k: draw(r, s) for k, s in CALLS[name][0].items()}


def neighbour(r, name, p):
    spec = CALLS[name][0]
    if not spec:
        return dict(p)
    k = r.choice(sorted(spec))
    return dict(p, **{k: other(r, spec[k], p[k])})


def perform(name, p):
    """The result, or what was raised."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        try:
            return CALLS[name][1](**p)
        except (ValueError, AssertionError, ZeroDivisionError) as e:
            return ['raised', type(e).__name__, str(e)]


# ---------------------------------------------------------------- small things
@call('log times')
def _():
    return dt.utilities.Eskilson_log_times()


class _Bore:
    r_b = .07


@call('spacing', coords=('field', 25))
def _(coords):
    return dt.utilities.borehole_spacing(_Bore, gen.tuples(coords))


@call('area', poly=('poly', 50.))
def _(poly):
    return dt.utilities.polygonal_area(poly)


@call('sides', n=('i', 2, 30), b=('f', 1., 9.), up=('c', [True, False]))
def _(n, b, up):
    u = dt.utilities
    L = u.length_of_side(n, b)
    return [L, u.spacing_along_length(L, n), u.number_of_boreholes(
        L + .3 * b, b, func=np.ceil if up else np.floor)]


@call('errors', a=('fs', 1., 9., 6), b=('fs', 1., 9., 6))
def _(a, b):
    return [dt.utilities.compute_mpe(a, b),
            dt.utilities.check_bracket(a[0] - 5., b[0] - 5.),
            dt.utilities.sign(a[0] - 5.)]


@call('perimeter', lx=('f', 1., 50.), ly=('f', 1., 50.), o=('fs', -5., 5., 2))
def _(lx, ly, o):
    return dt.utilities.make_rectangle_perimeter(lx, ly, tuple(o))


@call('calendar', m=('i', 1, 60))
def _(m):
    g = plat.ground_loads
    return [g.monthdays(m), g.firstmonthhour(m), g.lastmonthhour(m),
            g.number_to_month((m - 1) % 12 + 1)]


@call('root', c=('f', -3., 3.), lo=('f', .1, 1.), hi=('f', 2., 4.))
def _(c, lo, hi):
    return plat.equivalance.solve_root(1., lambda x: x ** 2 - c ** 2 * .9,
                                       lower=lo, upper=hi)


# ------------------------------------------------------------ fields and lands
@call('shape', what=('c', ['rectangle', 'open_rectangle', 'L_shape', 'U_shape',
                           'lop_U', 'C_shape', 'zoned_rectangle']),
      nx=('i', 3, 8), ny=('i', 3, 8), bx=('f', 2., 9.), by=('f', 2., 9.),
      k=('i', 1, 3))
def _(what, nx, ny, bx, by, k):
    f = getattr(dt.coordinates, what)
    more = {'lop_U': [k], 'C_shape': [min(k, nx - 2)],
            'zoned_rectangle': [min(k, nx - 2), min(k, ny - 2)]}
    c = f(nx, ny, bx, by, *more.get(what, []))
    return [c, dt.coordinates.transpose_coordinates(c)]


LAND = dict(lx=('f', 20., 45.), ly=('f', 20., 45.), b=('f', 3., 5.),
            mx=('f', 6., 9.), my=('f', 6., 9.))


@call('near-square', a=('i', 1, 4), b=('i', 4, 8), B=('f', 3., 8.))
def _(a, b, B):
    return dt.domains.square_and_near_square(a, b, B)


@call('rectangular', lx=LAND['lx'], ly=LAND['ly'], b=LAND['b'], mx=LAND['mx'])
def _(lx, ly, b, mx):
    return dt.domains.rectangular(lx, ly, b, mx)


@call('bi-rectangular', **LAND)
def _(lx, ly, b, mx, my):
    return dt.domains.bi_rectangular(lx, ly, b, mx, my)


@call('bi-rectangle', **LAND)
def _(lx, ly, b, mx, my):
    return dt.domains.bi_rectangle_nested(lx, ly, b, mx, my)


@call('bi-zoned', **LAND)
def _(lx, ly, b, mx, my):
    return dt.domains.bi_rectangle_zoned_nested(lx, ly, b, mx, my)


@call('zones', lx=LAND['lx'], ly=LAND['ly'], nx=('i', 3, 7), ny=('i', 3, 7),
      t=('c', [True, False]))
def _(lx, ly, nx, ny, t):
    return dt.domains.zoned_rectangle_domain(lx, ly, nx, ny, transpose=t)


@call('land', poly=('poly', 40.), bld=('c', [None, 12., 20.]), b=('f', 3., 5.),
      mx=('f', 6., 9.), my=('f', 6., 9.))
def _(poly, bld, b, mx, my):
    k = {} if bld is None else {'building_description': [
        [5., 5.], [bld, 5.], [bld, bld], [5., bld]]}
    return dt.domains.polygonal_land_constraint(poly, b, mx, my, **k)


@call('cut', poly=('poly', 30.), n=('i', 3, 9), inside=('c', [True, False]),
      contour=('c', [True, False]))
def _(poly, n, inside, contour):
    pts = [(30. * i / n, 30. * j / n) for i in range(n) for j in range(n)]
    return [dt.feature_recognition.remove_cutout(
        pts, boundary=poly, remove_inside=inside, keep_contour=contour),
        dt.feature_recognition.determine_largest_rectangle(poly)]


@call('candidates', routine=('c', ['near-square', 'rectangle', 'bi-rectangle',
                                   'bi-zoned']), **LAND)
def _(routine, lx, ly, b, mx, my):
    k = {'near-square': dict(B=b, length=lx),
         'rectangle': dict(length=lx, width=ly, B_min=b, B_max_x=mx)}.get(
        routine, dict(length=lx, width=ly, B_min=b, B_max_x=mx, B_max_y=my))
    d = fake.design(fake.parts(60., 135.), dt.media.GeometricConstraints(**k),
                    routine)
    return getattr(d, 'coordinates_domain_nested' if routine[:2] == 'bi' else
                   'coordinates_domain')


# ------------------------------------------------------------------ searches
@call('search', routine=('c', ['near-square', 'rectangle', 'bi-rectangle']),
      lx=LAND['lx'], ly=LAND['ly'], b=LAND['b'], worth=('f', 3., 40.),
      lo=('f', 40., 70.), hi=('f', 100., 160.), V=('f', .2, 3.),
      flow=('c', ['borehole', 'system']), cap=('f', 5., 30.))
def _(routine, lx, ly, b, worth, lo, hi, V, flow, cap):
    k = {'near-square': dict(B=b, length=lx),
         'rectangle': dict(length=lx, width=ly, B_min=b, B_max_x=b + 4.)}.get(
        routine, dict(length=lx, width=ly, B_min=b, B_max_x=b + 4.,
                      B_max_y=b + 5.))
    d = fake.design(fake.parts(lo, hi, (cap, -200.)),
                    dt.media.GeometricConstraints(**k), routine, V, flow)
    ex = fake.physical(3, worth * hi, hi, 20., 0.)
    with fake.world(fake.World(ex, 'max')) as w:
        try:
            s = d.find_design()
        except ValueError as e:
            return ['rejected', str(e)]
    return [s.selected_coordinates, s.ghe.bhe.b.H, len(w.sims),
            [x['m'] for x in w.sims]]


# ------------------------------------------------------------------- boreholes
KINDS = ('single', 'double', 'coaxial')


@call('resistance', physical=True, p=('phys', KINDS + ('triple',)),
      m=('f', .1, .9), config=('c', ['parallel', 'series']))
def _(p, m, config):
    b = gen.build(p)
    h = gen.bhe(b, config=config)
    out = [h.compute_effective_borehole_resistance(), h.R_fp]
    out.append(h.update_thermal_resistance(m_flow_borehole=m))
    return out + [repr(h) if p['kind'] != 'triple' else '']


@call('reynolds', p=('phys', ('single',)), m=('f', .05, .9),
      config=('c', ['parallel', 'series']))
def _(p, m, config):
    b = gen.build(p)
    B = plat.borehole_heat_exchangers
    return [B.compute_Reynolds(m, p['r_in'], p['eps'], b.fluid),
            B.compute_Reynolds_concentric(m, p['r_in'], p['r_out'], b.fluid),
            B.BasePipe.compute_mass_flow_rate_pipe(m, config)]


@call('media', p=('phys', KINDS), n=('i', 1, 3), e=('i', 2, 240))
def _(p, n, e):
    b = gen.build(p)
    return [plat.media.Pipe.place_pipes(p['s'], .0133, n), repr(b.soil),
            repr(b.grout), repr(b.pipe), repr(gen.sim(1, e))]


@call('equivalent', physical=True, p=('phys', ('double', 'coaxial')))
def _(p):
    e = plat.equivalance.compute_equivalent(gen.bhe(gen.build(p)))
    return [e.r_in, e.r_out, e.b.r_b, e.grout.k, e.pipe.k, e.R_fp,
            e.compute_effective_borehole_resistance()]


@call('short step', physical=True, p=('phys', KINDS))
def _(p):
    e = plat.equivalance.compute_equivalent(gen.bhe(gen.build(p)))
    r = plat.radial_numerical_borehole.RadialNumericalBH(e)
    r.calc_sts_g_functions(e)
    return [r.t_s, r.lntts[::9], r.g[::9]]


# ----------------------------------------------------------- response factors
@call('g-function', physical=True, p=('phys', KINDS), coords=('field', 6),
      n=('c', [4, 8, 12]), end=('c', [.02, .05, .1]),
      segments=('c', ['equal', 'unequal']),
      boundary=('c', ['MIFT', 'UHTR', 'UBWT']))
def _(p, coords, n, end, segments, boundary):
    b = gen.build(p)
    t = np.exp(np.array(ref.LOG_TIMES[2::6])) * 4e8
    return dt.gfunction.calculate_g_function(
        b.m_flow, b.cls, t, gen.tuples(coords), b.borehole, b.fluid, b.pipe,
        b.grout, b.soil, nSegments=n, end_length_ratio=end, segments=segments,
        boundary=boundary).gFunc


@call('live', physical=True, p=('phys', KINDS), coords=('field', 6),
      hs=('fs', 40., 200., 2), B=('f', 3., 9.), n=('c', [4, 8]),
      segments=('c', ['equal', 'unequal']),
      boundary=('c', ['MIFT', 'UHTR', 'UBWT']))
def _(p, coords, hs, B, n, segments, boundary):
    b = gen.build(p)
    g = dt.gfunction.compute_live_g_function(
        B, hs, [p['r_b']] * 2, [p['D']] * 2, b.m_flow, b.cls,
        list(ref.LOG_TIMES), gen.tuples(coords), b.fluid, b.pipe, b.grout,
        b.soil, nSegments=n, segments=segments, boundary=boundary)
    return [g.B, sorted(g.g_lts), [g.g_lts[h] for h in hs],
            [g.r_b_values[h] for h in hs], [g.D_values[h] for h in hs]]


def synthetic(B, a, n, r_b, D):
    hs = [48. * 1.5 ** i for i in range(n)]
    log = list(ref.LOG_TIMES)
    return dt.gfunction.GFunction(
        B, {h: r_b + .001 * i for i, h in enumerate(hs)},
        {h: D + .1 * i for i, h in enumerate(hs)},
        {h: [a * (x + 10.) + h / 100. * (x + 9.) ** .5 for x in log]
         for h in hs}, log, [(0., 0.), (B, 0.), (0., B)])


@call('interpolation', B=('f', 3., 9.), a=('f', .5, 2.), n=('i', 1, 5),
      r_b=('f', .05, .1), D=('f', 1., 5.), x=('f', 0., 1.),
      kind=('c', ['default', 'linear', 'lagrange']), r2=('f', .05, .1),
      B2=('f', 3., 9.))
def _(B, a, n, r_b, D, x, kind, r2, B2):
    g = synthetic(B, a, n, r_b, D)
    hs = sorted(g.g_lts)
    H = hs[0] + x * (hs[-1] - hs[0])
    y = g.g_function_interpolation(B / H, kind=kind)
    return [list(y), g.borehole_radius_correction(y[0], r_b, r2),
            g.correct_coordinates(B2)]


@call('combination', n=('i', 3, 30), a=('f', -12., -8.), s=('f', .5, 2.))
def _(n, a, s):
    x = [a + .13 * i for i in range(n)]
    y = dt.ground_heat_exchangers.BaseGHE.combine_sts_lts(
        list(ref.LOG_TIMES), [s * (v + 12.) for v in ref.LOG_TIMES], x,
        [.5 * s * (v + 12.) for v in x])
    return [y.x, y.y]


# ----------------------------------------------------------------------- loads
@call('split', q=('loads',), units=('c', ['W', 'kW']))
def _(q, units):
    return plat.ground_loads.HybridLoad.split_heat_and_cool(
        gen.loads(q), units=units)


@call('hybrid', physical=True, p=('phys', KINDS), q=('loads',),
      s=('i', 1, 14), n=('i', 1, 30))
def _(p, q, s, n):
    e = plat.equivalance.compute_equivalent(gen.bhe(gen.build(p)))
    r = plat.radial_numerical_borehole.RadialNumericalBH(e)
    r.calc_sts_g_functions(e)
    H = plat.ground_loads.HybridLoad
    h = H(*H.split_heat_and_cool(gen.loads(q)), e, r, gen.sim(s, s + n))
    # durations are whole seconds of an hour and may fall on either side
    return [h.load, np.round(np.diff(h.hour), 3),
            h.rejection.monthly_total, h.extraction.monthly_peak,
            np.round(h.hourly_load_representation()[0][::97], 6)]


@call('doubling', units=('c', ['W', 'kW']), year=('c', [2018, 2019, 2020]))
def _(units, year):
    f = plat.ground_loads.create_synthetic_doubling_load_profile
    return [x[::5] for x in f(units=units, year=year)]


@call('one month', avg=('f', 1., 9.), peak=('f', 9., 20.), n=('i', 1, 20),
      day=('i', 0, 29))
def _(avg, peak, n, day):
    q = [0.] * (3 * 720)
    plat.ground_loads.synthetic_load_function(q, avg, peak, n, day, 720, 720)
    return q


# -------------------------------------------------------- ground heat exchanger
def exchanger(p, coords, q, s, n, lim=(35., 0.)):
    c = {'phys': p, 'coords': coords, 'heights': [50., 110., 170.],
         'loads': q, 'sim': [s, s + n, lim[0], lim[1], 170., 50.]}
    return ghx.build(c)[0]


@call('simulation', physical=True, p=('phys', KINDS), coords=('field', 4),
      q=('loads',), s=('i', 1, 14), n=('i', 0, 14), H=('f', 50., 170.))
def _(p, coords, q, s, n, H):
    g = exchanger(p, coords, q, s, n)
    g.bhe.b.H = H
    out = [g.simulate()]
    return out + [g.HPEFT, g.dTb]


@call('sizing', physical=True, p=('phys', KINDS), coords=('field', 4),
      q=('loads',), n=('i', 1, 25), hi=('f', 28., 45.), lo=('f', -8., 3.))
def _(p, coords, q, n, hi, lo):
    g = exchanger(p, coords, q, 1, n, (hi, lo))
    g.size()
    return [g.bhe.b.H, g.cost(40., 2.)]


# ------------------------------------------------------------------------ files
@call('files', a=('f', 1., 9.), indent=('c', [1, 4]), poly=('poly', 30.))
def _(a, indent, poly):
    d = tempfile.mkdtemp(prefix='vf-calls-')
    try:
        name = os.path.join(d, 'x')
        dt.utilities.js_dump(name, {'a': a, 'p': poly}, indent=indent)
        with open(name + '.json') as f:
            text = f.read()
        dt.utilities.create_input_file({'b': a}, file_name=name)
        return [text, dt.utilities.js_load(name + '.json'),
                dt.utilities.read_input_file(name + '.obj')]
    finally:
        shutil.rmtree(d)


@call('constraints', what=('c', ['near-square', 'rectangle', 'bi-rectangle',
                                 'bi-zoned']),
      have=('c', ['length', 'width', 'B', 'B_min', 'B_max_x', 'B_max_y']),
      rest=('c', [True, False]), a=('f', 1., 9.))
def _(what, have, rest, a):
    k = {x: a for x in ('length', 'width', 'B', 'B_min', 'B_max_x', 'B_max_y')
         if (x == have) != rest}
    g = dt.media.GeometricConstraints(**k)
    g.check_inputs(what)
    return vars(g)
