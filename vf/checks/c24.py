"""Reports and plots show what was computed."""
import math
import os
import random
import re
import shutil
import tempfile

import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa

from .. import gen, ghx, hyb, ref  # noqa
from ..target import dt, plat  # noqa
from . import c11  # noqa

PROPERTY = 'C24'
RULE = ('Seeded boreholes (single, double, triple, coaxial; series and '
        'parallel), media, horizons and loads; reports are parsed and the '
        'contents of figures are read back, against values computed from the '
        'inputs alone. Distinct by kind of report and structure of the input.')
ASSUMPTIONS = ['Reports round to four decimals.',
               'A report is a text of lines "name = value (unit)".',
               'Figures are judged by the data of their lines and points.']
REQUIRED = {'bhe': 300, 'bhe/media': 200, 'bhe/flow': 60, 'ghe': 60,
            'ghe/eq': 10, 'ghe/g': 10, 'ghe/coordinates': 10, 'ghe/peaks': 10,
            'ghe/temperatures': 20, 'ghe/unchanged': 10,
            'media': 60, 'plot/loads': 20, 'plot/fluid': 100,
            'plot/fluid/mark': 50, 'plot/g': 20, 'plot/field': 60,
            'plot/area': 60, 'plot/domain': 10, 'plot/inputs': 40}
CHUNK = 2
NAMES = ['January', 'February', 'March', 'April', 'May', 'June', 'July',
         'August', 'September', 'October', 'November', 'December']


def plan(rng, tier):
    n = 2 if tier == 'quick' else 12
    kinds = ['bhe'] * 80 + ['media'] * 20 + ['ghe'] * 24 + ['loads'] * 24 + \
        ['field'] * 24 + ['gplot'] * 12 + ['domain'] * 8
    cases = []
    for k in kinds * n:
        c = {'what': k, 'seed': rng.randrange(10 ** 9)}
        if k in ('bhe', 'ghe', 'loads', 'gplot'):
            c['phys'] = gen.phys(rng, ('single', 'double', 'triple',
                                       'coaxial') if k == 'bhe' else
                                 ('single', 'double', 'coaxial'))
        cases.append(c)
    cases.append({'what': 'domain', 'seed': rng.randrange(10 ** 9),
                  'many': 1000 + rng.randint(1, 20)})
    return cases


def run(c, m):
    try:
        globals()['_' + c['what']](c, random.Random(c['seed']), m)
    finally:
        plt.close('all')


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)'


def parse(text):
    """[(name, numbers)] of the lines "name = value (unit)"."""
    out = []
    for line in text.splitlines():
        name, eq, value = line.partition('= ')
        if not eq or '(' in name and ' ' not in name:
            continue
        value = re.sub(r'\([^()]*[A-Za-z][^()]*\)\s*$', '', value)
        out.append((name.strip(), [float(x) for x in re.findall(NUM, value)]))
    return out


def values(rows, name):
    return [v for k, v in rows if k.lower() == name.lower()]


def one(m, mon, rows, name, want, atol=5.1e-5, rtol=1e-9, which=0, n=None):
    got = values(rows, name)
    if not m.check(mon, len(got) > which and (n is None or len(got) == n),
                   lambda: '{} is reported {} times'.format(name, len(got))):
        return
    m.close(mon, got[which], np.atleast_1d(want), atol=atol, rtol=rtol,
            what=name)


def reynolds(mf, r, mu):
    return 2. * mf / (mu * math.pi * r)


def judge_bhe(m, mon, rows, p, fluid, mf, config):
    """p: the inputs; rows: those of one borehole heat exchanger."""
    d = ref.resist(p, fluid, mf, config)
    one(m, mon, rows, 'Mass flow borehole', mf)
    Rb = ref.rb_star(p, fluid, mf, config=config)
    one(m, mon, rows, 'Effective borehole resistance', Rb, atol=1.2e-4)
    if p['kind'] == 'coaxial':
        (a, b), (e, f) = p['r_in'], p['r_out']
        one(m, mon, rows, 'Mass flow pipe', mf)
        for name, v in (
                ('Inner pipe resistance', d['R_p_in']),
                ('Outer pipe resistance', d['R_p_out']),
                ('Grout resistance', math.log(p['r_b'] / f) /
                 (2. * math.pi * p['grout'][0])),
                ('Reynolds annulus', reynolds(mf, e + b, fluid.mu)),
                ('Inner annulus convection coef', d['h_a_in']),
                ('Outer annulus convection coef', d['h_a_out']),
                ('Inner annulus resistance', d['R_f_a_in']),
                ('Outer annulus resistance', d['R_f_a_out']),
                ('Reynolds inner', reynolds(mf, a, fluid.mu)),
                ('Inner Convection coefficient', d['h_in']),
                ('Fluid-to-fluid resistance', d['R_ff']),
                ('Fluid-to-pipe resistance', d['R_fp'])):
            one(m, mon, rows, name, v)
        return
    for name, v in (('Mass flow pipe', d['m_pipe']),
                    ('Reynolds number', reynolds(d['m_pipe'], p['r_in'],
                                                 fluid.mu)),
                    ('Convection coefficient', d['h']),
                    ('Pipe resistance', d['R_p']),
                    ('Fluid resistance', d['R_f'])):
        one(m, mon, rows, name, v)


def judge_media(m, mon, rows, p, n):
    k = p['pipe_k']
    for j, v in enumerate((p['soil'][0], p['grout'][0], k)):
        one(m, mon, rows, 'Thermal conductivity', v, which=j, n=3)
    for j, v in enumerate((p['soil'][1], p['grout'][1], p['pipe_rhoCp'])):
        one(m, mon, rows, 'Volumetric heat capacity', v, which=j, n=3)
    one(m, mon, rows, 'Undisturbed ground temperature', p['soil'][2])
    if p['kind'] == 'coaxial':
        one(m, mon, rows, 'Pipe inner radii', p['r_in'])
        one(m, mon, rows, 'Pipe outer radii', p['r_out'])
    else:
        one(m, mon, rows, 'Pipe inner radius', p['r_in'])
        one(m, mon, rows, 'Pipe outer radius', p['r_out'])
    one(m, mon, rows, 'Shank spacing (pipe to pipe)', p['s'])
    one(m, mon, rows, 'Pipe roughness', p['eps'], atol=0.)
    one(m, mon, rows, 'Number of pipes', n)


def _bhe(c, r, m):
    p = c['phys']
    b = gen.build(p)
    mf = b.m_flow * r.choice([1., 1., .5, 2.])
    config = p.get('config')
    bh = m.call('bhe', gen.bhe, b)
    how = r.choice(['plain', 'flow', 'height', 'both'])
    p = dict(p)
    if how in ('height', 'both'):
        p['H'] = round(p['H'] * r.uniform(.5, 1.5), 2)
        bh.b.H = p['H']
    if how in ('flow', 'both'):
        m.call('update', bh.update_thermal_resistance, mf)
    elif how == 'height':
        m.call('update', bh.update_thermal_resistance)
    if how in ('plain', 'height'):
        mf = b.m_flow
    text = m.call('report', repr, bh)
    rows = parse(text)
    judge_bhe(m, 'bhe', rows, p, b.fluid, mf, config)
    judge_media(m, 'bhe/media', rows, p, gen.N_U.get(p['kind'], 1))
    m.check('bhe/flow', len(values(rows, 'Mass flow borehole')) == 1)
    if config:
        line = [x for x in text.splitlines() if x.startswith('Config')]
        m.check('bhe', len(line) == 1 and line[0].split('=')[1].strip() ==
                config, lambda: line)
    m.seen('bhe', p['kind'], config, how)


def _media(c, r, m):
    k, rc, T = r.uniform(.5, 5), r.uniform(1e6, 4e6), r.uniform(-2, 30)
    rows = parse(repr(plat.media.Soil(k, rc, T)))
    one(m, 'media', rows, 'Thermal conductivity', k, n=1)
    one(m, 'media', rows, 'Volumetric heat capacity', rc, n=1)
    one(m, 'media', rows, 'Undisturbed ground temperature', T, n=1)
    rows = parse(repr(plat.media.Grout(k, rc)))
    one(m, 'media', rows, 'Thermal conductivity', k, n=1)
    one(m, 'media', rows, 'Volumetric heat capacity', rc, n=1)
    v = [r.randint(1, 13), r.randint(14, 300), r.uniform(25, 45),
         r.uniform(-5, 10), r.uniform(100, 250), r.uniform(10, 90)]
    rows = parse(repr(gen.sim(*v)))
    for name, x in zip(('Start month', 'End month', 'Max EFT Allowable',
                        'Min EFT Allowable', 'Maximum height',
                        'Minimum height'), v):
        one(m, 'media', rows, name, x, n=1)
    m.seen('media', v[0] > 1)


def section(text, head, stop):
    a = text.find(head)
    z = text.find(stop, a + len(head)) if stop else len(text)
    return text[a:z if z > 0 else len(text)] if a >= 0 else ''


def _ghe(c, r, m):
    p = c['phys']
    p.pop('config', None)
    coords = gen.some_field(r, 6)
    s, e = gen.horizon(r, short=True)
    sim = [s, e, round(r.uniform(28, 40), 1), round(r.uniform(-3, 8), 1),
           150., 60.]
    spec = gen.load_spec(r, ['seasonal', 'heating', 'cooling', 'office',
                             'blocks', 'weekly'])
    h = p['H']
    live = r.random() < .5
    heights = [h] if live else [round(h * .7, 2), h, round(h * 1.4, 2)]
    ghe, b, q = m.call('GHE', ghx.build, {
        'phys': p, 'coords': coords, 'heights': heights, 'sim': sim,
        'loads': spec})
    simulated = r.random() < .7
    top = low = None
    if simulated:
        if not live:
            ghe.bhe.b.H = round(h * r.uniform(.75, 1.35), 2)
        top, low = m.call('simulate', ghe.simulate, 'hybrid')
    state = (list(ghe.HPEFT), ghe.bhe.b.H, ghe.hybrid_load.load.tolist())
    text = m.call('report', repr, ghe)
    rows = parse(text)
    one(m, 'ghe', rows, 'Number of borheoles', len(coords), n=1)
    one(m, 'ghe', rows, 'Depth of the borehole', ghe.bhe.b.H, n=1)
    one(m, 'ghe', rows, 'Bore hole spacing', ghx.spacing(coords, p['r_b']),
        n=1)
    for name, x in zip(('Start month', 'End month', 'Max EFT Allowable',
                        'Min EFT Allowable', 'Maximum height',
                        'Minimum height'), sim):
        one(m, 'ghe', rows, name, x, n=1)
    # the borehole heat exchanger, and the equivalent one
    parts = text.split('Equivalent Borehole Heat Exchanger')
    p2 = dict(p, H=ghe.bhe.b.H)
    mf = p['V'] / 1000. * b.fluid.rho
    judge_bhe(m, 'ghe', parse(parts[0]), p2, b.fluid, mf, None)
    eq = parse(parts[1])
    # of fresh objects (what an equivalent borehole keeps is judged by C18)
    fresh = plat.equivalance.compute_equivalent(
        gen.bhe(gen.build(p2), config='parallel'))
    one(m, 'ghe/eq', eq, 'Effective borehole resistance',
        fresh.compute_effective_borehole_resistance(), atol=3e-4)
    one(m, 'ghe/eq', eq, 'Mass flow borehole', mf)
    if simulated:
        one(m, 'ghe/temperatures', rows, 'Max HP entering temp', top, n=1)
        one(m, 'ghe/temperatures', rows, 'Min HP entering temp', low, n=1)
        one(m, 'ghe/temperatures', rows, 'Excess fluid temperature',
            max(top - sim[2], sim[3] - low), n=1)
    else:
        m.check('ghe/temperatures',
                not values(rows, 'Max HP entering temp'), 'without simulation')
    # statistics of the loads
    table = {}
    for line in text.splitlines():
        f = line.split()
        if len(f) == 11 and f[0] in NAMES:
            table[f[0]] = [float(x) for x in f[1:]]
    rej, ext = (hyb.stats(x) for x in hyb.parts(q))
    m.demand('ghe/peaks', list(table) == NAMES, lambda: sorted(table))
    for i, name in enumerate(NAMES):
        w = [x for j in range(4) for x in (rej[i][j], ext[i][j])]
        m.close('ghe/peaks', table[name][:8], w, rtol=1e-5, atol=6e-6,
                what=name)
    # coordinates
    got = []
    tail = section(text, 'Coordinates', 'G-Function')
    for line in tail.splitlines():
        f = line.split('\t')
        if len(f) == 2 and re.fullmatch(NUM, f[0]):
            got.append([float(f[0]), float(f[1])])
    m.close('ghe/coordinates', got, coords, rtol=0., atol=1e-9)
    # the g-function: every pair on the curve the simulation uses
    R = ghx.Reference({'phys': p, 'coords': coords}, ghe.bhe.b.H,
                      heights=heights)
    if not simulated:
        pass  # no height was changed, either
    pts = []
    for line in text[text.find('ln(t/ts)'):].splitlines()[1:]:
        f = line.split('\t')
        if len(f) == 2:
            pts.append([float(f[0]), float(f[1])])
    pts = np.array(pts)
    m.demand('ghe/g', pts.ndim == 2 and len(pts) >= 40,
             lambda: 'only {} pairs'.format(len(pts)))
    m.check('ghe/g', bool(np.all(np.diff(pts[:, 0]) > 0)), 'order of time')
    m.close('ghe/g', pts[-27:, 0], ref.LOG_TIMES, rtol=0., atol=5.1e-5)
    size = 1. + np.abs(R.glts).max()
    m.close('ghe/g', pts[-27:, 1], R.glts, rtol=1e-4, atol=6e-5 + 1e-5 * size)
    x = np.clip(pts[:, 0], R.lng[0], R.lng[-1])
    slope = np.max(np.abs(np.diff(R.g) / np.diff(R.lng)))
    m.close('ghe/g', pts[:, 1], np.interp(x, R.lng, R.g), rtol=1e-3,
            atol=1.1e-4 * (1 + slope) + 2e-3)
    after = (list(ghe.HPEFT), ghe.bhe.b.H, ghe.hybrid_load.load.tolist())
    m.check('ghe/unchanged', state == after, 'printing changed the results')
    m.check('ghe/unchanged', repr(ghe) == text, 'a second report differs')
    m.seen('ghe', p['kind'], simulated, len(heights), s > 1)


def points(ax):
    """Scatter plots: [(label, Nx2)]."""
    return [(a.get_label(), np.asarray(a.get_offsets(), dtype=float))
            for a in ax.collections]


def _loads(c, r, m):
    p = c['phys']
    p.pop('config', None)
    kind = r.choice(['seasonal', 'heating', 'cooling', 'weekly', 'weekly',
                     'blocks', 'zero', 'plateau', 'monthly', 'sameday'])
    q = np.array(gen.loads(gen.load_spec(r, [kind])))
    h, _, _ = m.call('HybridLoad', hyb.hybrid, p, list(q),
                     [1, 12, 35., 5., 100., 50.])
    fig = m.call('plot', h.visualize_hourly_heat_extraction)
    pts = {}
    for lab, xy in points(fig.axes[0]):
        key = 'heating' if 'heating' in lab or 'extraction' in lab and \
            'rejection' not in lab else 'cooling'
        m.check('plot/loads', key not in pts, 'twice ' + key)
        pts[key] = xy
    for key, sel in (('heating', q > 0), ('cooling', q < 0)):
        at = np.flatnonzero(sel)
        if not at.size:
            m.check('plot/loads', key not in pts or not pts[key].size,
                    lambda: 'points of absent ' + key)
            continue
        if m.check('plot/loads', key in pts, 'no points of ' + key):
            want = np.column_stack([at, q[at] / 1000.])
            m.close('plot/loads', pts[key][np.argsort(pts[key][:, 0])], want,
                    rtol=1e-9, atol=1e-9)
    m.seen('loads', kind, len(pts))
    plt.close(fig)
    # temperatures of the two days around the peak
    eq, rn = hyb.base(p)
    x = np.log(3600. * np.arange(1, 49) / rn.t_s)
    g = np.interp(x, rn.lntts, rn.g)
    two_pi_k = 2. * np.pi * p['soil'][0]
    Rb = eq.compute_effective_borehole_resistance()
    sides = {}
    for name, kw, o in zip(('Rejection', 'Extraction'), hyb.parts(q),
                           (h.rejection, h.extraction)):
        st, sl = hyb.stats(kw), hyb.month_slices(ref.MONTHS)
        for i in range(1, 13):
            tot, pk, avg, day = st[i - 1]
            if pk <= 0.:
                sides[name, i] = (np.zeros(49), np.zeros(49), 0.)
                continue
            first = sl[i - 1].start + (day - 1) * 24
            w = np.array([kw[k % 8760] for k in range(first, first + 48)])
            top = w.max()
            sides[name, i] = (
                c11.response(np.full(48, top - avg), g, two_pi_k, Rb),
                c11.response((w - avg) / top * w, g, two_pi_k, Rb),
                float(o.monthly_peak_duration[i]))
    for i in r.sample(range(1, 13), 4):
        sel = r.choice([None, ['Extraction'], ['Rejection'],
                        ['Extraction', 'Rejection']])
        kw = {} if sel is None else {'extraction': 'Extraction' in sel,
                                     'rejection': 'Rejection' in sel}
        fig = m.call('plot', h.visualize_fluid_simulation_results, i, **kw)
        ax = fig.axes[0]
        lines = {a.get_label(): np.asarray(a.get_xydata(), dtype=float)
                 for a in ax.lines if not a.get_label().startswith('_')}
        shown = sel or ['Extraction', 'Rejection']
        want = {w + n for n in shown for w in ('', 'Peak ')}
        m.check('plot/fluid', set(lines) == want, lambda: (i, sorted(lines)))
        marks = [xy for lab, xy in points(ax)]
        for n in shown:
            pk, nm, d = sides[n, i]
            for lab, T in ((n, nm), ('Peak ' + n, pk)):
                if lab in lines:
                    m.close('plot/fluid', lines[lab], np.column_stack(
                        [np.arange(49.), T]), rtol=1e-6,
                        atol=1e-6 * (1. + np.abs(T).max()), what=lab)
            ok = any(np.allclose(a, [[d, nm.max()]], rtol=1e-5, atol=1e-4)
                     for a in marks)
            m.check('plot/fluid/mark', ok, lambda: 'month {} {}: no mark at '
                    '{}'.format(i, n, (d, nm.max())))
        m.seen('fluid', kind, str(sel), pk.any())
        plt.close(fig)


def _field(c, r, m):
    xy = [(round(r.uniform(0, 50), 3), round(r.uniform(0, 80), 3))
          for _ in range(r.choice([r.randint(1, 30), 300]))]
    asl = r.random() < .5
    xy = [list(a) for a in xy] if asl else xy
    keep = [tuple(a) for a in xy]
    log_time = list(ref.LOG_TIMES)
    g = {100.: [float(j) for j in range(27)]}
    G = dt.gfunction.GFunction(5., {100.: .075}, {100.: 2.}, g, log_time,
                               [tuple(a) for a in xy])
    other = [(1., 2.), (3., 4.5)]
    for k in ({}, {'bore_locations': other}):
        fig, ax = m.call('field', G.visualize_borefield, **k)
        pts = points(ax)
        m.check('plot/field', len(pts) == 1)
        m.close('plot/field', pts[0][1], other if k else keep, rtol=0.,
                atol=1e-12)
    fig, ax = m.call('coordinates', dt.coordinates.visualize_coordinates,
                     xy) or (plt.gcf(), plt.gcf().axes[0])
    m.close('plot/field', points(ax)[0][1], keep, rtol=0., atol=1e-12)
    # a property
    n = r.randint(3, 9)
    ang = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
    per = [[30 + 30 * math.cos(a), 30 + 30 * math.sin(a)] for a in ang]
    zone = [[25., 25.], [35., 25.], [30., 35. + r.random()]] \
        if r.random() < .6 else None
    per0, zone0 = [list(a) for a in per], zone and [list(a) for a in zone]
    drawn = xy if r.random() < .8 else []
    edge = per if r.random() < .8 else []
    k = {} if zone is None else {'no_go': zone}
    fig, ax = m.call('area', G.visualize_area_and_constraints, edge, drawn,
                     **k)
    lines = [np.asarray(a.get_xydata()) for a in ax.lines]
    want = ([per0 + per0[:1]] if edge else []) + \
        ([zone0 + zone0[:1]] if zone else [])
    m.check('plot/area', len(lines) == len(want), lambda: len(lines))
    for a, w in zip(lines, want):
        m.close('plot/area', a, w, rtol=0., atol=1e-12, what='outline')
    if len(lines) == 2:
        m.check('plot/area', ax.lines[0].get_color() !=
                ax.lines[1].get_color(), 'same color')
    pts = points(ax)
    m.check('plot/area', len(pts) == (1 if drawn else 0), lambda: len(pts))
    if pts:
        m.close('plot/area', pts[0][1], keep, rtol=0., atol=1e-12)
    m.check('plot/inputs', per == per0 and zone == zone0 and
            [tuple(a) for a in xy] == keep, 'the inputs were changed')
    m.seen('field', len(xy) > 1, n, zone is None, bool(drawn), bool(edge))


def _gplot(c, r, m):
    heights = [24., 48., 96., 192., 384.][:r.randint(1, 5)]
    g = {h: [float(x) for x in np.cumsum(np.random.RandomState(
        r.randrange(10 ** 6)).uniform(0, 2, 27))] for h in heights}
    keep = {h: list(v) for h, v in g.items()}
    G = dt.gfunction.GFunction(5., {h: .075 for h in heights},
                               {h: 2. for h in heights}, g,
                               list(ref.LOG_TIMES), [(0., 0.), (0., 5.)])
    fig, ax = m.call('plot', G.visualize_g_functions)
    lines = {}
    for a in ax.lines:
        if len(a.get_xdata()) == 27:
            lines[a.get_label()] = np.asarray(a.get_xydata(), dtype=float)
    m.check('plot/g', len(lines) == len(heights), lambda: sorted(lines))
    for h in heights:
        lab = '5/{}'.format(int(h))
        if m.check('plot/g', lab in lines, lambda: (lab, sorted(lines))):
            m.close('plot/g', lines[lab], np.column_stack(
                [ref.LOG_TIMES, keep[h]]), rtol=0., atol=1e-12)
    m.check('plot/inputs', G.g_lts == keep, 'the g-functions were changed')
    m.seen('gplot', len(heights))


def _domain(c, r, m):
    fields = [[(x, y) for x, y in gen.field(r, 12)]
              for _ in range(r.choice([r.randint(1, 4)] * 9 + [14]))]
    many = c.get('many')
    if many:
        # more fields than the three digits of the names of the files
        fields = [[(float(i), 0.), (0., 5. + i % 7)] for i in range(many)]
    keep = [list(f) for f in fields]
    drawn = []
    real = matplotlib.figure.Figure.savefig

    def savefig(fig, name, *a, **k):
        drawn.append((str(name), [x for _, x in points(fig.axes[0])]))
        if many:
            open(str(name) + '.png', 'w').close()
            return
        return real(fig, name, *a, **dict(k, dpi=20))
    tmp = tempfile.mkdtemp(prefix='vf24')
    try:
        matplotlib.figure.Figure.savefig = savefig
        out = os.path.join(tmp, 'a', 'b') if r.random() < .5 else tmp
        m.call('visualize_domain', dt.domains.visualize_domain, fields, out)
        files = sorted(os.listdir(out))
    finally:
        matplotlib.figure.Figure.savefig = real
        shutil.rmtree(tmp, ignore_errors=True)
    m.check('plot/domain', len(files) == len(fields), lambda: files)
    if m.check('plot/domain', len(drawn) == len(fields),
               lambda: len(drawn)):
        for (name, pts), f in zip(
                drawn if many else sorted(drawn), keep):
            m.check('plot/domain', len(pts) == 1)
            m.close('plot/domain', pts[0], f, rtol=0., atol=1e-12, what=name)
    m.check('plot/inputs', [list(f) for f in fields] == keep)
    m.seen('domain', len(fields))
