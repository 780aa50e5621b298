"""Flow given per borehole or for the system reaches each borehole."""
import random

import numpy as np

from .. import fake, gen, ghx, ref
from ..target import dt

PROPERTY = 'C19'
RULE = ('Seeded fields, boreholes and flow rates; a search object is moved '
        'through fields of different sizes and depths with the flow given per '
        'borehole or for the system. Flows, response factors and temperatures '
        'are compared with a fresh object and with the other way to give the '
        'same flow. Complete searches and designs of every kind run in a '
        'scripted world that records the flow of every simulation. Distinct '
        'by kind, flow basis and sizes.')
ASSUMPTIONS = ['Pipes of a multiple U-tube are connected in parallel.']
REQUIRED = {'system': 60, 'borehole': 60, 'pipe': 60, 'g': 40, 'equal': 20,
            'field': 60, 'invalid': 20,
            'searched': 1500, 'found': 60}


def plan(rng, tier):
    n = 60 if tier == 'quick' else 1200
    cases = []
    for i in range(n):
        r = random.Random(rng.random())
        p = gen.phys(r)
        p.pop('config', None)
        fields = [gen.field(r, 12) for _ in range(3)]
        cases.append({'phys': p, 'fields': fields,
                      'flow': ['borehole', 'system'][i % 2],
                      'V': round(r.uniform(.1, .6) * (1 if i % 2 == 0 else
                                                      r.randint(1, 12)), 4),
                      'H': [round(r.uniform(40., 200.), 2) for _ in range(4)],
                      'loads': gen.load_spec(r, ['seasonal', 'office']),
                      'sim': [1, 12, 35., 5., 200., 40.]})
    for i in range(4 * n):
        cases.append({'what': 'search', 'seed': rng.randrange(10 ** 9),
                      'how': HOW[i % len(HOW)],
                      'flow': ['borehole', 'system'][i // len(HOW) % 2]})
    return cases


HOW = ['1D', '2D', 'ZD', 'near-square', 'rectangle', 'bi-rectangle', 'bi-zoned']


def searched(c, m):
    """The flow of everything that a search simulates, and of its result."""
    r = random.Random(c['seed'])
    how, flow = c['how'], c['flow']
    hi = r.choice([100., 135., 200.])
    lo = hi * r.choice([.25, .5, .8])
    b = fake.parts(lo, hi)
    V = round(r.uniform(.2, .8) * (1. if flow == 'borehole' else
                                   r.randint(2, 30)), 4)
    B = round(r.uniform(4., 7.), 2)
    if how in ('1D', '2D', 'ZD'):
        k = r.choice([1, 1, 4])
        rows = [[gen.rect(k * i, k * j, B, B)
                 for i in range(1, r.randint(5, 12))]
                for j in range(1, r.randint(3, 5))]
        dom = rows[-1] if how == '1D' else rows
        cls = getattr(dt.search_routines, 'Bisection' + how)
        fields = [f for row in rows for f in row]

        def go():
            return fake.search(cls, dom, b, V=V, flow=flow)
    else:
        L, W = [round(r.uniform(28., 70.), 1) for _ in range(2)]
        gc = dt.media.GeometricConstraints(
            length=L, width=W, B=B, B_min=B,
            B_max_x=round(B + r.uniform(3., 5.), 2),
            B_max_y=round(B + r.uniform(3., 5.), 2))
        d = m.call('design', fake.design, b, gc, how, V, flow)
        dom = d.coordinates_domain if how in ('near-square', 'rectangle') else \
            [f for row in d.coordinates_domain_nested for f in row]
        fields = dom

        def go():
            return d.find_design(disp=False)
    some = r.choice(fields)
    f = fake.physical(0, hi * len(some) * r.uniform(.7, 1.), hi, 10., 0.)
    try:
        with fake.world(fake.World(f)) as w:
            s = go()
    except ValueError:
        m.note('no field suffices')
        s = None
    rho = b.fluid.rho
    for k in w.sims:
        n = len(k['coords'])
        Vb = V if flow == 'borehole' else V / n
        m.close('searched', [k['m'], k['V']], [Vb / 1000. * rho, Vb * n],
                rtol=1e-9, what='{} {} {}'.format(how, flow, n))
    for k in w.live:
        n = len(k['coords'])
        Vb = V if flow == 'borehole' else V / n
        m.close('searched', k['m'], Vb / 1000. * rho, rtol=1e-9,
                what='response factors, {} {} {}'.format(how, flow, n))
    if s is not None:
        n = len(s.selected_coordinates)
        Vb = V if flow == 'borehole' else V / n
        m.close('found', [s.ghe.bhe.m_flow_borehole, s.ghe.V_flow_system],
                [Vb / 1000. * rho, Vb * n], rtol=1e-9, what=how)
        m.seen('search', how, flow, n)


def run(c, m):
    if c.get('what') == 'search':
        return searched(c, m)
    b = gen.build(c['phys'])
    q = gen.loads(c['loads'])
    S = dt.search_routines.Bisection1D
    fields = [gen.tuples(f) for f in c['fields']]

    def make(flow, V=c['V'], b=b, dom=fields):
        return S(dom, V, b.borehole, b.cls, b.fluid, b.pipe, b.grout, b.soil,
                 gen.sim(*c['sim']), q, flow=flow, search=False)

    s = m.call('search object', make, c['flow'])
    judge(c, m, s.ghe, fields[0], c['phys']['H'], b)
    order = [1, 0, 2]
    for k, i in enumerate(order):
        H = c['H'][k]
        m.call('initialize', s.initialize_ghe, fields[i], H)
        T = judge(c, m, s.ghe, fields[i], H, b)
        m.seen(c['phys']['kind'], c['flow'], len(fields[i]))
    # the other way to give the same flow, on fresh objects
    n = len(fields[2])
    other = 'system' if c['flow'] == 'borehole' else 'borehole'
    V2 = c['V'] * n if other == 'system' else c['V'] / n
    b2 = gen.build(dict(c['phys'], H=c['H'][2]))
    s2 = m.call('the other way', make, other, V2, b2, [fields[2]])
    T1 = np.array(run_hybrid(m, s.ghe))
    T2 = np.array(run_hybrid(m, s2.ghe))
    tol = 1e-5 * ghx.scale(T1, c['phys']['soil'][2])
    m.close('equal', T1, T2, rtol=0., atol=tol, what='temperatures')
    for bad in ('Borehole', 'total', '', None):
        m.raises('invalid', ValueError, make, bad)


def run_hybrid(m, ghe):
    m.call('simulate', ghe.simulate)
    return ghe.HPEFT


def judge(c, m, ghe, coords, H, b):
    n = len(coords)
    Vb = c['V'] if c['flow'] == 'borehole' else c['V'] / n
    mb = Vb / 1000. * b.fluid.rho
    p = dict(c['phys'])
    m.close('system', [ghe.V_flow_system, ghe.nbh], [Vb * n, n], rtol=1e-12)
    m.close('borehole', [ghe.V_flow_borehole, ghe.bhe.m_flow_borehole],
            [Vb, mb], rtol=1e-12)
    m.close('pipe', ghe.bhe.m_flow_pipe,
            mb / (2. if p['kind'] == 'double' else 1.), rtol=1e-12)
    m.check('field', [tuple(x) for x in ghe.GFunction.bore_locations] ==
            coords and ghe.bhe.b.H == H and list(ghe.GFunction.g_lts) == [H],
            'another field or depth')
    m.close('field', [ghe.B_spacing, ghe.GFunction.B],
            [ghx.spacing(coords, p['r_b'])] * 2, rtol=1e-12)
    m.close('g', ghe.GFunction.g_lts[H],
            ref.lts(p, b.fluid, coords, H, mb), rtol=1e-5, atol=1e-6,
            what='response factors')
    m.close('resistance', ghe.bhe.compute_effective_borehole_resistance(),
            ref.rb_star(p, b.fluid, mb, H=H), rtol=1e-5)
