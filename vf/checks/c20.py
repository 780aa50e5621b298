"""Files: input files, JSON data and the exported design."""
import math
import os
import random
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import gen, ghx, fake
from ..state import state, differences
from ..target import dt, plat, REPO

PROPERTY = 'C20'
RULE = ('Design problems of all routines, heat exchangers, response factors '
        'and random JSON data are written to files in a scratch folder and '
        'read back, in the same and in another process; the exported design '
        'is compared with the heat exchanger it describes. Distinct by kind of '
        'object and its parameters.')
ASSUMPTIONS = ['Files are not changed by others between writing and reading.']
REQUIRED = {'design/state': 30, 'design/result': 20, 'json': 100,
            'ghe/state': 6, 'ghe/result': 6, 'export': 60, 'process': 3,
            'overwrite': 20}
CASE_SECONDS = 200


def plan(rng, tier):
    n = 3 if tier == 'quick' else 25
    cases = [{'what': 'design', 'seed': rng.randrange(10 ** 9)}
             for _ in range(40 * n)]
    cases += [{'what': 'json', 'seed': rng.randrange(10 ** 9)}
              for _ in range(30 * n)]
    cases += [{'what': 'ghe', 'seed': rng.randrange(10 ** 9)}
              for _ in range(8 * n)]
    cases += [{'what': 'export', 'seed': rng.randrange(10 ** 9)}
              for _ in range(32 * n)]
    cases += [{'what': 'process', 'seed': rng.randrange(10 ** 9)}
              for _ in range(3 * n)]
    return cases


def run(c, m):
    r = random.Random(c['seed'])
    tmp = tempfile.mkdtemp(prefix='vf-c20-')
    try:
        {'design': design, 'json': json_data, 'ghe': ghe, 'export': export,
         'process': process}[c['what']](r, m, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def name(r, tmp):
    return os.path.join(tmp, r.choice(['ghedt_input', 'a.b', 'name with blank',
                                       'x' * 40, 'ü']))


def problem(r):
    routine = r.choice(['near-square', 'rectangle', 'bi-rectangle',
                        'bi-zoned'])
    B = round(r.uniform(4., 6.), 2)
    L, W = round(r.uniform(26., 60.), 1), round(r.uniform(26., 60.), 1)
    k = {'near-square': dict(B=B, length=L),
         'rectangle': dict(length=L, width=W, B_min=B, B_max_x=B + 4.)}.get(
        routine, dict(length=L, width=W, B_min=B, B_max_x=B + 4.,
                      B_max_y=B + 5.))
    if r.random() < .3:
        k['no_go'] = [[0., 0.], [1., 0.], [1., 1.]]
    p = gen.phys(r, ('single', 'double', 'coaxial'))
    b = gen.build(p)
    q = gen.loads(gen.load_spec(r))
    s = gen.sim(1, r.choice([12, 240]), 35., r.uniform(-5., 5.), 135., 60.)
    d = dt.design.Design(
        round(r.uniform(.1, .6), 3), b.borehole, b.cls, b.fluid, b.pipe,
        b.grout, b.soil, s, dt.media.GeometricConstraints(**k), q,
        routine=routine, flow=r.choice(['borehole', 'system']))
    return d, p, q, routine


def roundtrip(m, r, o, tmp, label):
    f = name(r, tmp)
    before = state(o)
    m.call('create_input_file', dt.utilities.create_input_file, o,
           file_name=f)
    m.check(label + '/written', os.listdir(tmp) == [os.path.basename(f) +
                                                    '.obj'],
            lambda: os.listdir(tmp))
    m.check(label + '/unchanged', not differences(before, state(o)),
            lambda: differences(before, state(o))[:3])
    back = m.call('read_input_file', dt.utilities.read_input_file, f + '.obj')
    m.check(label + '/state', type(back) is type(o) and
            not differences(before, state(back)),
            lambda: differences(before, state(back))[:3])
    return back, f


def design(r, m, tmp):
    d, p, q, routine = problem(r)
    back, f = roundtrip(m, r, d, tmp, 'design')
    # the same field is found
    seed, amp = r.randrange(10 ** 6), r.choice([0., .5])
    ex = fake.physical(seed, 135. * r.uniform(2., 20.), 135., 20., amp)
    got = []
    for o in (d, back):
        with fake.world(fake.World(ex, 'max', (0, 0))):
            try:
                s = o.find_design()
                got.append((fake.key(s.selected_coordinates), s.selection_key,
                            s.ghe.bhe.b.H))
            except ValueError as e:
                got.append(str(e))
    m.check('design/result', got[0] == got[1], lambda: 'another design from '
            'the file: {}'.format([str(g)[:80] for g in got]))
    # a second problem in the same file replaces the first
    d2, _, _, _ = problem(r)
    m.call('again', dt.utilities.create_input_file, d2, file_name=f)
    back = m.call('read again', dt.utilities.read_input_file, f + '.obj')
    m.check('overwrite', not differences(state(d2), state(back)),
            lambda: differences(state(d2), state(back))[:3])
    # so does one that only differs in a number, in a file of equal size
    d2.V_flow = round(d2.V_flow * 1.5 + .0125, 4)
    m.call('again', dt.utilities.create_input_file, d2, file_name=f)
    back = m.call('read again', dt.utilities.read_input_file, f + '.obj')
    m.check('overwrite', not differences(state(d2), state(back)),
            lambda: differences(state(d2), state(back))[:3])
    # and what is done with the design read does not reach the file
    back.V_flow = -1.
    back = m.call('read again', dt.utilities.read_input_file, f + '.obj')
    m.check('overwrite', not differences(state(d2), state(back)),
            lambda: differences(state(d2), state(back))[:3])
    m.seen('design', routine, p['kind'], len(q))


def random_json(r, depth=0):
    k = r.randrange(9 if depth < 4 else 6)
    if k == 0:
        return r.choice([True, False, None])
    if k == 1:
        return r.randint(-10 ** 12, 10 ** 12)
    if k in (2, 3):
        return r.choice([1e-300, 1e300, .1, 1 / 3, r.gauss(0, 1), -0.,
                         r.uniform(-1e6, 1e6), 5e-324])
    if k in (4, 5):
        return r.choice(['', 'g', 'Über', '"quoted"', 'a\nb', '\\', '9.0_1'])
    if k in (6, 7):
        return [random_json(r, depth + 1) for _ in range(r.randint(0, 6))]
    return {r.choice(['g', 'logtime', 'k' + str(i), '5._100._.075', 'ö']):
            random_json(r, depth + 1) for i in range(r.randint(0, 5))}


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def json_data(r, m, tmp):
    for i in range(6):
        d = {'data': random_json(r), 'more': random_json(r)}
        f = os.path.join(tmp, 'f{}.x'.format(r.randrange(3)))
        kw = r.choice([{}, {'indent': 2}, {'indent': None}])
        m.call('js_dump', dt.utilities.js_dump, f, d, **kw)
        back = m.call('js_load', dt.utilities.js_load, f + '.json')
        m.check('json', same(d, back), lambda: 'wrote {} and read {}'.format(
            d, back))
        # a number of the same length in its place, and nothing of what is
        # done with the data read
        for v in (1.25, 2.75, 3.5e+17):
            m.call('js_dump', dt.utilities.js_dump, f, {'data': [v]}, **kw)
            for _ in range(2):
                back = m.call('js_load', dt.utilities.js_load, f + '.json')
                m.check('json', back == {'data': [v]}, lambda: 'wrote {} and '
                        'read {}'.format(v, back))
                back['data'].append(0.)
    folder = os.path.join(tmp, 'a', 'b')
    for _ in range(2):
        m.call('create_if_not', dt.utilities.create_if_not, folder)
        m.check('folder', os.path.isdir(folder))
        open(os.path.join(folder, 'kept'), 'a').close()
    m.check('folder', os.path.exists(os.path.join(folder, 'kept')),
            'the contents of the folder are gone')
    m.seen('json', str(d)[:60])


def some_ghe(r, kinds=('single', 'double', 'coaxial'), heights=None, H=None):
    H = H or round(r.uniform(50., 150.), 1)
    p = gen.phys(r, kinds, H=H)
    p.pop('config', None)
    hs = heights or [H]
    c = {'phys': p, 'coords': gen.some_field(r, 9), 'heights': hs,
         'loads': gen.load_spec(r), 'sim': [1, 24, 35., 0., max(hs), min(hs)]}
    g, b, q = ghx.build(c)
    return g, b, q, c


def ghe(r, m, tmp):
    H = round(r.uniform(60., 140.), 1)
    g, b, q, c = some_ghe(r, heights=[40., 90., 160.], H=H)
    T0 = None
    if r.random() < .5:
        g.simulate()
        T0 = list(g.HPEFT)
    back, f = roundtrip(m, r, g, tmp, 'ghe')
    if T0:
        m.check('ghe/kept', list(back.HPEFT) == T0)
    g.simulate()
    m.call('simulate', back.simulate)
    tol = 1e-5 * ghx.scale(g.HPEFT, c['phys']['soil'][2])
    m.close('ghe/result', back.HPEFT, g.HPEFT, rtol=0., atol=tol)
    m.check('ghe/report', len(repr(back)) > 100)
    m.seen('ghe', c['phys']['kind'], len(c['coords']))


def export(r, m, tmp):
    H = r.choice([round(r.uniform(12., 40.), 1), round(r.uniform(40., 300.), 1)])
    g, b, q, c = some_ghe(r, heights=r.choice([[H], [.5 * H, H, 1.5 * H]]),
                          H=H)
    if len(g.GFunction.g_lts) > 1:
        H = round(H * r.uniform(.7, 1.3), 3)
        g.bhe.b.H = H
        m.call('simulate', g.simulate)

    class Found:
        pass
    s = Found()
    s.ghe, s.selected_coordinates = g, gen.tuples(c['coords'])
    f = name(r, tmp)
    before = state(g)
    m.call('export', dt.search_routines.oak_ridge_export, s, f)
    m.check('export/unchanged', not differences(before, state(g)),
            lambda: differences(before, state(g))[:3])
    m.check('export/file', os.listdir(tmp) == [os.path.basename(f) + '.json'],
            lambda: os.listdir(tmp))
    d = m.call('load', dt.utilities.js_load, f + '.json')
    p = c['phys']
    e = g.bhe_eq
    m.check('export', d['borehole_length'] == g.bhe.b.H == H,
            lambda: d['borehole_length'])
    m.check('export', d['number_of_boreholes'] == len(c['coords']))
    u = d['single_u_tube']
    m.close('export', [u[k] for k in (
        'r_b', 'r_in', 'r_out', 's', 'm_flow_borehole', 'k_g', 'k_s', 'k_p')],
        [e.borehole.r_b, e.pipe.r_in, e.pipe.r_out, e.pipe.s,
         p['V'] / 1000. * b.fluid.rho, e.grout.k, p['soil'][0], e.pipe.k],
        rtol=1e-12, what='equivalent')
    m.close('export', u['pos'], np.array(e.pos), rtol=1e-12)
    x = np.array([v['ln_tts'] for v in d['g_function_pairs']])
    y = np.array([v['g_value'] for v in d['g_function_pairs']])
    curve = g.grab_g_function(g.B_spacing / H)
    m.check('export/increasing', bool(np.all(np.diff(x) > 0)), 'ln(t/ts)')
    m.close('export/curve', y, curve(x), rtol=1e-7, atol=1e-7)
    m.check('export/points', all(np.min(np.abs(curve.x - v)) < 1e-8
                                    for v in x),
            'points that are not of the response factors')
    m.close('export/long', x[-27:], curve.x[-27:], rtol=1e-12, atol=1e-12)
    m.check('export/short', min(20, len(curve.x) - 28) <= len(x) - 27 and
            x[0] <= curve.x[3],
            lambda: '{} pairs from {}'.format(len(x), x[0]))
    gaps = np.diff(x[:-26])
    allg = np.searchsorted(curve.x, x[:-26] - 1e-9)
    m.check('export/spread', np.max(np.diff(allg)) <= 3 * max(
        1, (len(curve.x) - 27) / 30.), lambda: np.diff(allg).max())
    m.seen('export', p['kind'], len(x), round(H))
    m.sample = {'pairs': len(x)}


READ = """
import sys
sys.path.insert(0, {verif!r})
from vf.target import dt
from vf.state import state
import hashlib, json
o = dt.utilities.read_input_file({path!r})
print('STATE', hashlib.sha1(json.dumps(state(o), sort_keys=True, default=str)
                            .encode()).hexdigest())
"""


def process(r, m, tmp):
    import hashlib
    import json
    d, p, q, routine = problem(r)
    f = name(r, tmp)
    m.call('create_input_file', dt.utilities.create_input_file, d, f)
    want = hashlib.sha1(json.dumps(state(d), sort_keys=True, default=str)
                        .encode()).hexdigest()
    verif = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    out = subprocess.run(
        [sys.executable, '-c', READ.format(verif=verif, path=f + '.obj')],
        cwd=tmp, capture_output=True, text=True, timeout=120,
        env=dict(os.environ, VF_REPO=REPO))
    m.check('process', out.stdout.strip().endswith('STATE ' + want),
            lambda: out.stdout[-200:] + out.stderr[-400:])
    m.seen('process', routine)
