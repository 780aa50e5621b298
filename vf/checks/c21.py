"""No hidden state: results depend on the arguments and nothing else."""
import copy
import json
import random
import re
import sys
import threading

import numpy as np

from .. import calls, gen, ghx, fake, pristine
from ..state import state, differences
from ..target import dt, plat, gt

PROPERTY = 'C21'
RULE = ('Seeded histories of operations (simulate at several depths and with '
        'both methods, size, response factors, reports, rejected calls) '
        'interleaved over several heat exchangers, and the same work in '
        'concurrent threads, compared with fresh objects; designs repeated on '
        'the same object; domains computed again after their results were '
        'overwritten. Distinct by history.')
ASSUMPTIONS = [
    'The depth of the borehole that is handed over is used as the working '
    'depth, documented for sizing; each heat exchanger has its own borehole.']
REQUIRED = {'fresh': 60, 'inputs': 100, 'threads': 12, 'again': 30,
            'domains': 60, 'after-rejection': 5, 'pristine': 600,
            'pristine/kept': 600}
CASE_SECONDS = 240


def plan(rng, tier):
    n = 1 if tier == 'quick' else 30
    kinds = ['history'] * 24 + ['threads'] * 8 + ['design'] * 24 + \
        ['domain'] * 24 + ['calls'] * 64
    return [{'what': k, 'seed': rng.randrange(10 ** 9)}
            for k in kinds for _ in range(n)]


def run(c, m):
    pristine.start()  # before the code under test is used
    r = random.Random(c['seed'])
    {'calls': sequence, 'history': history, 'threads': threads, 'design': design,
     'domain': domain}[c['what']](r, m)


# ----------------------------------------------------------------------- calls
def sequence(r, m):
    """Calls in a process that has a past, against a process without one."""
    todo = []
    names = r.sample(sorted(calls.CALLS), 4)
    for name in names:
        base = calls.params(r, name)
        group = [base] + [calls.neighbour(r, name, base) for _ in range(3)]
        todo += [(name, p) for p in group + [r.choice(group)]]
    if r.random() < .6:
        r.shuffle(todo)
    done = []
    for name, p in todo:
        given = copy.deepcopy(p)
        got = m.call(name, calls.perform, name, p)
        now = state(got)
        m.check('inputs', p == given, name + ' changed its input')
        kind, want = pristine.ask(name, given)
        if kind != 'ok':
            raise RuntimeError('the pristine process failed: ' + want)
        tol = 1e-4 if name in calls.PHYSICAL else 1e-12
        m.check('pristine', alike(now, want, tol), lambda: '{} of {} after '
                '{}'.format(name, p, [n for n, _, _ in done]) +
                str(differences(now, want)[:3]))
        done.append((name, got, now))
    for name, got, now in done:
        m.check('pristine/kept', state(got) == now, 'a result of {} was '
                'changed by a later call'.format(name))
    m.seen(names)


def alike(a, b, tol):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        if a and all(isinstance(x, float) for x in a + b):
            u, v = np.array(a), np.array(b)
            return bool(np.all((np.abs(u - v) <= tol * max(
                np.abs(v).max(), 1e-12)) | (u == v) | (np.isnan(u) &
                                                       np.isnan(v))))
        return all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return all(alike(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= tol * max(abs(b), 1e-12) or (a != a and b != b)
    if isinstance(a, str) and isinstance(b, str) and tol > 1e-9:
        # printed numbers may be rounded to another last digit
        u, v = NUMBER.split(a), NUMBER.split(b)
        return u == v and all(
            abs(float(x) - float(y)) <= 2e-3 * abs(float(y)) + 1e-12
            for x, y in zip(NUMBER.findall(a), NUMBER.findall(b)))
    return a == b


NUMBER = re.compile(r'-?\d+\.?\d*(?:[eE][-+]?\d+)?')


# ------------------------------------------------------------------- histories
def problem(r, i=0):
    lo, hi = round(r.uniform(40., 70.), 1), round(r.uniform(140., 200.), 1)
    # the depths that the heat exchanger itself uses for response factors
    heights = [lo, (lo + hi) / 2., hi]
    p = gen.phys(r, ('single', 'double', 'coaxial', 'single'),
                 H=round(r.uniform(heights[0], heights[-1]), 1))
    p.pop('config', None)
    s = r.choice([1, 1, 5, 13])
    return {'phys': p, 'coords': gen.field(r, 6), 'heights': heights,
            'loads': gen.load_spec(r), 'sim': [
                s, s + r.choice([1, 2, 11, 23]), 35., 0., heights[-1],
                heights[0]]}


class Fresh:
    def __init__(self):
        self.cache = {}

    def temperatures(self, c, H, method, flows=(None, None)):
        """flows: that of the response factors and the present one."""
        k = json.dumps([c, H, method, flows], sort_keys=True)
        if k not in self.cache:
            g, _, _ = ghx.build(c)
            if flows[0] is not None:
                g.bhe.update_thermal_resistance(m_flow_borehole=flows[0])
                g.compute_g_functions()
            if flows[1] is not None:
                g.bhe.update_thermal_resistance(m_flow_borehole=flows[1])
            g.bhe.b.H = H
            g.simulate(method=method)
            self.cache[k] = np.array(g.HPEFT)
        return self.cache[k]


def parts(b):
    return [state(x) for x in (b.fluid, b.soil, b.grout, b.pipe)] + \
        [b.borehole.r_b, b.borehole.D, b.borehole.x, b.borehole.y]


def history(r, m):
    cs = [problem(r, i) for i in range(2)]
    if r.random() < .4:
        # the same components for two heat exchangers, a borehole each
        cs[1] = copy.deepcopy(cs[0])
        cs[1]['loads'] = gen.load_spec(r)
    fresh = Fresh()
    objs = []
    for c in cs:
        g, b, q = ghx.build(c)
        objs.append((g, b, q, list(q), parts(b), state(g.sim_params)))
    depths = [[c['heights'][0], c['heights'][2],
               round(r.uniform(c['heights'][0], c['heights'][2]), 1)]
              for c in cs]
    ops = []
    flows = [[None, None], [None, None]]
    last = [None, None]
    for step in range(r.randint(6, 9)):
        i = r.randrange(2)
        g, b, q = objs[i][:3]
        c = cs[i]
        hourly_ok = c['sim'][1] - c['sim'][0] <= 2
        op = r.choice(['simulate', 'simulate', 'size', 'report', 'grab',
                       'reject', 'g-functions', 'split', 'depth', 'flow',
                       'flow'])
        ops.append((i, op))
        if op == 'size':
            m.call('size', g.size, method='hybrid')
        elif op == 'flow':
            flow = b.m_flow * r.choice([.15, .5, 2.])
            m.call('resistance', g.bhe.update_thermal_resistance,
                   m_flow_borehole=flow)
            flows[i][1] = flow
        elif op == 'report':
            m.call('report', repr, g)
        elif op == 'grab':
            m.call('grab', g.grab_g_function, g.B_spacing / g.bhe.b.H)
        elif op == 'reject':
            m.raises('rejected', ValueError, g.simulate, method='monthly')
        elif op == 'g-functions':
            m.call('g-functions', g.compute_g_functions)
            flows[i][0] = flows[i][1]
        elif op == 'split':
            m.call('split', plat.ground_loads.HybridLoad.split_heat_and_cool,
                   q)
        elif op == 'depth':
            g.bhe.b.H = r.choice(depths[i])
            m.call('resistance', g.bhe.update_thermal_resistance)
        if op not in ('simulate', 'reject', 'flow') and r.random() < .5:
            continue
        H = r.choice(depths[i])
        if op == 'flow' and last[i] and r.random() < .6:
            H = last[i]  # the flow and nothing else is different
        last[i] = H
        method = 'hourly' if hourly_ok and r.random() < .3 else 'hybrid'
        g.bhe.b.H = H
        m.call('simulate', g.simulate, method=method)
        want = fresh.temperatures(c, H, method, flows[i])
        tol = 2e-5 * ghx.scale(want, c['phys']['soil'][2])
        m.close('fresh', g.HPEFT, want, rtol=0., atol=tol,
                what='{} after {}'.format(method, ops))
        if op == 'reject':
            m.counts['after-rejection'] += 1
        if op == 'flow':
            m.counts['after-flow'] += 1
        m.check('working-depth', g.bhe.b.H == H)
    for (g, b, q, q0, parts0, sim0), c in zip(objs, cs):
        m.check('inputs', q == q0, 'the loads were changed')
        m.check('inputs', parts(b) == parts0,
                lambda: differences(parts0, parts(b))[:3])
        m.check('inputs', state(g.sim_params) == sim0, 'parameters changed')
        m.check('inputs', [tuple(x) for x in g.GFunction.bore_locations] ==
                gen.tuples(c['coords']), 'the field was changed')
    m.seen(ops)
    m.sample = {'operations': ops}


def threads(r, m):
    cs = [problem(r) for _ in range(3)]
    fresh = Fresh()
    got, errors = {}, []
    gate = threading.Barrier(len(cs))

    def work(i):
        try:
            gate.wait(60)
            g, b, q = ghx.build(cs[i])
            out = []
            for H in (cs[i]['heights'][0], cs[i]['heights'][2]):
                g.bhe.b.H = H
                g.simulate()
                out.append(np.array(g.HPEFT))
            got[i] = out
        except Exception as e:  # judged below
            errors.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    # pygfunction keeps the last resistances it computed for all threads; its
    # cache is not safe and is not part of the code under test
    pipes, lock = gt.pipes, threading.RLock()
    cached = pipes.thermal_resistances

    def guarded(*a, **k):
        with lock:
            return tuple(np.array(x) for x in cached(*a, **k))
    pipes.thermal_resistances = guarded
    try:
        ts = [threading.Thread(target=work, args=(i,))
              for i in range(len(cs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        pipes.thermal_resistances = cached
    m.check('threads', not errors, lambda: errors[:2])
    for i, c in enumerate(cs):
        for k, H in enumerate((c['heights'][0], c['heights'][2])):
            if i not in got:
                continue
            want = fresh.temperatures(c, H, 'hybrid')
            m.close('threads', got[i][k], want, rtol=0., atol=2e-5 *
                    ghx.scale(want, c['phys']['soil'][2]),
                    what='in concurrent threads')
    m.seen('threads', r.random())


# --------------------------------------------------------------------- designs
def design(r, m):
    routine = r.choice(['near-square', 'rectangle', 'bi-rectangle',
                        'bi-zoned'])
    B = round(r.uniform(4., 6.), 2)
    L, W = round(r.uniform(26., 60.), 1), round(r.uniform(26., 60.), 1)
    k = {'near-square': dict(B=B, length=L),
         'rectangle': dict(length=L, width=W, B_min=B, B_max_x=B + 4.)}.get(
        routine, dict(length=L, width=W, B_min=B, B_max_x=B + 4.,
                      B_max_y=B + 5.))
    H0 = r.choice([60., 100., 135.])
    seed, amp = r.randrange(10 ** 6), r.choice([0., .02, .3])
    ex = fake.physical(seed, 135. * r.uniform(2., 40.), 135., 20., amp)
    b = fake.parts(60., 135., (0., -200.), H=H0)

    def make(b):
        return fake.design(b, dt.media.GeometricConstraints(**k), routine, 2.,
                           'borehole')

    def find(d):
        with fake.world(fake.World(ex, 'max')) as w:
            try:
                s = d.find_design()
            except ValueError as e:
                return 'rejected', str(e), [x['H'] for x in w.sims]
        return (fake.key(s.selected_coordinates), s.selection_key,
                round(s.ghe.bhe.b.H, 9), [x['H'] for x in w.sims])

    d = make(b)
    name = 'coordinates_domain_nested' if routine.startswith('bi') else \
        'coordinates_domain'
    dom0 = copy.deepcopy(getattr(d, name))
    first = find(d)
    second = find(d)
    m.check('again', first == second, lambda: 'the second design differs: {} '
            '{}'.format(str(first)[:150], str(second)[:150]))
    other = find(make(fake.parts(60., 135., (0., -200.), H=H0)))
    m.check('again', first == other, 'a new design object differs')
    m.check('again', getattr(d, name) == dom0, 'the domain was changed')
    # another initial depth does not matter
    third = find(make(fake.parts(60., 135., (0., -200.), H=90.)))
    m.check('again', first == third, 'the initial depth changes the design')
    m.check('inputs', fake.LOADS == [1.] * 8760, 'the loads were changed')
    m.check('inputs', vars(d.geometric_constraints) == vars(
        dt.media.GeometricConstraints(**k)), 'constraints changed')
    m.seen(routine, first[0] == 'rejected', len(first[-1]))


def domain(r, m):
    B = round(r.uniform(3., 5.), 2)
    L, W = round(r.uniform(20., 50.), 1), round(r.uniform(20., 50.), 1)
    poly = [[0., 0.], [L, 0.], [L, W], [0.3 * L, W], [0., .4 * W]]
    bld = [[.4 * L, .3 * W], [.6 * L, .3 * W], [.6 * L, .6 * W],
           [.4 * L, .6 * W]]
    D, C = dt.domains, dt.coordinates
    calls = [(D.square_and_near_square, [1, r.randint(1, 6), B]),
             (D.rectangular, [L, W, B, B + 3.]),
             (D.bi_rectangular, [L, W, B, B + 3., B + 4.]),
             (D.bi_rectangle_nested, [L, W, B, B + 3., B + 4.]),
             (D.bi_rectangle_zoned_nested, [L, W, B, B + 2., B + 2.]),
             (D.polygonal_land_constraint, [poly, B, B + 3., B + 4.]),
             (D.polygonal_land_constraint, [poly, B, B + 3., B + 4., bld]),
             (C.rectangle, [r.randint(1, 6), r.randint(1, 6), B, B]),
             (C.open_rectangle, [r.randint(3, 6), r.randint(3, 6), B, B]),
             (C.L_shape, [4, 3, B, B]), (C.U_shape, [4, 3, B, B]),
             (dt.utilities.Eskilson_log_times, [])]
    want = []
    for f, a in calls:
        keep = copy.deepcopy(a)
        out = m.call(f.__name__, f, *a)
        m.check('inputs', a == keep, lambda: f.__name__ + ' changed its input')
        want.append(copy.deepcopy(out))
        spoil(out)
    order = list(range(len(calls)))
    r.shuffle(order)
    for i in order:
        f, a = calls[i]
        out = m.call(f.__name__, f, *copy.deepcopy(a))
        m.check('domains', same(out, want[i]), lambda: f.__name__ +
                ' differs the second time')
    m.seen('domain', L, W)


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return bool(np.all(a == b))


def spoil(x):
    """Overwrite what was returned."""
    if isinstance(x, list):
        for v in x:
            spoil(v)
        if x:
            x[0] = None
        x.append('spoiled')
    elif isinstance(x, np.ndarray):
        x[...] = -1.
