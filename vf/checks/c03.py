"""Nested field searches: the right row of fields, the least drilling."""
import random

from ..target import dt
from .. import fake

PROPERTY = 'C03'
RULE = ('Real nested searches (bi-rectangle, bi-zoned and synthetic nested '
        'domains, directly and through the design interface) on a scripted '
        'excess temperature with a length factor of its own for each field. '
        'Selections, explored rows, sized heights and total drilling are '
        'compared with an exhaustive evaluation of the script. Distinct by '
        'routine, rows, selection and explored rows.')
ASSUMPTIONS = [
    'The physics is replaced by a scripted excess temperature that falls with '
    'the height.',
    'Rows in which every field is within the limits at the minimum height are '
    'rejected by the search (documented) and only judged as such.']
REQUIRED = {'feasible': 300, 'row': 120, 'first-in-row': 120, 'honest': 3000,
            'drilling/least': 120, 'drilling/value': 200, 'sized': 120,
            'stop': 120, 'rejected': 40}
CHUNK = 4
S2 = dt.search_routines.Bisection2D
SZ = dt.search_routines.BisectionZD


def plan(rng, tier):
    n = 10000 if tier == 'quick' else 15000
    return [{'seed': rng.randrange(10 ** 9)} for _ in range(n)]


def domain(r):
    how = r.choice(['bi', 'zoned', 'synthetic', 'synthetic'])
    if r.random() < .02:
        # land for more than a thousand boreholes
        return 'synthetic', large(r), None
    if how == 'synthetic':
        rows = r.randint(1, 12)
        dom = []
        n0, n1 = 1, r.randint(2, 12)
        for i in range(rows):
            step = r.randint(1, 3)
            dom.append([[(5. * (k % 6) + .01 * i, 5. * (k // 6))
                         for k in range(n)]
                        for n in range(n0, n1 + 1, step)] +
                       [[(5. * (k % 6) + .01 * i, 5. * (k // 6) + .5)
                         for k in range(n1 + 1)]])
            n0 = r.choice([1, n0 + r.randint(0, 4)])
            n0 = min(n0, n1 - 1) if n0 >= n1 else n0
            n0 = max(1, n0)
            n1 += r.randint(1, 9)
        return how, dom, None
    B = round(r.uniform(4., 6.), 2)
    if how == 'bi':
        L, W = round(r.uniform(20., 60.), 1), round(r.uniform(20., 60.), 1)
    else:
        L, W = round(r.uniform(26., 60.), 1), round(r.uniform(26., 60.), 1)
    gc = dt.media.GeometricConstraints(
        length=L, width=W, B_min=B, B_max_x=round(B + r.uniform(3., 5.), 2),
        B_max_y=round(B + r.uniform(3., 5.), 2))
    return how, None, gc


def large(r):
    dom = []
    n = r.randint(300, 900)
    for i in range(r.randint(2, 6)):
        step = max(1, n // r.randint(6, 12))
        dom.append([[(5. * (k % 30) + .01 * i, 5. * (k // 30))
                     for k in range(x)]
                    for x in [1] + list(range(step, n, step)) + [n]])
        n += r.randint(1, 200)
    return dom


def run(c, m):
    r = random.Random(c['seed'])
    how, dom, gc = domain(r)
    hi = r.choice([100., 135., 200.])
    lo = hi * r.choice([.25, .5, .8, .95])
    gain = r.choice([1., 10., 60.])
    amp = r.choice([0., .01, .05, .2])
    seed = r.randrange(10 ** 6)
    side = r.choice(['max', 'min'])
    b = fake.parts(lo, hi, (0., -200.) if side == 'max' else (200., 0.))
    flow = r.choice(['borehole', 'system'])
    method = 'hybrid'
    V = 3.
    if how == 'synthetic':
        zd = r.random() < .5
        go = (lambda: fake.search(SZ if zd else S2, dom, b, V=V, flow=flow))
    else:
        zd = how == 'zoned'
        d = m.call('design', fake.design, b, gc,
                   'bi-zoned' if zd else 'bi-rectangle', V, flow, method)
        dom = d.coordinates_domain_nested
        go = (lambda: d.find_design(disp=False))
    if r.random() < .1:
        total = hi * len(dom[-1][-1]) * r.uniform(.9, 1.4)
    elif r.random() < .1:
        total = lo * r.uniform(.3, 1.3)
    else:
        row = r.choice(dom)
        total = hi * len(r.choice(row)) * r.uniform(.8, 1.2)

    def need(coords):
        return total * (1. + fake.noise(coords, seed, amp))

    def excess(coords, H, method):
        return gain * (need(coords) / (len(coords) * H) - 1.)

    def at(coords):
        return excess(coords, hi, method)

    outer = [dom[0][0]] + [row[-1] for row in dom]
    where = {}
    for i, row in enumerate(dom):
        for j, f in enumerate(row):
            where.setdefault(fake.key(f), []).append((i, j))
    try:
        with fake.world(fake.World(excess, side)) as w:
            s = go()
    except ValueError:
        # some domain that was searched was not bracketed
        m.check('rejected', justified(w, dom, outer, at, excess, lo),
                'rejected although every domain searched brackets the limits')
        m.seen(how, zd, 'rejected', len(dom))
        return
    except Exception as e:
        import traceback
        m.check('no-exception', False, '{!r} {}'.format(
            e, traceback.format_exc(limit=-3)))
        return
    m.check('honest', not w.bad, lambda: w.bad[0])
    m.counts['honest'] += len(w.sims) - 1
    f = s.selected_coordinates
    places = where.get(fake.key(f), [])
    m.demand('selection', any(j == s.selection_key for _, j in places),
             lambda: 'the field is not number {} of a row'.format(
                 s.selection_key))
    m.check('feasible', at(f) <= 0., lambda: 'excess {}'.format(at(f)))
    m.check('left-behind', fake.key(s.ghe.GFunction.bore_locations) ==
            fake.key(f) and s.ghe.nbh == len(f), 'another heat exchanger')
    m.close('left-behind/flow', s.ghe.V_flow_system,
            V * len(f) if flow == 'borehole' else V, rtol=1e-12)
    m.close('left-behind/flow', s.ghe.bhe.m_flow_borehole,
            s.ghe.V_flow_system / len(f) / 1000. * b.fluid.rho, rtol=1e-12)
    # the row the outer search has to find
    out = [at(x) for x in outer]
    mono = all(x >= y for x, y in zip(out, out[1:]))
    start = None
    if excess(outer[0], lo, method) > 0. >= out[0]:
        start = 0
    elif mono and out[0] > 0. >= out[-1]:
        k = next(i for i, x in enumerate(out) if x <= 0.)
        # the best of equal ones
        start = {max(0, i - 1) for i, x in enumerate(out) if x == out[k]}
        start = start.pop() if len(start) == 1 else None
    if zd:
        drilling(m, s, w, dom, places, need, at, excess, start, lo, hi,
                 method)
    else:
        m.check('height', s.ghe.bhe.b.H == hi, s.ghe.bhe.b.H)
        if start is not None:
            m.check('row', any(i == start for i, _ in places),
                    lambda: 'row {} selected, {} is the first that can '
                    'satisfy the limits'.format(places, start))
            row_judged(m, dom[start], f, at, excess, lo, method)
    m.seen(how, zd, len(dom), places[0], start)
    m.sample = {'rows': len(dom), 'selected': places, 'boreholes': len(f),
                'simulations': len(w.sims)}


def row_choice(row, at, excess, lo, method):
    """Index of the field a search of this row must select, or None."""
    t = [at(x) for x in row]
    if excess(row[0], lo, method) > 0. >= t[0]:
        return 0
    if all(x > y for x, y in zip(t, t[1:])) and t[0] > 0. >= t[-1]:
        return next(i for i, x in enumerate(t) if x <= 0.)
    return None


def row_judged(m, row, f, at, excess, lo, method):
    j = row_choice(row, at, excess, lo, method)
    if j is not None:
        m.check('first-in-row', fake.key(row[j]) == fake.key(f),
                lambda: '{} boreholes selected, {} suffice'.format(
                    len(f), len(row[j])))


def drilling(m, s, w, dom, places, need, at, excess, start, lo, hi, method):
    f = s.selected_coordinates
    H = s.ghe.bhe.b.H
    want = min(max(need(f) / len(f), lo), hi)
    m.close('sized', H, want, rtol=2e-5, what='sized height')
    hs = s.calculated_heights
    rows = sorted(hs)
    m.demand('explored', rows and rows == list(range(rows[0], rows[-1] + 1)),
             lambda: 'explored rows {}'.format(rows))
    if start is not None:
        m.check('row', rows[0] == start, lambda: 'explored from row {} '
                'instead of {}'.format(rows[0], start))
    m.check('drilling/least', abs(len(f) * H - min(hs.values())) <=
            2e-5 * min(hs.values()), lambda: '{} m are drilled although {} m '
            'were found'.format(len(f) * H, min(hs.values())))
    least = {i for i in rows if hs[i] <= min(hs.values()) * (1. + 2e-5)}
    m.check('drilling/row', any(i in least for i, _ in places),
            lambda: 'row {} selected, the least drilling is in {}'.format(
                places, least))
    for i in rows:
        j = row_choice(dom[i], at, excess, lo, method)
        if j is None:
            continue
        x = dom[i][j]
        m.close('drilling/value', hs[i],
                len(x) * min(max(need(x) / len(x), lo), hi), rtol=4e-5,
                what='drilling of row {}'.format(i))
        if fake.key(x) == fake.key(f):
            m.check('first-in-row', True)
    # the exploration may end only where drilling grows, a row cannot be
    # searched, or after several rows
    last = rows[-1]
    nxt = last + 1
    ended = nxt >= len(dom) or len(rows) >= 7 or (
        len(rows) > 1 and hs[last] > hs[last - 1])
    if not ended:
        t = [at(x) for x in dom[nxt]]
        ended = not (t[0] > 0. >= t[-1] or
                     excess(dom[nxt][0], lo, method) > 0. >= t[0])
    m.check('stop', ended, lambda: 'rows {} of {} explored, drilling {} still '
            'falls'.format(rows, len(dom), [hs[i] for i in rows]))
    for a, b_ in zip(rows[:-2], rows[1:-1]):
        m.check('stop', hs[b_] <= hs[a], lambda: 'explored on after the '
                'drilling grew: {}'.format(hs))


def justified(w, dom, outer, at, excess, lo):
    seen = {fake.key(x['coords']) for x in w.sims}
    for row in [outer] + dom:
        if fake.key(row[0]) in seen and fake.key(row[-1]) in seen:
            a, z = at(row[0]), at(row[-1])
            low = excess(row[0], lo, 'hybrid')
            if (a <= 0. and z <= 0. and low <= 0.) or (a > 0. and z > 0.):
                return True
    return False
