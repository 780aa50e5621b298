"""One-dimensional field search: feasible, closest to the limits, first."""
from ..target import dt
from .. import fake

PROPERTY = 'C02'
RULE = ('Real one-dimensional searches (directly and through the design '
        'interface) on a stand-in for the simulation whose excess temperature '
        'is scripted: monotone, with ties, exactly zero, perturbed and '
        'adversarial tables, domains of 1 to 1000 fields. Every simulation is '
        'recorded. Distinct by kind of table, size and outcome.')
ASSUMPTIONS = [
    'The physics is replaced by a scripted excess temperature that falls with '
    'the height.']
REQUIRED = {'again': 100, 'feasible': 300, 'first-feasible': 150, 'closest': 300,
            'rejected': 60, 'effort': 300, 'left-behind': 300,
            'honest': 2000, 'first-field': 30}
CHUNK = 10
S1 = dt.search_routines.Bisection1D


def plan(rng, tier):
    n = 16000 if tier == 'quick' else 30000
    return [{'seed': rng.randrange(10 ** 9),
             'what': 'design' if i % 6 == 5 else 'table'} for i in range(n)]


def table(r):
    n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 100, 300,
                  r.choice([1000, 1000, 3000])])
    if n > 3 and r.random() < .5:
        n += r.randint(-1, 3)
    kind = r.choice(['mono', 'mono', 'mono', 'ties', 'noisy', 'adverse',
                     'all-bad', 'all-good', 'zero', 'edge'])
    if kind == 'edge':
        k = r.choice([0, 1, n - 2, n - 1])
    else:
        k = r.randrange(n)
    k = min(max(k, 0), n - 1)  # the first feasible field
    if kind == 'all-bad':
        k = n
    if kind == 'all-good':
        k = 0
    t = [0.] * n
    v = -r.uniform(.001, 1.)
    for i in range(k, n):
        t[i] = v
        v -= 0. if kind == 'ties' and r.random() < .5 else r.uniform(1e-6, 2.)
    v = r.uniform(.001, 1.)
    for i in range(k - 1, -1, -1):
        t[i] = v
        v += 0. if kind == 'ties' and r.random() < .5 else r.uniform(1e-6, 2.)
    if kind in ('zero', 'edge') and k < n:
        t[k] = 0.
    mono = kind not in ('noisy', 'adverse')
    if kind == 'noisy':
        for i in range(n):
            if abs(i - k) < 8:
                t[i] += r.uniform(-3, 3)
    if kind == 'adverse':
        t = [r.uniform(-1., 1.) for _ in range(n)]
    return kind, t, mono


def run(c, m):
    import random
    r = random.Random(c['seed'])
    if c['what'] == 'design':
        return via_design(r, m)
    kind, t, mono = table(r)
    n = len(t)
    hi = r.choice([100., 135., 384.])
    lo = hi * r.choice([.3, .5, .9])
    # excess at the minimum height of the first field
    slope = r.choice([1e-4, .05, 1., 10.]) * (0.5 if r.random() < .5 else 1.)
    if n <= 100 and r.random() < .02:
        # fields so large that the search warns
        dom = [[(4. * j, 3. * i) for j in range(
            r.choice([40, 2499, 2500, 2501, 2600]))] for i in range(n)]
        dom.sort(key=len)
    elif r.random() < .5:
        # fields of growing size
        dom = [[(4. * j, 0.) for j in range(i + 1)] if n <= 100 else
               [(0., 0.), (4. + .01 * i, 0.)] for i in range(n)]
    else:
        dom = [[(0., 0.), (3. + .01 * i, 0.), (0., 7.)] for i in range(n)]
    index = {fake.key(f): i for i, f in enumerate(dom)}

    def excess(coords, H, method):
        return t[index[fake.key(coords)]] + slope * (hi - H)

    flow = r.choice(['borehole', 'system'])
    method = r.choice(['hybrid', 'hybrid', 'hourly'])
    side = r.choice(['max', 'min'])
    limits = (0., -200.) if side == 'max' else (200., 0.)
    b = fake.parts(lo, hi, limits, H=r.choice([lo, hi, .5 * (lo + hi), 77.]))
    V = r.choice([.2, 1.5, 20.])
    low = t[0] + slope * (hi - lo)  # the first field at the minimum height
    judge(m, dom, excess, side, b, flow, method, V, t, low, mono, kind, hi,
          lambda: fake.search(S1, dom, b, V=V, flow=flow, method=method,
                              disp=r.random() < .2), index)


def judge(m, dom, excess, side, b, flow, method, V, t, low, mono, kind, hi,
          go, index):
    n = len(t)
    keep = [list(f) for f in dom]
    gap = (30., 0., .001, 2.)[n % 4]
    with fake.world(fake.World(excess, side, gap=gap)) as w:
        first_ok = low > 0. >= t[0]
        bad = low > 0. and t[0] > 0. and t[-1] > 0.
        good = low <= 0. and t[0] <= 0. and t[-1] <= 0.
        if bad or good:
            m.raises('rejected', ValueError, go)
            m.seen(kind, n, 'rejected', bad)
            return
        if low <= 0. and t[0] > 0.:
            return  # excluded: the excess falls with the height
        if t[0] <= 0. and not first_ok and t[-1] > 0.:
            m.note('smallest field feasible, largest not: not judged')
            return
        s = m.call('search', go)
    m.check('honest', not w.bad, lambda: w.bad[0])
    m.counts['honest'] += len(w.sims) - 1
    m.check('inputs', [list(f) for f in dom] == keep, 'the domain changed')
    m.check('method', w.methods == {method}, lambda: '{} simulated with '
            '{}'.format(method, w.methods))
    k = s.selection_key
    m.demand('selection', isinstance(k, int) and 0 <= k < n and
             fake.key(s.selected_coordinates) == fake.key(dom[k]),
             lambda: 'index {} with another field'.format(k))
    m.check('feasible', t[k] <= 0., lambda: 'field {} of {} exceeds the '
            'limits by {}'.format(k, n, t[k]))
    at_max = {index[fake.key(x['coords'])] for x in w.sims if x['H'] == hi}
    if first_ok:
        m.check('first-field', k == 0, lambda: 'the smallest field suffices '
                'but field {} was selected'.format(k))
    else:
        # among the fields the search reports to have weighed
        ok = [t[i] for i in s.calculated_temperatures if t[i] <= 0.]
        m.check('closest', bool(ok) and t[k] == max(ok), lambda: 'field {} '
                'with excess {} although {} was seen'.format(
                    k, t[k], max(ok)))
        if mono:
            first = next(i for i in range(n) if t[i] <= 0.)
            m.check('first-feasible', t[k] == t[first], lambda: 'field {} of '
                    '{} although {} is feasible'.format(k, n, first))
        else:
            # the selected one must follow an infeasible one that was seen
            m.check('bracketed', any(
                t[i] > 0. for i in at_max), 'no infeasible field was seen')
    m.check('effort', len(w.sims) <= 2 * fake.log2(n) + 10,
            lambda: '{} simulations for {} fields'.format(len(w.sims), n))
    g = s.ghe
    m.check('left-behind', fake.key(g.GFunction.bore_locations) == fake.key(
        dom[k]) and g.bhe.b.H == hi and g.nbh == len(dom[k]),
        lambda: 'heat exchanger with {} boreholes of {} m'.format(
            len(g.GFunction.bore_locations), g.bhe.b.H))
    sysV = V * len(dom[k]) if flow == 'borehole' else V
    m.close('left-behind/flow', g.V_flow_system, sysV, rtol=1e-12)
    d = s.calculated_temperatures
    m.check('recorded', all(abs(d[i] - t[i]) <= 1e-9 * (1. + abs(t[i]))
                            for i in d) and k in d,
            lambda: 'recorded excess temperatures {}'.format(
                {i: (d[i], t[i]) for i in list(d)[:3]}))
    if mono and n > 3:
        again(m, dom, s, t, side, hi, gap, index)
    m.seen(kind, n, k, flow, side)
    m.sample = {'fields': n, 'selected': k, 'simulations': len(w.sims)}


def again(m, dom, s, t, side, hi, gap, index):
    """The same search again, with a requirement that is met later or
    earlier."""
    n = len(t)
    for first in (n // 2, n - 1, 1):
        # halves, so that no two fields are equally good
        u = [(first - i) * .5 - .25 for i in range(n)]

        def excess(coords, H, method):
            return u[index[fake.key(coords)]] + hi - H
        with fake.world(fake.World(excess, side, gap=gap)):
            k, field = m.call('search', s.search)
        d = s.calculated_temperatures
        m.check('again', k == first and fake.key(field) == fake.key(
            dom[first]), lambda: 'field {} instead of {} of {}, in a search '
            'after another one'.format(k, first, n))
        m.check('again', all(abs(d[i] - u[i]) < 1e-9 for i in d),
                'temperatures of an earlier search')


def via_design(r, m):
    hi, lo = 135., 60.
    b = fake.parts(lo, hi)
    routine = r.choice(['near-square', 'rectangle'])
    B = round(r.uniform(3., 8.), 2)
    L, W = round(r.uniform(25., 120.), 1), round(r.uniform(25., 120.), 1)
    if routine == 'near-square':
        gc = dt.media.GeometricConstraints(B=B, length=L)
    else:
        gc = dt.media.GeometricConstraints(
            length=L, width=W, B_min=B, B_max_x=round(B + r.uniform(3., 6.), 2))
    flow = r.choice(['borehole', 'system'])
    method = r.choice(['hybrid', 'hourly'])
    side = 'max'
    total = hi * r.uniform(1.2, 60.)
    f = fake.physical(c_seed(r), total, hi, 10., 0.)
    with fake.world(fake.World(f, side)):
        d = m.call('design', fake.design, b, gc, routine, 2., flow, method)
    dom = d.coordinates_domain
    t = [f(x, hi, method) for x in dom]
    low = f(dom[0], lo, method)
    index = {fake.key(x): i for i, x in enumerate(dom)}
    mono = all(a >= b_ for a, b_ in zip(t, t[1:]))
    judge(m, dom, f, side, b, flow, method, 2., t, low, mono,
          'design/' + routine, hi, lambda: d.find_design(disp=False), index)


def c_seed(r):
    return r.randrange(10 ** 6)
