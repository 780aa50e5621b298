"""Independent reference physics. Nothing of the code under test is called
here, except where a function is handed one of its objects explicitly."""
import numpy as np
from numpy import pi
from scipy.linalg import solve_banded

from .target import gt

MONTHS = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
LOG_TIMES = [-8.5, -7.8, -7.2, -6.5, -5.9, -5.2, -4.5, -3.963, -3.27, -2.864,
             -2.577, -2.171, -1.884, -1.191, -0.497, -0.274, -0.051, 0.196,
             0.419, 0.642, 0.873, 1.112, 1.335, 1.679, 2.028, 2.275, 3.003]


# ------------------------------------------------------------------ calendar
def month_hours(m):
    """Hours of month m, counted from 1 and continuing over the years."""
    return 24 * MONTHS[(m - 1) % 12]


def hours_before(m):
    """Hours from the beginning of month 1 to the beginning of month m."""
    years, rest = divmod(m - 1, 12)
    return 8760 * years + 24 * sum(MONTHS[:rest])


# --------------------------------------------------------- borehole resistance
def places(s, r_out, n):
    """Centres of the 2n pipes: half the shank spacing plus the outer radius
    away from the axis, evenly distributed around it."""
    d = s / 2. + r_out
    out = []
    for j in range(2 * n):
        a = pi + pi * j / n
        out.append((d * np.cos(a), d * np.sin(a)))
    return out


def resist(p, fluid, m_flow, config=None):
    """Resistances of the fluid and of the pipe(s), from the formulas."""
    conv = gt.pipes.convective_heat_transfer_coefficient_circular_pipe
    if p['kind'] == 'coaxial':
        ann = gt.pipes.convective_heat_transfer_coefficient_concentric_annulus
        (ri_i, ri_o), (ro_i, ro_o) = p['r_in'], p['r_out']
        h_i = conv(m_flow, ri_i, fluid.mu, fluid.rho, fluid.k, fluid.cp,
                   p['eps'])
        h_a_in, h_a_out = ann(m_flow, ri_o, ro_i, fluid.mu, fluid.rho, fluid.k,
                              fluid.cp, p['eps'])
        d = {'R_f_in': 1. / (h_i * 2 * pi * ri_i),
             'R_p_in': np.log(ri_o / ri_i) / (2 * pi * p['pipe_k'][0]),
             'R_f_a_in': 1. / (h_a_in * 2 * pi * ri_o),
             'R_p_out': np.log(ro_o / ro_i) / (2 * pi * p['pipe_k'][1]),
             'R_f_a_out': 1. / (h_a_out * 2 * pi * ro_i),
             'h_in': h_i, 'h_a_in': h_a_in, 'h_a_out': h_a_out}
        d['R_ff'] = d['R_f_in'] + d['R_p_in'] + d['R_f_a_in']
        d['R_fp'] = d['R_p_out'] + d['R_f_a_out']
        return d
    n = {'single': 1, 'double': 2, 'triple': 3, 'quad': 4}[p['kind']]
    m_pipe = m_flow / n if (n > 1 and config != 'series') else m_flow
    h = conv(m_pipe, p['r_in'], fluid.mu, fluid.rho, fluid.k, fluid.cp,
             p['eps'])
    d = {'m_pipe': m_pipe, 'h': h, 'n': n,
         'R_f': 1. / (h * 2 * pi * p['r_in']),
         'R_p': np.log(p['r_out'] / p['r_in']) / (2 * pi * p['pipe_k'])}
    d['R_fp'] = d['R_f'] + d['R_p']
    return d


def pipe(p, fluid, borehole, m_flow, config=None):
    """The borehole heat exchanger as a plain pygfunction object."""
    config = config or p.get('config') or 'parallel'
    d = resist(p, fluid, m_flow, config)
    k_s, k_g = p['soil'][0], p['grout'][0]
    if p['kind'] == 'coaxial':
        r_in = np.array([p['r_in'][0], p['r_out'][0]])
        r_out = np.array([p['r_in'][1], p['r_out'][1]])
        return gt.pipes.Coaxial((0., 0.), r_in, r_out, borehole, k_s, k_g,
                                d['R_ff'], d['R_fp'], J=2)
    pos = places(p['s'], p['r_out'], d['n'])
    if p['kind'] == 'single':
        return gt.pipes.SingleUTube(pos, p['r_in'], p['r_out'], borehole, k_s,
                                    k_g, d['R_fp'])
    return gt.pipes.MultipleUTube(pos, p['r_in'], p['r_out'], borehole, k_s,
                                  k_g, d['R_fp'], d['n'], config=config)


def rb_star(p, fluid, m_flow, H=None, config=None):
    b = gt.boreholes.Borehole(p['H'] if H is None else H, p['D'], p['r_b'],
                              0., 0.)
    return pipe(p, fluid, b, m_flow, config). \
        effective_borehole_thermal_resistance(m_flow, fluid.cp)


# ------------------------------------------------------- long-time g-function
def lts(p, fluid, coords, H, m_flow, D=None, r_b=None, log_time=LOG_TIMES,
        boundary='MIFT', solver='equivalent', n_segments=8, ratios='unequal',
        end=.02, config=None, tilt=0., orientation=0.):
    D = p['D'] if D is None else D
    r_b = p['r_b'] if r_b is None else r_b
    alpha = p['soil'][0] / p['soil'][1]
    time = np.exp(np.array(log_time)) * H ** 2 / (9. * alpha)
    holes = [gt.boreholes.Borehole(H, D, r_b, x, y, tilt, orientation)
             for x, y in coords]
    # None: segments of equal lengths
    opt = {'nSegments': n_segments, 'disp': False, 'segment_ratios': None}
    if not isinstance(ratios, str):
        opt['segment_ratios'] = np.array(ratios)
    elif ratios == 'unequal':
        opt['segment_ratios'] = gt.utilities.segment_ratios(
            n_segments, end_length_ratio=end)
    if boundary == 'MIFT':
        pipes = [pipe(p, fluid, h, m_flow, config) for h in holes]
        what = gt.networks.Network(holes, pipes,
                                   m_flow_network=m_flow * len(holes),
                                   cp_f=fluid.cp)
    else:
        what = holes
    g = gt.gfunction.gFunction(what, alpha, time=time,
                               boundary_condition=boundary, options=opt,
                               method=solver)
    return np.array(g.gFunc)


def polynomial(xs, ys, x):
    """Value at x of the polynomial through the points."""
    total = 0.
    for i, xi in enumerate(xs):
        w = 1.
        for j, xj in enumerate(xs):
            if j != i:
                w *= (x - xj) / (xi - xj)
        total = total + w * np.asarray(ys[i], dtype=float)
    return total


# ------------------------------------------------------ short-time g-function
def radial(r_in, r_out, r_b, rho_cp_pipe, rho_cp_grout, rho_cp_fluid, c_fluid,
           k_soil, rho_cp_soil, R_f, R_p, Rb, n_steps):
    """One-dimensional radial model of an equivalent single U-tube.

    R_f and R_p are those of a single pipe. The layers are those documented
    for the model: three fluid cells, a convective layer, four pipe cells, 27
    grout cells, 500 soil cells, a far field at 10 m, steps of 120 s.
    """
    two_pi = 2. * pi
    t_pipe = r_out - r_in
    r_tube_out = np.sqrt(2.) * r_out
    r_tube_in = r_tube_out - t_pipe
    r_conv = r_tube_in - t_pipe / 4.
    r_fl = r_conv - .75 * t_pipe
    cells = []  # inner, centre, outer, conductivity, heat capacity

    def add(inner, centre, outer, k, c):
        cells.append((inner, centre, outer, k, c))

    th = (r_conv - r_fl) / 3.
    c_f = 2. * r_in ** 2 * rho_cp_fluid / (r_conv ** 2 - r_fl ** 2)
    for j in range(3):
        centre = r_fl + j * th
        add(centre if j == 0 else centre - th / 2., centre, centre + th / 2.,
            None, c_f)
    Rf2, Rp2 = R_f / 2., R_p / 2.
    add(r_conv, .5 * (r_conv + r_tube_in), r_tube_in,
        np.log(r_tube_in / r_conv) / (two_pi * Rf2), 1.)
    k_p = np.log(r_b / r_tube_in) / (two_pi * Rp2)
    for j in range(4):
        inner = r_tube_in + j * t_pipe
        add(inner, inner + t_pipe / 2., inner + t_pipe, k_p, rho_cp_pipe)
    k_g = np.log(r_b / r_tube_in) / (two_pi * (Rb - Rf2))
    th = (r_b - r_tube_out) / 27.
    for j in range(27):
        inner = r_tube_out + j * th
        add(inner, inner + th / 2., inner + th, k_g, rho_cp_grout)
    th = (10. - r_b - r_b) / 500.
    for j in range(500):
        inner = r_b + j * th
        add(inner, inner + th / 2., inner + th, k_soil, rho_cp_soil)
    a = np.array(cells, dtype=object)
    inner, centre, outer = (a[:, j].astype(float) for j in range(3))
    cap = a[:, 4].astype(float)
    k = np.array([c[4] / c_fluid if c[3] is None else c[3] for c in cells],
                 dtype=float)
    out = np.log(outer / centre) / (two_pi * k)
    inn = np.log(centre / inner) / (two_pi * k)
    cond = 1. / (out[:-1] + inn[1:])  # between neighbours
    C = cap * pi * (outer ** 2 - inner ** 2) / 120.
    n = len(cells)
    ab = np.zeros((3, n))
    ab[1] = C
    ab[1, :-1] += cond
    ab[1, 1:] += cond
    ab[0, 1:] = -cond
    ab[2, :-1] = -cond
    # the last cell keeps the temperature of the ground
    ab[1, -1], ab[2, -2] = 1., 0.
    C = C.copy()
    T = np.zeros(n)
    g = []
    for _ in range(n_steps):
        rhs = C * T
        rhs[0] += 1.
        rhs[-1] = 0.
        T = solve_banded((1, 1), ab, rhs, check_finite=False)
        g.append(two_pi * k_soil * (T[0] - Rb))
    return np.array(g)


# ----------------------------------------------------------------- simulation
def combine(log_lts, g_lts, log_sts, g_sts):
    """Short-time values before the first long-time point, then the latter."""
    x = [t for t in log_sts if t <= log_lts[0]]
    y = list(g_sts[:len(x)])
    return np.array(x + list(log_lts)), np.array(y + list(g_lts))


def fluid_temperatures(q, hours, lng, g, ts, k, H, Tg, Rb, m, cp):
    """Entering temperatures at the end of each step.

    q: rejection per borehole in W during the steps that end at `hours`.
    """
    q = np.asarray(q, dtype=float)
    t = np.concatenate([[0.], np.asarray(hours, dtype=float)])
    dq = np.diff(np.concatenate([[0.], q]))
    n = q.size
    uniform = n > 500 and np.allclose(np.diff(t), t[1] - t[0], atol=1e-9)
    if uniform:
        step = (t[1] - t[0]) * np.arange(1, n + 1)
        x = np.log(step * 3600. / ts)
        resp = np.interp(x, lng, g)
        m2 = 1
        while m2 < 2 * n:
            m2 *= 2
        if n > 3000:
            conv = np.fft.irfft(np.fft.rfft(dq, m2) * np.fft.rfft(resp, m2),
                                m2)[:n]
        else:
            conv = np.convolve(dq, resp)[:n]
    else:
        conv = np.zeros(n)
        for i in range(1, n + 1):
            x = np.log((t[i] - t[:i]) * 3600. / ts)
            conv[i - 1] = np.dot(dq[:i], np.interp(x, lng, g))
    dTb = conv / (2. * pi * k * H)
    return Tg + dTb + q / H * Rb - q / (2. * m * cp), dTb
