"""Executable reference model of the two-layer point Snobal equations.

Pure floats, one function per physical process, no sharing with the code under
test.  It is deliberately flat: `step()` maps (state, forcing, dt) to the next
state plus the diagnostics of that one sub-step.  The simulator re-synchronises
the state from the recorded history before every sub-step, so nothing
accumulates and one disagreement points at one step.

Sources: the Snobal/IPW manual pages (Marks et al.), Anderson (1976), and the
docstrings in the repository.  Decisions that are conventions of this code base
rather than physics (constants, order of processes, clipping rules) are listed
in DESIGN.md.
"""
import math

TF = 273.16
TBOIL = 373.15
P0 = 1.013246e5
T0STD = 288.0
LAPSE = -6.5
RGAS = 8.31432e3
G = 9.80665
MAIR = 28.9644
MH2O = 18.0153
KARMAN = 0.41
RHOW = 999.87
RHOI = 917.0
CAL = 4.186798188
EMIS = 0.98
SB = 5.67032e-8
VAPSUB = 2.501 / 2.835
CPAIR = 1.005e3
TNONE = TF - 75.0
NAN = float('nan')
INF = float('inf')
LF0 = 3.336e5          # latent heat of fusion at 0 C


class Impossible(Exception):
    """The reference model refuses this step (the code must, too)."""


# ---------------------------------------------------------------- functions
def pressure(elev):
    h = elev / 1000.0
    return P0 * (T0STD / (T0STD + LAPSE * h)) ** (G * MAIR / (RGAS * LAPSE * 1e-3))


def es_water(t):
    b = TBOIL / t
    x = (-7.90298 * (b - 1.0) + 5.02808 * math.log10(b)
         - 1.3816e-7 * (10.0 ** (11.344 * (1.0 - t / TBOIL)) - 1.0)
         + 8.1328e-3 * (10.0 ** (-3.49149 * (b - 1.0)) - 1.0)
         + math.log10(P0))
    return 10.0 ** x


def es_ice(t):
    if t < 0:
        raise Impossible('temperature below 0 K')
    if t == 0:
        raise Impossible('temperature 0 K')
    if t > TF:
        return es_water(t)
    f = TF / t
    return 100.0 * 10.0 ** (-9.09718 * (f - 1.0) - 3.56654 * math.log10(f)
                            + 8.76793e-1 * (1.0 - t / TF) + math.log10(6.1071))


def lv(t):
    return 2.5e6 - 2955.73 * (t - TF)


def lf(t):
    return 3.336e5 + 166.67 * (TF - t)


def cp_i(t):
    return CAL * (0.024928 + 0.00176 * t) / 0.001


def cp_w(t):
    return 4217.7 - 2.55 * (t - TF)


def q_spec(e, p):
    return e * MH2O / (MAIR * p + e * (MH2O - MAIR))


def dens(p, t):
    return p * MAIR / (RGAS * t)


def diffusion(p, t):
    return 0.65e-4 * (P0 / p) * (t / TF) ** 14


def held(z, rho, vol):
    """liquid water a pack of depth z and density rho can hold"""
    return vol * z * RHOW * (RHOI - rho) / RHOI


def keff(k, t, p, es):
    if t > TF:
        lh = lv(t)
    elif t == TF:
        lh = (lv(t) + lv(t) + lf(t)) / 2.0
    else:
        lh = lv(t) + lf(t)
    return k + lh * diffusion(p, t) * (MH2O / MAIR) * es / (p - es)


def conduct(k1, k2, t1, t2, d1, d2):
    return 2.0 * k1 * k2 * (t2 - t1) / (k2 * d1 + k1 * d2)


def _div(a, b):
    if b == 0.0:
        if a == 0.0 or a != a:
            return NAN
        s = math.copysign(1.0, a) * math.copysign(1.0, b)
        return s * INF
    try:
        return a / b
    except OverflowError:
        return INF


def _psi(z, momentum):
    if z > 0.0:
        return -5.2 * min(z, 1.0)
    if z < 0.0:
        x = math.sqrt(math.sqrt(1.0 - 16.0 * z))
        if momentum:
            return (2.0 * math.log((1 + x) / 2) + math.log((1 + x * x) / 2)
                    - 2.0 * math.atan(x) + math.pi / 2)
        return 2.0 * math.log((1 + x * x) / 2)
    return 0.0


def turbulent(p, ta, ts, z_t, ea, es, u, z_u, z0, init):
    """Bulk Monin-Obukhov exchange.  Returns H, LE, E, (ustar, factor), conv."""
    if z0 <= 0 or z_t <= z0 or z_u <= z0:
        raise Impossible('sensor height not above the surface')
    if ta <= 0 or ts <= 0:
        raise Impossible('temperature not in kelvin')
    if ea <= 0 or es <= 0 or p <= 0 or ea >= p or es >= p:
        raise Impossible('vapour pressure out of range')
    eaw = es_water(ta)
    if ea - 25.0 > eaw:
        raise Impossible('vapour pressure above saturation')
    ea = min(ea, eaw)
    d0 = 2 * 7.35 * z0 / 3
    if z_u - d0 <= 0 or z_t - d0 <= 0:
        raise Impossible('sensor below the displacement plane')
    lm = math.log((z_u - d0) / z0)
    lh = math.log((z_t - d0) / z0)
    dq = q_spec(ea, p) - q_spec(es, p)
    ta = ta + (G / CPAIR) * z_t
    dt = ta - ts
    tm = math.sqrt(ta * ts)
    em = math.sqrt(ea * es)
    rho = dens(p, tm / (1.0 - (1.0 - MH2O / MAIR) * (em / p)))
    conv = True
    if ta == ts:
        us = KARMAN * u / lm
        fac = KARMAN * us * rho
        e = dq * fac / lh
        h = dt * fac * CPAIR / lh
    else:
        us, fac = init
        if us is None:
            us = KARMAN * u / lm
        if fac is None:
            fac = KARMAN * us * rho
        e = dq * fac / lh
        h = dt * fac * CPAIR / lh
        lo = INF
        conv = False
        for _ in range(50):
            last = lo
            lo = _div(us * us * us * rho,
                      KARMAN * G * (h / (ta * CPAIR) + 0.61 * e))
            us = KARMAN * u / (lm - _psi(_div(z_u, lo), True))
            fac = KARMAN * us * rho
            psh = _psi(_div(z_t, lo), False)
            e = dq * fac / (lh - psh)
            h = dt * fac * CPAIR / (lh - psh)
            d = last - lo
            if abs(d) < 1e-5 and abs(_div(d, lo)) < 1e-5:
                conv = True
                break
    x = lv(ts)
    if ts <= TF:
        x += lf(ts)
    return h, x * e, e, (us, fac), conv


# -------------------------------------------------------------------- model
class P(object):
    """static parameters of one model instance"""

    def __init__(self, elevation, max_h2o, max_z0, z_u, z_t, z_g, relative,
                 z_0, steps, thresholds):
        self.pa = pressure(elevation)
        self.max_h2o = max_h2o
        self.max_z0 = max_z0
        self.z_u, self.z_t, self.z_g = z_u, z_t, z_g
        self.relative = relative
        self.z_0 = z_0
        self.steps = tuple(float(s) for s in steps)          # seconds
        self.thr = tuple(float(t) for t in thresholds)
        self.n1 = int(round(steps[0] / steps[1]))
        self.n2 = int(round(steps[1] / steps[2]))


STATE = ('rho', 't_s', 't_s_0', 't_s_l', 'z_s', 'z_s_0', 'z_s_l', 'm_s',
         'm_s_0', 'm_s_l', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_max', 'h2o_sat',
         'h2o_vol')


class S(object):
    """snow state"""
    __slots__ = STATE + ('h2o_total', 'snow', 'ev', 'jump')

    def __init__(self, d=None):
        for k in STATE:
            setattr(self, k, 0.0)
        self.h2o_total = 0.0
        self.snow = False
        self.ev = None
        self.jump = 0.0      # cold content made or lost by layer changes
        if d is not None:
            for k in STATE:
                setattr(self, k, float(d[k]))
        else:
            self.t_s = self.t_s_0 = self.t_s_l = TNONE

    @property
    def layers(self):
        return (1 if self.z_s_0 > 0 else 0) + (1 if self.z_s_l > 0 else 0)

    def below(self, thr):
        n = self.layers
        if n == 0:
            return False
        if n == 1:
            return self.m_s < thr
        return self.m_s_0 < thr or self.m_s_l < thr


class Forcing(object):
    """instantaneous forcing for one sub-step; precip already apportioned"""
    __slots__ = ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'pp', 'm_pp',
                 'm_snow', 'm_rain', 'z_snow', 'rho_snow', 't_snow', 't_rain',
                 'sat_snow')


def precip(rec, share):
    """(precip?, m_pp, m_snow, m_rain, z_snow, rho_snow, t_snow, t_rain, sat)"""
    m = rec['m_pp']
    if not m > 0:
        return (False, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0)
    fs = rec['percent_snow']
    snow = m * fs
    rain = m - snow
    rho = rec['rho_snow']
    t = rec['t_pp']
    if snow > 0 and not rho > 0:
        raise Impossible('snowfall without density')
    if rain > 0 and t < TF:
        t = TF
    ts = tr = sat = 0.0
    if snow > 0 and rain > 0:
        ts, tr, sat = TF, t, 1.0
    elif snow > 0:
        if t < TF:
            ts = t
        else:
            ts, sat = TF, 1.0
    elif rain > 0:
        tr = t
    return (True, m * share, snow * share, rain * share,
            (snow / rho * share) if snow > 0 else 0.0, rho, ts, tr, sat)


def forcing(r1, r2, frac, share):
    """linear interpolation between the bracketing records, precip by share"""
    f = Forcing()
    for k in ('S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g'):
        setattr(f, k, r1[k] + (r2[k] - r1[k]) * frac)
    (f.pp, f.m_pp, f.m_snow, f.m_rain, f.z_snow, f.rho_snow, f.t_snow,
     f.t_rain, f.sat_snow) = precip(r1, share)
    return f


def split_layers(s, p):
    if s.m_s <= p.thr[2] or s.z_s <= 0:
        z0 = zl = 0.0
    else:
        zl = s.z_s - p.max_z0
        if zl > 0:
            z0 = p.max_z0
        else:
            z0, zl = s.z_s, 0.0
        if zl * s.rho < p.thr[2]:
            z0, zl = s.z_s, 0.0
    s.z_s, s.z_s_0, s.z_s_l = z0 + zl, z0, zl


def _masses(s):
    s.m_s_0 = s.rho * s.z_s_0
    s.m_s_l = s.rho * s.z_s_l


def _cold(t, m):
    return cp_i(t) * m * (t - TF) if t < TF else 0.0


def relayer(s, p):
    n = s.layers
    split_layers(s, p)
    m = s.layers
    if m != n:
        s.ev.append('%d>%d' % (n, m))
    if m == 0:
        s.rho = 0.0
        if s.m_s > 0:
            s.ev.append(('gone', s.m_s, s.h2o_total))
            s.h2o_total += s.m_s
        s.h2o_vol = s.h2o = s.h2o_max = s.h2o_sat = 0.0
        s.m_s = s.m_s_0 = s.cc_s_0 = 0.0
        s.t_s = s.t_s_0 = TNONE
        if n == 2:
            s.m_s_l = s.cc_s_l = 0.0
            s.t_s_l = TNONE
        s.snow = False
        return
    _masses(s)
    if n == 1 and m == 2:
        s.t_s_l = s.t_s
        s.cc_s_l = _cold(s.t_s_l, s.m_s_l)
        s.jump += s.cc_s_l
    elif n == 2 and m == 1:
        s.jump -= s.cc_s_l
        s.t_s_l = TNONE
        s.cc_s_l = 0.0


def change(s, p, dz, dm):
    s.z_s += dz
    s.m_s += dm
    if s.m_s <= 0:
        s.ev.append('mass lost')
        s.z_s = 0.0
        relayer(s, p)
        return
    s.rho = s.m_s / s.z_s if s.z_s != 0.0 else 0.0
    if s.rho > 600:
        s.rho = 600.0
        s.z_s = s.m_s / s.rho
        s.ev.append('clip')
        relayer(s, p)
    elif dz != 0.0:
        relayer(s, p)
    else:
        _masses(s)


def establish(s, p):
    """new snowcover from depth, density, temperatures and saturation"""
    s.m_s = s.rho * s.z_s
    split_layers(s, p)
    n = s.layers
    s.ev.append('init%d' % n)
    if n == 0:
        if s.m_s > 0:
            s.h2o_total += s.m_s
        for k in ('rho', 'm_s', 'm_s_0', 'cc_s_0', 'm_s_l', 'cc_s_l',
                  'h2o_vol', 'h2o', 'h2o_max', 'h2o_sat'):
            setattr(s, k, 0.0)
        s.t_s = s.t_s_0 = s.t_s_l = TNONE
        return
    _masses(s)
    s.cc_s_0 = _cold(s.t_s_0, s.m_s_0)
    if n == 2:
        s.cc_s_l = _cold(s.t_s_l, s.m_s_l)
    else:
        s.t_s_l = TNONE
        s.cc_s_l = 0.0
    s.h2o_vol = s.h2o_sat * p.max_h2o
    dry = (s.rho - s.h2o_vol * RHOW) / (1 - s.h2o_vol * RHOW / RHOI)
    s.h2o_max = held(s.z_s, dry, p.max_h2o)
    s.h2o = s.h2o_sat * s.h2o_max


def initial(p, rec):
    """state from an initial snow record (temperatures in kelvin)"""
    s = S()
    s.ev = []
    s.z_s, s.rho = rec['z_s'], rec['rho']
    s.t_s_0, s.t_s = rec['t_s_0'], rec['t_s']
    s.t_s_l = rec.get('t_s_l', rec['t_s'])
    s.h2o_sat = rec['h2o_sat']
    establish(s, p)
    return s


class Out(object):
    __slots__ = ('R_n', 'H', 'L_v_E', 'E', 'G', 'G_0', 'M', 'delta_Q',
                 'delta_Q_0', 'melt', 'E_s', 'swi', 'conv', 'refrozen',
                 'excess', 'init', 'resolved', 'retained')


FLUX = ('R_n', 'H', 'L_v_E', 'G', 'G_0', 'M', 'delta_Q', 'delta_Q_0')


def fluxes(s, p, f, dt, init, o):
    es0 = es_ice(s.t_s_0)
    esl = es_ice(s.t_s_l) if s.layers == 2 else None
    o.R_n = f.S_n + EMIS * (f.I_lw - SB * s.t_s_0 ** 4)
    ea = min(f.e_a, es_ice(f.t_a))
    zt = p.z_t if p.relative else p.z_t - s.z_s
    zu = p.z_u if p.relative else p.z_u - s.z_s
    o.H, o.L_v_E, o.E, o.init, o.conv = turbulent(
        p.pa, f.t_a, s.t_s_0, zt, ea, es0, f.u, zu, p.z_0, init)
    k = CAL * 0.0077 * (s.rho / 1000.0) ** 2
    kg = keff(1.65, f.t_g, p.pa, es_ice(f.t_g))
    if s.layers == 1:
        t = min(s.t_s_0, TF)
        o.G = o.G_0 = conduct(keff(k, t, p.pa, es0), kg, t, f.t_g,
                              s.z_s_0, p.z_g)
    else:
        t = min(s.t_s_l, TF)
        o.G = conduct(keff(k, t, p.pa, esl), kg, t, f.t_g, s.z_s_l, p.z_g)
        if s.t_s_0 == s.t_s_l:
            o.G_0 = 0.0
        else:
            o.G_0 = conduct(keff(k, s.t_s_0, p.pa, es0),
                            keff(k, s.t_s_l, p.pa, esl),
                            s.t_s_0, s.t_s_l, s.z_s_0, s.z_s_l)
    o.M = 0.0
    if f.pp:
        o.M = (cp_w(f.t_rain) * f.m_rain * (f.t_rain - s.t_s_0)
               + cp_i(f.t_snow) * f.m_snow * (f.t_snow - s.t_s_0)) / dt
    o.delta_Q_0 = o.R_n + o.H + o.L_v_E + o.G_0 + o.M
    o.delta_Q = o.delta_Q_0 + o.G - o.G_0


def step(s0, p, f, dt, init):
    """One sub-step.  s0 is not modified.  Returns (state, Out)."""
    s = S()
    for k in STATE:
        setattr(s, k, getattr(s0, k))
    s.ev = []
    s.h2o_total = 0.0
    o = Out()
    o.init, o.conv, o.refrozen, o.excess = init, True, 0.0, 0.0
    o.retained = 0.0
    o.resolved = True
    s.snow = s.layers > 0
    if s.snow:
        fluxes(s, p, f, dt, init, o)
    else:
        for k in FLUX:
            setattr(o, k, 0.0)
        o.E = 0.0

    # 1 compaction with time
    if s.snow and s.rho < 550:
        if s.m_s >= 2000.0:
            rate = 1.0
        else:
            rate = (23.5 * math.cos(math.pi * s.m_s / 2000.0) + 24.5) \
                / (dt / 3600.0)
        kk = 1.0 if s.rho < 100 else math.exp(-0.046 * (s.rho - 100))
        d1 = 0.01 * kk * math.exp(-0.04 * (TF - s.t_s))
        d2 = 0.026 * math.exp(-0.08 * (TF - s.t_s)) * s.m_s \
            * math.exp(-21.0 * s.rho / RHOW)
        s.rho += (d1 / rate + d2 / rate) * s.rho
        s.z_s = s.m_s / s.rho
        relayer(s, p)

    # 2 precipitation
    if f.pp:
        if s.snow:
            change(s, p, f.z_snow, f.m_pp)
            s.h2o += held(f.z_snow, f.rho_snow, f.sat_snow * p.max_h2o)
        elif f.m_snow > 0:
            s.z_s, s.rho = f.z_snow, f.rho_snow
            s.t_s = s.t_s_0 = s.t_s_l = f.t_snow
            s.h2o_sat = f.sat_snow
            establish(s, p)
            o.retained = s.h2o
        s.h2o_total += s.h2o + f.m_rain
    else:
        s.h2o_total += s.h2o

    # 3 melt and refreezing
    o.melt = 0.0
    if s.snow:
        q0 = o.delta_Q_0 * dt + s.cc_s_0
        if q0 > 0:
            o.melt = q0 / LF0
        s.cc_s_0 = min(q0, 0.0)
        ql = 0.0
        if s.layers == 2:
            ql = (o.G - o.G_0) * dt + s.cc_s_l
            if ql > 0:
                o.melt += ql / LF0
            s.cc_s_l = min(ql, 0.0)
        else:                        # the layer this was for is gone
            s.jump -= (o.G - o.G_0) * dt
        s.h2o_total += o.melt
        frozen = 0.0
        if s.cc_s_0 < 0 and s.h2o_total > 0:
            w = s.h2o_total * s.z_s_0 / s.z_s
            left = q0 + w * LF0
            if left <= 0:
                frozen = w
                s.cc_s_0 = left
            else:
                frozen = w - left / LF0
                s.cc_s_0 = 0.0
        if s.layers == 2 and s.cc_s_l < 0 and s.h2o_total > 0:
            w = s.h2o_total * s.z_s_l / s.z_s
            left = ql + w * LF0
            if left <= 0:
                frozen += w
                s.cc_s_l = left
            else:
                frozen += w - left / LF0
                s.cc_s_l = 0.0
        o.refrozen = frozen
        if abs(s.h2o_total - frozen) <= 1e-8:
            s.h2o_total = 0.0
        else:
            s.h2o_total -= frozen
        if o.melt > 0:
            if o.melt > 0.5 * s.m_s:
                o.resolved = False
            change(s, p, -o.melt / s.rho, 0.0)

    # 4 evaporation / condensation at the surface and the soil
    o.E_s = 0.0
    if s.snow:
        e0 = o.E * dt
        before = s.h2o_total
        if s.h2o_total > 0:
            s.h2o_total = max(s.h2o_total + e0 * VAPSUB, 0.0)
        el = 0.0
        n = s.layers
        if n > 0:
            tl = s.t_s_l if n == 2 else s.t_s_0
            tb = (f.t_g + tl) / 2.0
            dq = q_spec(es_ice(f.t_g), p.pa) - q_spec(es_ice(tl), p.pa)
            el = dens(p.pa, tb) * diffusion(p.pa, tb) * dq / p.z_g * dt
            if s.h2o_total > 0:
                s.h2o_total = max(s.h2o_total + el * VAPSUB, 0.0)
        o.E_s = e0 + el
        if o.E_s <= -s.m_s:          # all of it is gone, and not more
            o.E_s = -s.m_s
            s.h2o_total = 0.0
        if n > 0:
            change(s, p, (o.E_s + before - s.h2o_total) / s.rho / 2.0, o.E_s)

    # 5 compaction by liquid water
    if s.snow and s.rho <= 550:
        add = (o.melt + (f.m_rain if f.pp else 0.0)) / s.m_s
        if add > 0.000001:
            s.rho += (550 - s.rho) / (1 + 0.4 / add)
            s.z_s = s.m_s / s.rho
            relayer(s, p)

    # 6 runoff
    if not s.snow or s.layers == 0:
        o.swi = s.h2o_total
    elif s.h2o_total >= s.m_s:
        o.resolved = False
        o.swi = s.m_s
        change(s, p, -s.z_s, -s.m_s)
    else:
        s.h2o_max = held(s.z_s, (s.m_s - s.h2o_total) / s.z_s, p.max_h2o)
        if s.h2o_total > s.h2o_max:
            if s.h2o_total > 0.5 * s.m_s:
                o.resolved = False
            o.swi = s.h2o_total - s.h2o_max
            s.h2o = s.h2o_max
            s.h2o_sat, s.h2o_vol = 1.0, p.max_h2o
            change(s, p, 0.0, -o.swi)
        else:
            o.swi = 0.0
            s.h2o = s.h2o_total
            s.h2o_sat = s.h2o / s.h2o_max if s.h2o_max > 0 else 0.0
            s.h2o_vol = s.h2o_sat * p.max_h2o

    # 7 temperatures from cold content
    if s.snow:
        n = s.layers
        if n == 1:
            s.t_s_0 = TF + s.cc_s_0 / (s.m_s_0 * cp_i(s.t_s_0))
            s.t_s = s.t_s_0
        elif n == 2:
            if s.cc_s_0 + s.cc_s_l == 0.0:
                s.t_s = s.t_s_0 = s.t_s_l = TF
            else:
                s.t_s_0 = TF + s.cc_s_0 / (s.m_s_0 * cp_i(s.t_s_0))
                s.t_s_l = TF + s.cc_s_l / (s.m_s_l * cp_i(s.t_s_l))
                s.t_s = TF + (s.cc_s_0 + s.cc_s_l) / (s.m_s * cp_i(s.t_s))
    for e in s.ev:
        if isinstance(e, tuple):
            o.excess = e[2]       # liquid counted again when the pack vanished
    return s, o


class Plan(object):
    """Which level the next sub-step of an interval must use."""

    def __init__(self, p):
        self.p = p
        self.med = 0       # medium slots left (0 = at a normal boundary)
        self.small = 0     # small slots left in the current medium slot
        self.in_med = False

    def next(self, s):
        p = self.p
        if self.small > 0:
            lvl = 2
        elif self.in_med:
            lvl = self._medium(s)
        elif s.below(p.thr[0]):
            self.in_med = True
            self.med = p.n1
            lvl = self._medium(s)
        else:
            lvl = 0
        # consume
        if lvl == 2:
            self.small -= 1
            if self.small == 0:
                self.med -= 1
        elif lvl == 1:
            self.med -= 1
        if self.in_med and self.med == 0 and self.small == 0:
            self.in_med = False
        return lvl

    def _medium(self, s):
        if s.below(self.p.thr[1]):
            self.small = self.p.n2
            return 2
        return 1
