"""Oracles over recorded histories.  Each returns a list of violation dicts

    {'kind': ..., 'at': sub-step/record index, ...numbers...}

kinds that are listed in known_findings.jsonl are reported as such.
"""
import math

import refmodel as R
from core import TF, kelvin_rows, ref_params
import walk

LF = R.LF0


def V(kind, at, **kw):
    d = {'kind': kind, 'at': at}
    for k, v in kw.items():
        if isinstance(v, float):
            v = float('%.10g' % v)
        d[k] = v if isinstance(v, (int, float, str, list, dict, bool)) \
            else str(v)
    return d


# ---------------------------------------------------------- comparing steps
ATOL = {'rho': 1e-6, 't_s': 1e-6, 't_s_0': 1e-6, 't_s_l': 1e-6, 'z_s': 1e-9,
        'z_s_0': 1e-9, 'z_s_l': 1e-9, 'm_s': 1e-6, 'm_s_0': 1e-6,
        'm_s_l': 1e-6, 'cc_s_0': 0.05, 'cc_s_l': 0.05, 'h2o': 1e-6,
        'h2o_max': 1e-6, 'h2o_sat': 1e-6, 'h2o_vol': 1e-7}
RTOL = 2e-6
FATOL = 2e-4
SUMS = (('E_s_sum', 'E_s'), ('melt_sum', 'melt'), ('swi_sum', 'swi'))


def diff_step(rec, s, o, loose=1.0, flux=True, state=True, dt=3600.0):
    """first field in which the record disagrees with the reference step"""
    if flux:
        for k in R.FLUX:
            x, y = rec[k + '_bar'], getattr(o, k)
            scale = abs(y)
            if k.startswith('delta'):
                scale = abs(o.R_n) + abs(o.H) + abs(o.L_v_E) + abs(o.G) \
                    + abs(o.G_0) + abs(o.M)
            if not abs(x - y) <= loose * (FATOL + RTOL * scale):
                return k, x, y
    if state:
        q = loose * (FATOL + RTOL * (abs(o.R_n) + abs(o.H) + abs(o.L_v_E)
                                     + abs(o.G) + abs(o.G_0) + abs(o.M))) * dt
        dm = q / LF                    # water equivalent of the flux tolerance
        for k, n in SUMS:
            x, y = rec[k], getattr(o, n)
            if not abs(x - y) <= loose * (1e-8 + RTOL * abs(y)) + dm:
                return k, x, y
        mass = max(s.m_s_0, 0.5)
        for k in R.STATE:
            x, y = rec[k], getattr(s, k)
            tol = loose * (ATOL[k] + RTOL * abs(y))
            if k.startswith('cc'):
                tol += q
            elif k.startswith('t_s'):
                tol += q / 1900.0 / max(min(mass, s.m_s_l or mass), 0.5)
            elif k == 'rho':
                tol += 600.0 * dm / max(s.m_s, 0.5) * 3
            elif k in ('h2o_sat', 'h2o_vol'):
                tol += 3 * dm / max(s.h2o_max, 1e-3)
            else:
                tol += 2 * dm
            if not abs(x - y) <= tol:
                return k, x, y
        n = rec.get('layer_count')
        if n is not None and n != s.layers:
            return 'layer_count', n, s.layers
    return None


def variants(sub):
    """nudges (~1e-9) that decide ties the way rounding might have"""
    import copy
    base = (sub.s0, sub.f, sub.init)
    yield base
    e = 3e-10
    for names in (('t_g',), ('t_a',), ('e_a',), ('t_a', 't_g')):
        for sg in (1, -1):
            f = copy.copy(sub.f)
            for n in names:
                setattr(f, n, getattr(f, n) * (1 + sg * e))
            yield (sub.s0, f, sub.init)
    for names in (('z_s', 'z_s_0', 'z_s_l'), ('m_s', 'm_s_0', 'm_s_l'),
                  ('cc_s_0',), ('cc_s_l',), ('rho',), ('t_s_0',), ('t_s_l',)):
        for sg in (1, -1):
            s = R.S({k: getattr(sub.s0, k) for k in R.STATE})
            for n in names:
                setattr(s, n, getattr(s, n) * (1 + sg * e))
            yield (s, sub.f, sub.init)
    yield (sub.s0, sub.f, (None, None))


def compare_sub(sub, p, flux=True, state=True):
    """None if the real sub-step refines the reference model.

    A mismatch only counts if no 1e-9 nudge of the inputs reproduces it, and
    is loosened where the stability iteration itself did not converge.
    """
    if sub.o is None:
        return None
    if not sub.o.conv:
        return None
    d = diff_step(sub.rec, sub.ref, sub.o, 1.0, flux, state, sub.dt)
    if d is None:
        return None
    for s0, f, init in variants(sub):
        try:
            s, o = R.step(s0, p, f, sub.dt, init)
        except Exception:
            continue
        if not o.conv:
            return None
        if diff_step(sub.rec, s, o, 20.0, flux, state, sub.dt) is None:
            return None
    return d


# --------------------------------------------------------------------- C01
def mass_balance(sub):
    """water balance of one sub-step; classifies the two listed findings"""
    r, q, f = sub.rec, sub.prev, sub.f
    res = q['m_s'] + f.m_pp + r['E_s_sum'] - r['swi_sum'] - r['m_s']
    tol = 1e-8 * (1.0 + q['m_s'] + f.m_pp + abs(r['swi_sum']))
    if abs(res) <= tol:
        return None
    o = sub.o
    if o is not None:
        # K2: liquid water of wet snow on bare ground both runs off and stays
        if o.retained > 0 and abs(res + r['h2o']) <= 1e-7 + tol \
                and r['layer_count'] > 0:
            return V('wet_snow_on_bare_ground', sub.k, excess=-res)
        # K1: liquid water counted twice when the pack vanishes
        if o.excess > 0 and r['layer_count'] == 0 \
                and abs(res + o.excess) <= 1e-5 * (1 + o.excess) + tol:
            return V('meltout_double_count', sub.k, excess=-res)
    if (o is None or not o.conv) and r['layer_count'] == 0 \
            and q['layer_count'] > 0:
        # the reference can not tell how much liquid there was, but no more
        # than was there or came can be counted twice
        liquid = q['h2o'] + f.m_pp + r['melt_sum'] + max(r['E_s_sum'], 0.0)
        if 0 < -res <= liquid + tol:
            return V('meltout_double_count', sub.k, excess=-res)
    return V('water_balance', sub.k, residual=res, m_before=q['m_s'],
             m_after=r['m_s'], precip=f.m_pp, swi=r['swi_sum'],
             E_s=r['E_s_sum'])


def water_extra(sub):
    out = []
    r, q = sub.rec, sub.prev
    if r['swi_sum'] < -1e-12:
        out.append(V('negative_runoff', sub.k, swi=r['swi_sum']))
    if r['melt_sum'] < -1e-12:
        out.append(V('negative_melt', sub.k, melt=r['melt_sum']))
    if q['layer_count'] == 0:
        if r['E_s_sum'] != 0:
            out.append(V('evaporation_from_bare_ground', sub.k,
                         E_s=r['E_s_sum']))
        if r['melt_sum'] != 0:
            out.append(V('melt_on_bare_ground', sub.k, melt=r['melt_sum']))
        if r['layer_count'] == 0 and \
                abs(r['swi_sum'] - sub.f.m_pp) > 1e-9 + 1e-9 * sub.f.m_pp:
            out.append(V('bare_ground_runoff', sub.k, swi=r['swi_sum'],
                         precip=sub.f.m_pp))
    return out


# --------------------------------------------------------------------- C02
def energy_sums(rec, k):
    """the reported terms add up (holds for instantaneous and mean values)"""
    g = {n: rec[n + '_bar'] for n in R.FLUX}
    scale = sum(abs(v) for v in g.values())
    tol = 1e-7 + 1e-9 * scale
    out = []
    a = g['R_n'] + g['H'] + g['L_v_E'] + g['M']
    if not abs(a + g['G'] - g['delta_Q']) <= tol:
        out.append(V('terms_do_not_sum', k, total=a + g['G'],
                     delta_Q=g['delta_Q']))
    if not abs(a + g['G_0'] - g['delta_Q_0']) <= tol:
        out.append(V('surface_terms_do_not_sum', k, total=a + g['G_0'],
                     delta_Q_0=g['delta_Q_0']))
    return out


def energy_closure(sub, p):
    """energy gained = change of cold content + latent heat of net melt"""
    r, q, f, o = sub.rec, sub.prev, sub.f, sub.o
    out = []
    if q['layer_count'] == 0:
        for n in R.FLUX:
            if r[n + '_bar'] != 0:
                out.append(V('flux_on_bare_ground', sub.k, term=n,
                             value=r[n + '_bar']))
                break
        return out
    # precipitation brings the heat of its own mass, no more and no less
    want = 0.0
    if f.pp:
        want = (R.cp_w(f.t_rain) * f.m_rain * (f.t_rain - q['t_s_0'])
                + R.cp_i(f.t_snow) * f.m_snow * (f.t_snow - q['t_s_0']))
    if not abs(r['M_bar'] * sub.dt - want) <= 1e-6 * (1 + abs(want)):
        out.append(V('advected_heat', sub.k, M=r['M_bar'],
                     expected=want / sub.dt))
    if o is None or r['layer_count'] == 0 or any(
            not isinstance(e, str) or e[:4] in ('init', 'mass')
            for e in sub.ref.ev):
        return out
    moved = r['layer_count'] != q['layer_count'] or any(
        '>' in e for e in sub.ref.ev)
    if moved and (not o.conv or sub.ref.layers != r['layer_count']):
        return out
    dQ, dQ0 = r['delta_Q_bar'] * sub.dt, r['delta_Q_0_bar'] * sub.dt
    # where the melt came from
    q0 = dQ0 + q['cc_s_0']
    ql = 0.0
    if q['layer_count'] == 2:
        ql = dQ - dQ0 + q['cc_s_l']
    want = max(q0, 0.0) / LF + max(ql, 0.0) / LF
    tolw = 1e-9 + 1e-9 * (abs(q0) + abs(ql) + abs(dQ) + abs(q['cc_s'])) / LF
    if not moved and not abs(r['melt_sum'] - want) <= tolw:
        out.append(V('melt_energy', sub.k, melt=r['melt_sum'], expected=want))
    # closure including refreezing
    avail = q['h2o'] + R.held(f.z_snow, f.rho_snow, f.sat_snow * p.max_h2o) \
        * (1 if f.pp else 0) + f.m_rain + r['melt_sum']
    froz = (r['cc_s'] - q['cc_s'] - dQ) / LF + r['melt_sum']
    tol = 1e-7 + 1e-9 * (abs(dQ) + abs(q['cc_s'])) / LF + 1e-9 * avail
    if moved:
        # listed finding: the published layer changes make or lose exactly
        # the cold content of the lower layer
        jump = sub.ref.jump
        tol += 1e-6 * abs(jump) / LF
        froz -= jump / LF
    if r['h2o_total'] > 0:
        want = avail + r['E_s_sum'] * R.VAPSUB - r['h2o_total']
        if not abs(froz - want) <= tol:
            out.append(V('energy_not_closed', sub.k, refrozen_by_energy=froz,
                         refrozen_by_water=want))
    elif not (-tol <= froz <= avail + tol):
        out.append(V('energy_not_closed', sub.k, refrozen_by_energy=froz,
                     liquid_available=avail))
    if moved:
        if not out and abs(jump) > LF * tol:
            out.append(V('layer_change_heat', sub.k, made=jump))
        return out
    return out + temperatures(sub)


def temperatures(sub):
    """cold content <-> temperature, with the specific heat at the old one"""
    r, q = sub.rec, sub.prev
    out = []
    n = r['layer_count']
    if not n or not q['layer_count']:
        return out
    pairs = [('t_s_0', 'cc_s_0', 'm_s_0')]
    if n == 2:
        pairs += [('t_s_l', 'cc_s_l', 'm_s_l')]
        if q['layer_count'] == 2:
            pairs += [('t_s', 'cc_s', 'm_s')]
    for t, c, m in pairs:
        if r[m] <= 0:
            continue
        # the old temperature is the layer's own; a lower layer that formed
        # (again) within the step starts at the pack's, a pack that vanished
        # and formed anew within it at its new one
        olds = {q[t], r[t]}
        if t == 't_s_l':
            olds.add(q['t_s'])
        want = [TF + r[c] / (r[m] * R.cp_i(x)) for x in sorted(olds)]
        if not min(abs(r[t] - w) for w in want) <= 1e-6 + 1e-9 * \
                abs(r[c]) / r[m] / 2000:
            out.append(V('temperature_vs_cold_content', sub.k, layer=t,
                         t=r[t], expected=want[0]))
    return out


def temperatures_roughly(r, k):
    """the same for records that span several steps: the old temperature is
    not known, the specific heat varies by less than a third"""
    out = []
    pairs = [('t_s_0', 'cc_s_0', 'm_s_0')]
    if r['layer_count'] == 2:
        pairs += [('t_s_l', 'cc_s_l', 'm_s_l')]
    for t, c, m in pairs:
        if r['layer_count'] == 0 or r[m] <= 0 or r[t] < 200:
            continue
        want = r[c] / (r[m] * R.cp_i(r[t]))
        if not abs(r[t] - TF - want) <= 1e-6 + 0.3 * abs(want):
            out.append(V('temperature_vs_cold_content', k, layer=t,
                         t=r[t], expected=want + TF))
    return out


# --------------------------------------------------------------------- C03
def well_formed(rec, k, p):
    out = []
    for n, v in rec.items():
        if n != 'date_time' and (v != v or abs(v) == math.inf):
            return [V('not_finite', k, field=n)]
    r = rec
    n = r['layer_count']

    def bad(kind, **kw):
        out.append(V(kind, k, **kw))

    for f in ('z_s', 'z_s_0', 'z_s_l'):
        if r[f] < 0:
            bad('negative_depth', field=f, value=r[f])
    if abs(r['z_s'] - r['z_s_0'] - r['z_s_l']) > 1e-9 * (1 + r['z_s']):
        bad('depth_not_sum_of_layers', z_s=r['z_s'])
    if n not in (0.0, 1.0, 2.0):
        bad('layer_count', value=n)
    if n != (r['z_s_0'] > 0) + (r['z_s_l'] > 0):
        bad('layer_count_vs_depth', layer_count=n, z_s_0=r['z_s_0'],
            z_s_l=r['z_s_l'])
    if n == 0:
        for f in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l', 'rho',
                  'cc_s', 'cc_s_0', 'cc_s_l', 'h2o', 'h2o_sat', 'h2o_vol',
                  'h2o_max'):
            if r[f] != 0:
                bad('ghost_snow', field=f, value=r[f])
        for f in ('t_s', 't_s_0', 't_s_l'):
            if abs(r[f] - R.TNONE) > 1e-6:
                bad('no_snow_temperature', field=f, value=r[f])
        return out
    m = r['m_s']
    if m <= 0:
        bad('mass_not_positive', m_s=m)
    if abs(m - r['m_s_0'] - r['m_s_l']) > 1e-7 * (1 + m):
        bad('mass_not_sum_of_layers', m_s=m)
    for a, b in (('m_s', 'z_s'), ('m_s_0', 'z_s_0'), ('m_s_l', 'z_s_l')):
        if abs(r[a] - r['rho'] * r[b]) > 1e-7 * (1 + m):
            bad('mass_density_depth', field=a, m=r[a], rho=r['rho'], z=r[b])
    if not 0 < r['rho'] <= 600 * (1 + 1e-9):
        bad('density_range', rho=r['rho'])
    if r['cc_s_0'] > 0 or r['cc_s_l'] > 0 or \
            abs(r['cc_s'] - r['cc_s_0'] - r['cc_s_l']) > 1e-6 * (
                1 + abs(r['cc_s'])):
        bad('cold_content', cc_s_0=r['cc_s_0'], cc_s_l=r['cc_s_l'],
            cc_s=r['cc_s'])
    if r['t_s_0'] > TF + 1e-9 or r['t_s'] > TF + 1e-9 or \
            r['t_s_l'] > TF + 1e-9:
        bad('above_freezing', t_s_0=r['t_s_0'], t_s_l=r['t_s_l'],
            t_s=r['t_s'])
    if n == 1:
        if abs(r['t_s_l'] - R.TNONE) > 1e-6 or r['cc_s_l'] != 0 \
                or r['m_s_l'] != 0:
            bad('ghost_lower_layer', t_s_l=r['t_s_l'], cc_s_l=r['cc_s_l'],
                m_s_l=r['m_s_l'])
        if r['z_s_0'] > p.max_z0 + p.thr[2] / r['rho'] + 1e-9:
            bad('one_layer_too_deep', z_s_0=r['z_s_0'])
    else:
        if abs(r['z_s_0'] - p.max_z0) > 1e-9:
            bad('active_layer_depth', z_s_0=r['z_s_0'])
    if r['h2o'] < 0 or r['h2o'] > r['h2o_max'] * (1 + 1e-9) + 1e-9:
        bad('liquid_above_capacity', h2o=r['h2o'], h2o_max=r['h2o_max'])
    if not 0 <= r['h2o_sat'] <= 1 + 1e-9:
        bad('saturation_range', h2o_sat=r['h2o_sat'])
    if r['h2o'] > m + 1e-9:
        bad('liquid_above_mass', h2o=r['h2o'], m_s=m)
    return out


# --------------------------------------------------------------------- C16
def flux_direction(sub, p):
    r, q, f, o = sub.rec, sub.prev, sub.f, sub.o
    out = []
    if q['layer_count'] == 0 or o is None or not o.conv:
        return out

    def sign(name, flux, drive, eps, feps, clear=None):
        if drive > eps and flux < -feps or drive < -eps and flux > feps:
            out.append(V('uphill_flux', sub.k, term=name, flux=flux,
                         gradient=drive))
        elif clear and abs(drive) > clear and not abs(flux) > feps:
            out.append(V('no_flux', sub.k, term=name, flux=flux,
                         gradient=drive))

    wind = f.u > 0.1

    zt = p.z_t if p.relative else p.z_t - q['z_s']
    dT = f.t_a + R.G / R.CPAIR * zt - q['t_s_0']
    sign('H', r['H_bar'], dT, 1e-7, 1e-9, wind and 0.1)
    ea = min(f.e_a, R.es_ice(f.t_a))
    dE = ea - R.es_ice(q['t_s_0'])
    sign('L_v_E', r['L_v_E_bar'], dE, 1e-5, 1e-9, wind and 1.0)
    low = 't_s_l' if q['layer_count'] == 2 else 't_s_0'
    sign('G', r['G_bar'], f.t_g - q[low], 1e-7, 1e-9, 0.01)
    if q['layer_count'] == 2:
        sign('G_0', r['G_0_bar'], q['t_s_l'] - q['t_s_0'], 1e-7, 1e-9,
             0.01)
    elif r['G_bar'] != r['G_0_bar']:
        out.append(V('one_layer_ground_flux', sub.k, G=r['G_bar'],
                     G_0=r['G_0_bar']))
    if f.pp and f.m_rain > 0 and f.m_snow == 0:
        sign('M', r['M_bar'], f.t_rain - q['t_s_0'], 1e-7, 1e-9)
    if f.pp and f.m_rain == 0:
        sign('M', r['M_bar'], f.t_snow - q['t_s_0'], 1e-7, 1e-9)
    if not f.pp and r['M_bar'] != 0:
        out.append(V('advection_without_precip', sub.k, M=r['M_bar']))
    if f.u == 0 and (abs(r['H_bar']) > 1e-9 or abs(r['L_v_E_bar']) > 1e-9):
        out.append(V('exchange_without_wind', sub.k, H=r['H_bar'],
                     L_v_E=r['L_v_E_bar']))
    # the vapour mass flux is the latent heat flux over the latent heat
    if sub.ref is not None and r['layer_count'] > 0 and o.resolved and \
            not sub.ref.ev:
        t = q['t_s_0']
        e0 = r['L_v_E_bar'] / (R.lv(t) + (R.lf(t) if t <= TF else 0.0)) \
            * sub.dt
        es = r['E_s_sum'] - e0
        # what is left is the exchange with the soil
        sign('E_soil', es, R.es_ice(f.t_g) - R.es_ice(q[low]), 1e-4,
             1e-9 + 1e-7 * abs(e0), 20.0)
    return out


# --------------------------------------------------------- whole intervals
def ref_interval(s0, p, r1, r2, init, nudge=0):
    """reference model over one whole input interval.

    Returns dict with final state, totals, time-weighted means, flags."""
    plan = R.Plan(p)
    T = p.steps[0]
    t = 0.0
    s = s0
    tot = {'E_s': 0.0, 'melt': 0.0, 'swi': 0.0}
    mean = dict.fromkeys(R.FLUX, 0.0)
    ex = ret = 0.0
    conv = resolved = True
    n = 0
    ev = []
    tmin = 1e9
    while t < T - 1e-6:
        lvl = plan.next(s)
        dt = p.steps[lvl]
        f = R.forcing(r1, r2, t / T, dt / T)
        if nudge:
            f.t_g *= 1 + nudge
            f.t_a *= 1 + nudge
        s, o = R.step(s, p, f, dt, init)
        init = o.init
        conv &= o.conv
        resolved &= o.resolved
        ev += s.ev
        if s.layers:
            tmin = min(tmin, s.t_s_0)
        for k in tot:
            tot[k] += getattr(o, k)
        for k in mean:
            mean[k] += getattr(o, k) * dt / T
        ex += o.excess
        ret += o.retained if s.layers else 0.0
        t += dt
        n += 1
    return {'s': s, 'tot': tot, 'mean': mean, 'excess': ex, 'retained': ret,
            'conv': conv, 'resolved': resolved, 'init': init, 'n': n,
            'ev': ev, 'tmin': tmin}


def abstract(sub):
    """coarse state of a sub-step, for the coverage count"""
    r, f = sub.rec, sub.f
    n = int(r['layer_count'])
    wet = 0 if r['h2o'] <= 0 else (2 if r['h2o_sat'] >= 1 else 1)
    iso = int(n > 0 and r['cc_s'] == 0)
    dense = 0 if r['rho'] < 100 else 1 if r['rho'] < 300 else \
        2 if r['rho'] < 550 else 3
    pk = 0 if not f.pp else 1 if f.m_rain == 0 and f.sat_snow == 0 else \
        2 if f.m_rain == 0 else 3 if f.m_snow > 0 else 4
    big = 0 if r['m_s'] < 20 else 1 if r['m_s'] < 200 else \
        2 if r['m_s'] < 2000 else 3
    ev = ''
    if sub.ref is not None:
        ev = ','.join(sorted(set(e if isinstance(e, str) else e[0]
                                 for e in sub.ref.ev)))
    return '%d|%d|%d%d%d%d%d|%s' % (n, sub.lvl, wet, iso, dense, pk, big, ev)
