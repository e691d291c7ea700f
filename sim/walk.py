"""Walk a recorded history sub-step by sub-step next to the reference model."""
import refmodel as R
from core import kelvin_rows, ref_params, ref_initial


class Broken(Exception):
    """the history's time structure is not walkable (C04/C06 report it)"""


class Sub(object):
    """one sub-step of a real history"""
    __slots__ = ('k', 'iv', 'prev', 'rec', 'lvl', 'dt', 'frac', 'f', 'ref',
                 'o', 'init', 'plan_lvl', 'edge', 's0')


def near(x, thr):
    return abs(x - thr) <= 1e-9 * max(1.0, abs(thr))


def on_edge(s, p):
    """is a layer mass so close to a threshold that an ulp decides?"""
    for t in p.thr:
        for m in (s.m_s, s.m_s_0, s.m_s_l):
            if m and near(m, t):
                return True
    return False


def exact(ic):
    """are the initial layer masses free of rounding?"""
    return ic['z_s'] > 0 and (ic['z_s'] * 16) % 1 == 0 and ic['rho'] % 8 == 0


def first_record(sc, start):
    """pseudo record of the state before the first interval"""
    p = ref_params(sc['cfg'])
    s = ref_initial(sc['cfg'], p)
    d = {k: getattr(s, k) for k in R.STATE}
    d['layer_count'] = float(s.layers)
    d['cc_s'] = s.cc_s_0 + s.cc_s_l
    d['date_time'] = start
    return d


def walk_all(sc, recs, start, want_ref=True):
    """generator over Sub for a history recorded at every sub-step"""
    p = ref_params(sc['cfg'])
    rows = kelvin_rows(sc)
    T = p.steps[0]
    prev = first_record(sc, start)
    init = (None, None)
    plan = R.Plan(p)
    for k, rec in enumerate(recs):
        t0 = (prev['date_time'] - start).total_seconds()
        t1 = (rec['date_time'] - start).total_seconds()
        dt = t1 - t0
        iv = int(t0 // T)
        if dt not in p.steps or t1 > (iv + 1) * T + 1e-6 or iv + 1 >= len(rows):
            raise Broken('sub-step %d: from %s to %s s' % (k, t0, t1))
        sub = Sub()
        sub.k, sub.iv, sub.prev, sub.rec, sub.dt = k, iv, prev, rec, dt
        sub.lvl = p.steps.index(dt)
        sub.frac = (t0 - iv * T) / T
        s0 = R.S(prev)
        sub.s0 = s0
        sub.edge = on_edge(s0, p) and not (k == 0 and exact(sc['cfg']['ic']))
        if t0 == iv * T:
            plan = R.Plan(p)
        sub.plan_lvl = plan.next(s0)
        sub.f = R.forcing(rows[iv], rows[iv + 1], sub.frac, dt / T)
        sub.init = init
        sub.ref = sub.o = None
        if want_ref:
            try:
                sub.ref, sub.o = R.step(s0, p, sub.f, dt, init)
                init = sub.o.init
            except (R.Impossible, ZeroDivisionError, OverflowError,
                    ValueError):
                pass
        yield sub
        prev = rec
