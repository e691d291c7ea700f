"""C05 output cadence independence, C17 bare ground has no memory: paired
simulations of the same season, each under its own fault schedule."""
import copy

import core
import oracle
import refmodel as R
import walk
from base import Phys, Prop, Result, gen_faults, play, shrink_sc, start_of
from oracle import V

SUMS = ('E_s_sum', 'melt_sum', 'swi_sum')


def close(x, y, scale=0.0, rel=1e-9):
    return abs(x - y) <= rel * (abs(x) + abs(y) + scale) + 1e-12


class C05(Prop):
    pid = 'C05'
    quick, thorough = 220, 20000
    rule = ('a case is one season simulated twice, with per-step and with '
            'per-interval output, each run under its own crash/restart/'
            'reject/fork schedule; non-trivial if an interval with more than '
            'one sub-step was compared; distinct by case content')

    def gen(self, rng, i, tier):
        n = rng.randint(5, 20)
        sc = core.gen_scenario(rng, n)
        return {'sc': sc, 'faults': gen_faults(rng, n - 1, 0.3),
                'faults2': gen_faults(rng, n - 1, 0.3)}

    def shrink(self, case):
        if case['faults2']:
            c = copy.deepcopy(case)
            c['faults2'] = []
            yield c
        for c in shrink_sc(case):
            yield c

    def run(self, case):
        res = Result()
        sc = case['sc']
        sc_a, sc_n = copy.deepcopy(sc), copy.deepcopy(sc)
        sc_a['cfg']['mode'], sc_n['cfg']['mode'] = 'all', 'normal'
        a, ea = play(sc_a, case['faults'], res=res)
        b, eb = play(sc_n, case['faults2'], res=res)
        ra, rb = a.records(), b.records()
        res.steps = len(ra) + len(rb)
        res.simsec = (a.i + b.i) * 60.0 * sc['cfg']['steps'][0]
        out = res.viol
        if (ea is None) != (eb is None):
            out.append(V('one_mode_aborts', -1, all=repr(ea)[:120],
                         normal=repr(eb)[:120]))
            return res
        if ea is None and len(rb) != len(sc['wx']) - 1:
            out.append(V('rows_per_interval', -1, rows=len(rb),
                         expected=len(sc['wx']) - 1))
            return res
        start = start_of(sc)
        T = 60.0 * sc['cfg']['steps'][0]
        j = 0
        for k, n in enumerate(rb):
            t1 = (n['date_time'] - start).total_seconds()
            if t1 != (k + 1) * T:
                out.append(V('row_stamp', k, at=t1, expected=(k + 1) * T))
                break
            part = []
            while j < len(ra) and \
                    (ra[j]['date_time'] - start).total_seconds() <= t1:
                part.append(ra[j])
                j += 1
            if not part:
                out.append(V('no_steps_inside', k))
                break
            res.states.add((len(part), part[0]['layer_count'],
                            part[-1]['layer_count']))
            res.cov['intervals of %s steps' % (
                '1' if len(part) == 1 else '2-9' if len(part) < 10
                else '10+')] += 1
            if len(part) > 1:
                res.nontrivial = True
            v = self.interval(k, n, part, k * T, start)
            out += v
            if v:
                break
        return res

    def interval(self, k, n, part, t0, start):
        last = part[-1]
        for f in R.STATE + ('layer_count',):
            if not close(n[f], last[f], 1e-3):
                return [V('end_state', k, field=f, normal=n[f],
                          all=last[f], steps=len(part))]
        if last['date_time'] != n['date_time']:
            return [V('end_instant', k)]
        for f in SUMS:
            s = sum(r[f] for r in part)
            if not close(n[f], s, sum(abs(r[f]) for r in part)):
                return [V('interval_total', k, field=f, normal=n[f],
                          sum_of_steps=s, steps=len(part))]
        prev, T = t0, 0.0
        mean = dict.fromkeys(R.FLUX, 0.0)
        mag = dict.fromkeys(R.FLUX, 0.0)
        for r in part:
            t = (r['date_time'] - start).total_seconds()
            dt = t - prev
            prev, T = t, T + dt
            for f in R.FLUX:
                mean[f] += r[f + '_bar'] * dt
                mag[f] += abs(r[f + '_bar']) * dt
        for f in R.FLUX:
            if not close(n[f + '_bar'], mean[f] / T, mag[f] / T):
                return [V('interval_mean', k, field=f,
                          normal=n[f + '_bar'], mean_of_steps=mean[f] / T,
                          steps=len(part))]
        return []


class C17(Prop):
    pid = 'C17'
    quick, thorough = 320, 20000
    rule = ('a case is a season whose pack disappears; from every data '
            'record at which the ground is bare a second model is started '
            'that never had snow, fed the same forcing and compared until '
            'the next pack is well established; non-trivial if the first '
            'run lost a pack and the pair later held snow; distinct by case '
            'content')

    def gen(self, rng, i, tier):
        # a short-lived pack, then weather that may build the next one
        sc = core.gen_scenario(
            rng, 4, snow=rng.choice(['thin', 'thin', 'thin', 'none']), base=1,
            regimes=['snow'])
        n1 = rng.randint(2, 8)
        n2 = rng.randint(4, 9)
        if rng.random() < 0.3:
            # light, yet deep enough for two layers
            sc['cfg']['max_active'] = rng.choice([0.03, 0.05])
            sc['cfg']['ic'].update(z_s=core.r4(rng.uniform(0.07, 0.2)),
                                   rho=core.r4(rng.uniform(60, 120)),
                                   t_s_0=-core.r4(rng.uniform(0, 9)),
                                   t_s=-core.r4(rng.uniform(0, 4)),
                                   h2o_sat=0.0)
            n1 += 3
            if rng.random() < 0.6:
                # steps so coarse that both layers vanish at once
                sc['cfg']['steps'] = list(rng.choice(Phys.COARSE))
                sc['cfg']['thr'] = [60, 10, 1]
                sc['cfg']['family'] = 'coarse'
        step = sc['cfg']['steps'][0]
        hot = rng.choice([['heat'], ['heat', 'melt'], ['melt', 'rain'],
                          ['heat', 'clear'], ['rain', 'heat']])
        wx = core.gen_weather(rng, 2, step, 0,
                              regimes=['snow', 'warmsnow', 'cold', 'clear'])
        for r in wx:
            r[6] = min(r[6], 3.0)
        wx += core.gen_weather(rng, n1, step, rng.choice([2, 6]),
                               regimes=hot)
        wx += core.gen_weather(rng, n2, step, rng.choice([-4, -1, 0]),
                               regimes=['snow', 'warmsnow', 'mixed', 'cold',
                                        'clear', 'rain', 'humid'])
        if rng.random() < 0.7:
            # enough snow at once for a pack above the coarsest threshold
            i0 = rng.randrange(2 + n1, len(wx))
            wx[i0][6] = core.r4(sc['cfg']['thr'][0] * rng.uniform(1.1, 2))
            wx[i0][7], wx[i0][8], wx[i0][9] = 1.0, 120.0, \
                rng.choice([-6.0, -3.0, -0.5, 0.3])
        sc['wx'] = wx
        core.lift_sensors(sc['cfg'], wx)
        return {'sc': sc, 'faults': gen_faults(rng, len(wx) - 1, 0.3)}

    def run(self, case):
        res = Result()
        sc = case['sc']
        nd, err = play(sc, case['faults'], res=res)
        recs = nd.records()
        res.steps = len(recs)
        res.simsec = nd.i * 60.0 * sc['cfg']['steps'][0]
        if err is not None:
            res.cov['first run aborted'] += 1
        start = start_of(sc)
        T = 60.0 * sc['cfg']['steps'][0]
        at = {}
        for j, r in enumerate(recs):
            at[(r['date_time'] - start).total_seconds()] = j
        # records on bare ground carry no snow quantity
        for j, r in enumerate(recs):
            if r['layer_count'] == 0:
                for f in ('m_s', 'm_s_0', 'm_s_l', 'z_s', 'z_s_0', 'z_s_l',
                          'rho', 'h2o', 'h2o_max', 'cc_s', 'cc_s_0',
                          'cc_s_l'):
                    if f in r and r[f] != 0:
                        res.viol.append(V('bare_row_reports_snow', j,
                                          field=f, value=r[f]))
                        return res
        lost = False
        done = 0
        prev_bare = sc['cfg']['ic']['z_s'] == 0
        for k in range(1, nd.i):
            j = at.get(k * T)
            if j is None:
                continue
            bare = recs[j]['layer_count'] == 0
            had = any(r['layer_count'] for r in recs[:j])
            if bare and (had or sc['cfg']['ic']['z_s'] > 0) \
                    and not prev_bare:
                lost = True
                self.pair(sc, k, recs[j + 1:], err, res)
                done += 1
                if res.viol or done >= 3:
                    break
            prev_bare = bare
        res.cov['packs lost'] += done
        return res

    def pair(self, sc, k, tail, err, res):
        """fresh run from record k on; compare with the tail of the first"""
        import datetime
        s2 = copy.deepcopy(sc)
        s2['wx'] = s2['wx'][k:]
        t0 = datetime.datetime.strptime(sc['cfg']['start'], '%Y-%m-%d %H:%M')
        t0 += datetime.timedelta(minutes=sc['cfg']['steps'][0] * k)
        s2['cfg']['start'] = t0.strftime('%Y-%m-%d %H:%M')
        s2['cfg']['ic'].update(z_s=0.0, rho=0.0, t_s_0=0.0, t_s=0.0,
                               h2o_sat=0.0)
        if len(s2['wx']) < 3:
            return
        nd, e2 = play(s2, (), res=res)
        other = nd.records()
        res.steps += len(other)
        res.simsec += nd.i * 60.0 * sc['cfg']['steps'][0]
        snow, whole = 0, True
        for m, (x, y) in enumerate(zip(tail, other)):
            d = differs(x, y)
            if d and self.excused(s2, m, d, x, other, res):
                whole = False
                break
            if d:
                res.viol.append(V('remembers_lost_pack', m, after_record=k,
                                  field=d[0], with_history=d[1],
                                  fresh=d[2]))
                return
            if x['layer_count']:
                snow += 1
                res.nontrivial = True
        res.cov['rows compared'] += min(len(tail), len(other))
        res.cov['rows compared with new snow'] += snow
        res.states.add((len(other), snow, sc['cfg']['family']))
        if whole and len(tail) != len(other):
            res.viol.append(V('remembers_lost_pack', -1, field='rows',
                              with_history=len(tail), fresh=len(other),
                              after_record=k))


    def excused(self, s2, m, d, x, other, res):
        """is the difference only rounding, amplified by the equations?

        The exchange iteration starts from its last solution, so two runs
        agree to its tolerance only.  Fresh runs with the air temperature
        nudged by a millionth show how far such a difference can grow."""
        for sub in walk.walk_all(s2, other[:m + 1], start_of(s2), True):
            if sub.o is not None and not sub.o.conv:
                res.cov['pair left: exchange not converged'] += 1
                return True
        env = 0.0
        for eps in (1e-5, -1e-5, 1e-4, -1e-4):
            s3 = copy.deepcopy(s2)
            for r in s3['wx']:
                r[2] += eps
                r[1] += 10 * eps
            nd, e = play(s3, ())
            rs = nd.records()
            if len(rs) <= m:
                env = 1e9
                break
            for q in range(m + 1):
                e = differs(rs[q], other[q])
                if e and (e[0] in ('date_time', 'layer_count')):
                    env = 1e9
                elif q == m and d[0] in x and d[0] != 'date_time':
                    env = max(env, abs(rs[m][d[0]] - other[m][d[0]]))
        if d[0] in ('date_time', 'layer_count'):
            ok = env >= 1e9
        else:
            ok = abs(d[1] - d[2]) <= 10 * env
        if ok:
            res.cov['pair left: numerically sensitive'] += 1
        return ok


def differs(x, y):
    if x['date_time'] != y['date_time']:
        return 'date_time', str(x['date_time']), str(y['date_time'])
    if x['layer_count'] != y['layer_count']:
        return 'layer_count', x['layer_count'], y['layer_count']
    scale = sum(abs(x[f + '_bar']) for f in R.FLUX)
    for f in sorted(x):
        if f == 'date_time':
            continue
        a, b = x[f], y[f]
        if a != a and b != b:
            continue
        tol = 1e-5 * (abs(a) + abs(b)) + 1e-9
        if f.endswith('_bar'):
            tol = 2e-3 + 2e-5 * scale
        elif f.startswith('cc'):
            tol += 20.0
        elif f.startswith('t_s'):
            tol += 1e-3
        else:
            tol += 1e-4
        if not abs(a - b) <= tol:
            return f, a, b
    return None
