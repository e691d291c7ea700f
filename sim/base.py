"""Shared machinery of the property modules."""
import collections
import copy

import core
import oracle
import refmodel as R
import walk


class Result(object):
    def __init__(self):
        self.viol = []
        self.cov = collections.Counter()     # what was exercised
        self.faults = collections.Counter()  # faults that really fired
        self.states = set()                  # abstract states reached
        self.scheds = set()                  # distinct schedules executed
        self.simsec = 0.0
        self.steps = 0
        self.nontrivial = False
        self.note = ''


def gen_faults(rng, n, rate=0.35, kinds=('crash', 'reject', 'clone', 'pickle')):
    """fault schedule of one node: [interval, kind, position, rewind]"""
    out = []
    if rng.random() < rate:
        for _ in range(rng.randint(1, 2)):
            out.append([rng.randrange(n), rng.choice(kinds),
                        core.r4(rng.random()), rng.randint(0, 3)])
    return sorted(out)


def poison(inp, how):
    """an impossible record, as a broken sensor would deliver it"""
    bad = copy.deepcopy(inp)
    if how % 2 == 0:
        bad.e_a = -50.0
    else:
        bad.t_a = -10.0
    return bad


def play(sc, faults=(), mode=None, node=None, res=None, after=None):
    """Run one node to the end under its fault schedule.

    Returns (node, error).  error is the exception the model raised on real
    forcing (never one the simulator injected)."""
    res = res or Result()
    nd = node or core.Node(sc, mode)
    todo = [f for f in faults if f[0] < nd.n]
    need = set(max(0, f[0] - f[3]) for f in todo)
    ck = {}
    sched = []
    while not nd.done():
        if nd.i in need and nd.i not in ck:
            ck[nd.i] = nd.checkpoint()
        hit = [f for f in todo if f[0] == nd.i]
        if hit:
            f = hit[0]
            todo.remove(f)
            back = max(0, f[0] - f[3])
            sched.append((f[0], f[1], back))
            if f[1] == 'crash':
                try:
                    where = core.crash_step(nd, f[2])
                except Exception as e:
                    return nd, e
                if where:
                    res.faults['process killed mid-interval'] += 1
                    res.scheds.add('crash@%s' % where)
                    nd.restore(ck[back])
                    need.update(max(0, g[0] - g[3]) for g in todo)
                continue
            if f[1] == 'reject':
                keep = nd.inputs[nd.i + 1]
                nd.inputs[nd.i + 1] = poison(keep, int(f[2] * 100))
                try:
                    nd.step()
                except Exception:
                    res.faults['impossible record rejected'] += 1
                else:
                    res.faults['impossible record swallowed'] += 1
                nd.inputs[min(nd.i + 1, nd.n)] = keep
                nd.restore(ck[back])
                continue
            if f[1] == 'clone':
                # a forked what-if run must not disturb this one
                other = copy.deepcopy(nd)
                res.faults['model forked, fork run on'] += 1
                try:
                    other.step()
                    if not other.done():
                        other.step()
                except Exception:
                    pass
                continue
            if f[1] == 'pickle':
                nd.restore(nd.checkpoint())
                res.faults['restart from checkpoint'] += 1
                continue
        try:
            nd.step()
        except Exception as e:
            return nd, e
        if after:
            after(nd)
    if sched:
        res.scheds.add(repr(sched))
    return nd, None


def start_of(sc):
    return core.boot()['pd'].Timestamp(sc['cfg']['start'], tz=sc['cfg']['tz'])


def shrink_sc(case, key='sc'):
    """smaller scenarios: fewer records, fewer faults, simpler values"""
    sc = case[key]
    wx = sc['wx']
    n = len(wx)

    def with_wx(w, **kw):
        c = copy.deepcopy(case)
        c[key]['wx'] = copy.deepcopy(w)
        c.update(kw)
        return c

    # drop faults
    fs = case.get('faults') or []
    for i in range(len(fs)):
        c = copy.deepcopy(case)
        del c['faults'][i]
        yield c
    # truncate the tail, then the head
    for m in (n // 2, (3 * n) // 4, n - 1):
        if 3 <= m < n:
            yield with_wx(wx[:m])
    for m in (n // 2, n // 4, 1):
        if 0 < m and n - m >= 3:
            yield with_wx(wx[m:])
    # drop inner chunks
    size = n // 3
    while size >= 1:
        for a in range(1, n - size, size):
            if n - size >= 3:
                yield with_wx(wx[:a] + wx[a + size:])
        size //= 2
    # quieten columns
    for col, val in ((6, 0.0), (0, 0.0), (4, 2.0), (5, 0.0)):
        if any(r[col] != val for r in wx):
            yield with_wx([r[:col] + [val] + r[col + 1:] for r in wx])


class Prop(object):
    pid = None
    quick = 160
    thorough = 4000
    seconds = 'hourly-to-minute simulated time'
    rule = ''
    real = ('the whole package under test, imported unmodified: pysnobal.'
            'pysnobal driver, point.Snobal, InputData/InputDeltas, SnowState,'
            ' core functions; real pandas/numpy/inicheck')
    stub = ('none of the package; simulator-owned: weather/sensor feed, '
            'interval pump, process death')
    assumptions = ()

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def shrink(self, case):
        return shrink_sc(case)


class Phys(Prop):
    """invariants over a simulated season with injected faults"""
    n_records = (8, 26)
    fault_rate = 0.3
    normal_share = 0.25      # share of cases observed once per interval
    want_ref = True
    gen_kw = {}
    COARSE = [(60, 60, 60), (180, 60, 30), (60, 30, 15)]

    def gen(self, rng, i, tier):
        n = rng.randint(*self.n_records)
        sc = core.gen_scenario(rng, n, **self.gen_kw)
        if rng.random() < 0.12:
            # steps too coarse to resolve melt-out
            sc = core.gen_scenario(
                rng, rng.randint(6, 20), snow='thin', base=3,
                regimes=['heat', 'melt', 'snow', 'rain'])
            n = len(sc['wx'])
            cfg = sc['cfg']
            cfg['steps'] = list(rng.choice(self.COARSE))
            cfg['thr'] = [60, 10, 1]
            cfg['family'] = 'coarse'
        elif rng.random() < 0.07:
            n = rng.randint(6, 16)
            sc = core.gen_skim(rng, n)
        if rng.random() < self.normal_share:
            sc['cfg']['mode'] = 'normal'
        return {'sc': sc, 'faults': gen_faults(rng, n - 1, self.fault_rate)}

    def on_sub(self, sub, p, res):
        return []

    def on_rec(self, k, prev, rec, rows, p, res):
        return []

    def on_end(self, case, nd, err, recs, res):
        return []

    def run(self, case):
        res = Result()
        sc = case['sc']
        nd, err = play(sc, case['faults'], res=res)
        rs = nd.records()
        res.steps = len(rs)
        res.simsec = nd.i * 60.0 * sc['cfg']['steps'][0]
        p = core.ref_params(sc['cfg'])
        start = start_of(sc)
        res.cov['family ' + sc['cfg']['family']] += 1
        self.sc = sc
        self.case = case
        self.fine = None
        if sc['cfg']['mode'] == 'all':
            try:
                for sub in walk.walk_all(sc, rs, start, self.want_ref):
                    res.states.add(oracle.abstract(sub))
                    self.probe(sub, res)
                    v = self.on_sub(sub, p, res)
                    if v:
                        res.viol += v
                        if len(res.viol) > 20:
                            break
            except walk.Broken as e:
                res.cov['history not walkable'] += 1
                res.viol += self.broken(str(e))
        else:
            rows = core.kelvin_rows(sc)
            prev = walk.first_record(sc, start)
            for k, rec in enumerate(rs):
                if k + 1 >= len(rows):
                    res.viol += self.broken('more records than intervals')
                    break
                v = self.on_rec(k, prev, rec, rows, p, res)
                res.states.add('N%d%d' % (rec['layer_count'],
                                          rec['h2o'] > 0))
                if v:
                    res.viol += v
                    if len(res.viol) > 20:
                        break
                prev = rec
        res.viol += self.on_end(case, nd, err, rs, res)
        res.nontrivial = any(r['layer_count'] > 0 for r in rs)
        return res

    def broken(self, what):
        return []

    def probe(self, sub, res):
        c = res.cov
        c['sub-step level %d' % sub.lvl] += 1
        if sub.o is not None:
            if not sub.o.conv:
                c['exchange iteration not converged'] += 1
            if not sub.o.resolved:
                c['melt not resolved by the step'] += 1
            for e in sub.ref.ev:
                c['event ' + (e if isinstance(e, str) else 'pack ' + e[0])] += 1
            if sub.o.refrozen:
                c['refreezing'] += 1
            if sub.o.swi and sub.prev['layer_count']:
                c['runoff from snow'] += 1
            if sub.prev['m_s'] >= 2000:
                c['SWE above 2000'] += 1
            if sub.prev['rho'] >= 550:
                c['density above 550'] += 1
        else:
            c['reference refuses the step'] += 1
