"""C06 timeline, C09 re-runs, C10 output durability, C11 input integrity,
C12 impossible forcing, C15 configuration: whole-program runs on a simulated
disk, killed and failed at seeded points."""
import copy
import datetime
import os
import warnings

import core
import oracle
import refmodel as R
import sysrun
import walk
from base import Prop, Result, play, shrink_sc, start_of
from oracle import V
from sysrun import content, invoke

REAL = ('the whole package under test, imported unmodified, driven through '
        'configuration and forcing files; real pandas, numpy, inicheck and '
        'the interpreter\'s own file buffering')
STUB = ('the disk below the buffering layer (split, failing, full, killed '
        'I/O); process death; the sensor feed that wrote the forcing file')


class Sys(Prop):
    real, stub = REAL, STUB

    def account(self, res, sc, o):
        for k in o.fs.fired:
            res.faults[k] += 1
        if o.fs.harmless:
            res.faults['runs with split reads/writes'] += 1
        n = len(sc['wx'])
        m = getattr(o.model, 'snobal', None)
        k = len(m.output_list) if m is not None else 0
        res.steps += k
        res.simsec += 60.0 * sc['cfg']['steps'][0] * max(0, n - 1) \
            if o.ok else 0

    def clean(self, sc, d, res, **kw):
        """fault-free run in directory d; (bytes, records, outcome)"""
        ini, csv, out = core.stage(sc, d, **kw)
        o = invoke(ini)
        self.account(res, sc, o)
        return o, out


def small_sc(rng, lo=4, hi=12, **kw):
    if 'snow' not in kw:       # mostly packs that need few sub-steps
        kw['snow'] = rng.choice(['none', 'thin', 'mid', 'deep', 'deep',
                                 'huge', 'dense', 'dense'])
    sc = core.gen_scenario(rng, rng.randint(lo, hi), **kw)
    sc['cfg']['format'] = rng.random() < 0.4
    sc['cfg']['mode'] = rng.choice(['all', 'normal', 'normal'])
    return sc


def short_mode(sc, rng):
    """keep 'all' histories short where a whole file is written often"""
    if sc['cfg']['mode'] == 'all':
        sc['wx'] = sc['wx'][:6]


def gen_old(rng):
    """what lies at the output path before the run"""
    r = rng.random()
    if r < 0.35:
        return None
    if r < 0.6:
        return ['short', rng.randint(0, 60)]
    return ['long', rng.randint(20000, 60000)]


def old_bytes(old):
    if old is None:
        return None
    kind, n = old
    base = b'date_time,R_n,OLD\n'
    line = b'1970-01-01 00:00:00+00:00,-9999.0,-9999.0\n'
    return (base + line * (n // len(line) + 1))[:n]


# ---------------------------------------------------------------------- C10
class C10(Sys):
    pid = 'C10'
    quick, thorough = 300, 30000
    rule = ('a case is one program run with an older file at the output path '
            'and one disk fault or kill at a seeded byte of the output (or a '
            'fault-free run); non-trivial if snow was simulated; distinct by '
            'case content')

    def gen(self, rng, i, tier):
        sc = small_sc(rng, 3, 14)
        short_mode(sc, rng)
        plan = {}
        if rng.random() < 0.5:
            plan['chunk'] = rng.choice([1, 7, 100, 511, 4096])
        if rng.random() < 0.5:
            plan['buffer'] = rng.choice([16, 64, 1000, 8192, 65536])
        kind = rng.choice(['none', 'none', 'enospc', 'eio', 'crash', 'close',
                           'open_eacces', 'open_eio', 'open_crash',
                           'read_eio', 'bad_record'])
        if kind in ('enospc', 'eio', 'crash'):
            plan['target'] = 'out.csv' if rng.random() < 0.5 else 'out'
            plan['write'] = {'kind': kind, 'at': None}
        elif kind in ('close', 'open_eacces', 'open_eio', 'open_crash'):
            plan['target'] = 'out'
            plan['write'] = {'kind': kind}
        return {'sc': sc, 'plan': plan, 'kind': kind, 'old': gen_old(rng),
                'at': core.r4(rng.random()), 'faults': []}

    def shrink(self, case):
        for k in ('chunk', 'buffer'):
            if k in case['plan']:
                c = copy.deepcopy(case)
                del c['plan'][k]
                yield c
        if case['old']:
            c = copy.deepcopy(case)
            c['old'] = None
            yield c
        for c in shrink_sc(case):
            yield c

    def run(self, case):
        res = Result()
        sc = case['sc']
        d = core.scratch()
        try:
            self.body(case, sc, d, res)
        finally:
            core.drop(d)
        return res

    def body(self, case, sc, d, res):
        nd = core.Node(sc)
        try:
            nd.run()
        except Exception:
            res.cov['model gave up on this forcing'] += 1
            return
        recs = nd.records()
        res.nontrivial = any(r['layer_count'] for r in recs)
        fmt = sc['cfg']['format']
        out = res.viol
        # fault-free reference of the bytes
        o, path = self.clean(sc, os.path.join(mk(d, 'clean')), res)
        if not o.ok:
            out.append(V('clean_run_fails', -1, error=repr(o.err)[:200]))
            return
        good = content(path)
        v = sysrun.check_file(good, recs, fmt)
        if v:
            out.append(v)
            return
        res.cov['format %s' % fmt] += 1
        res.cov['fault ' + case['kind']] += 1
        # the run under test
        e = mk(d, 'run')
        sc2 = sc
        if case['kind'] == 'bad_record':
            sc2 = copy.deepcopy(sc)
            k = min(len(sc['wx']) - 1, 1 + int(case['at'] * len(sc['wx'])))
            # a phase without a density: refused whatever lies on the ground
            sc2['wx'][k][6:10] = [1.0, 1.0, 0.0, -1.0]
        ini, csv, path = core.stage(sc2, e)
        old = old_bytes(case['old'])
        if old is not None:
            core.put(path, old)
        plan = copy.deepcopy(case['plan'])
        if plan.get('write') and 'at' in plan['write']:
            plan['write']['at'] = int(case['at'] * len(good))
        if case['kind'] == 'read_eio':
            plan['target'] = 'in.csv'
            plan['read'] = {'kind': 'eio', 'at': int(
                case['at'] * os.path.getsize(csv))}
        before = set(os.listdir(e))
        o = invoke(ini, plan)
        self.account(res, sc2, o)
        now = content(path)
        fired = list(o.fs.fired)
        res.scheds.add('%s@%s' % (case['kind'], int(case['at'] * 50)))
        res.states.add((case['kind'], case['old'] and case['old'][0], fmt,
                        plan.get('chunk'), plan.get('buffer'), o.ok))
        what = {'fault': case['kind'], 'plan': plan, 'error': repr(o.err)[:120]}
        if case['kind'] == 'none':
            if not o.ok:
                out.append(V('healthy_disk_run_fails', -1, **what))
            elif now != good:
                out.append(V('output_differs', -1, size=len(now or b''),
                             expected=len(good), old=case['old'], **what))
            elif set(os.listdir(e)) - before - {os.path.basename(path)}:
                out.append(V('stray_files', -1, files=sorted(
                    os.listdir(e)), **what))
            return
        if case['kind'] in ('bad_record', 'read_eio'):
            if o.ok and case['kind'] == 'read_eio' and not fired:
                return
            if o.ok:
                out.append(V('failed_run_reports_success', -1, **what))
            elif now != old:
                out.append(V('failed_run_touched_output', -1,
                             size=len(now or b''), old=case['old'], **what))
            return
        if o.ok:
            if fired:
                out.append(V('write_error_swallowed', -1, fired=fired,
                             size=len(now or b''), expected=len(good),
                             **what))
            elif now != good:
                out.append(V('output_differs', -1, **what))
            return
        if not fired:
            out.append(V('healthy_disk_run_fails', -1, **what))
            return
        # failed or killed while writing: old content, or a clean prefix of
        # the new; never a mixture
        if now == old or now is None and old is None:
            return
        if now is not None and good.startswith(now):
            res.cov['left a prefix' if len(now) < len(good)
                    else 'left the whole file'] += 1
            return
        out.append(V('mixed_output_after_failure', -1, size=len(now or b''),
                     expected=len(good), old=case['old'], fired=fired,
                     **what))


def mk(d, name):
    p = os.path.join(d, name)
    os.makedirs(p)
    return p


# ---------------------------------------------------------------------- C06
ZONES = ['UTC', 'MST', 'US/Mountain', 'America/Los_Angeles', 'Europe/Berlin',
         'Asia/Kolkata', 'Australia/Lord_Howe', 'Asia/Tokyo']
# wall times shortly before a spring-forward change in that zone
SPRING = {'US/Mountain': '1996-04-06 %H:30', 'Europe/Berlin': '2019-03-30 %H:00',
          'America/Los_Angeles': '2006-04-01 %H:00',
          'Australia/Lord_Howe': '2015-10-03 %H:00'}
FALL = {'US/Mountain': '1996-10-26 %H:00', 'Europe/Berlin': '2019-10-26 %H:00'}


def instants(tz, start, step_min, lo, hi):
    """wall-clock stamps of records lo..hi-1 relative to the start record"""
    import pytz
    z = pytz.timezone(tz)
    t0 = z.localize(datetime.datetime.strptime(start, '%Y-%m-%d %H:%M'))
    u0 = t0.astimezone(pytz.utc)
    return [(u0 + datetime.timedelta(minutes=step_min * i)).astimezone(z)
            for i in range(lo, hi)]


# a new year, month, day, week, water year, leap day, century, epoch second
TURNS = ['2020-01-01 00:00', '2000-01-01 00:00', '2001-03-01 00:00',
         '2004-02-29 00:00', '2004-03-01 00:00', '1995-10-01 00:00',
         '2015-06-07 00:00', '2038-01-19 03:14', '1970-01-01 00:00',
         '2011-01-10 12:00']


class C06(Sys):
    pid = 'C06'
    quick, thorough = 260, 20000
    rule = ('a case is a forcing file with records before, inside and after '
            'the configured period, in a seeded zone and season (some across '
            'a daylight-saving change), run as is, with the future '
            'scrambled, with a longer period and at another time; '
            'non-trivial if at least three rows were written; distinct by '
            'case content')

    def gen(self, rng, i, tier):
        sc = small_sc(rng, 8, 18)
        if sc['cfg']['mode'] == 'all' and rng.random() < 0.6:
            sc['cfg']['mode'] = 'normal'
        n = len(sc['wx'])
        a = rng.choice([0, 0, 1, 3])
        b = rng.randint(a + 2, n - 2)
        tz = rng.choice(ZONES)
        start = sc['cfg']['start']
        r = rng.random()
        if r < 0.3:
            tz = rng.choice(sorted(SPRING))
            start = SPRING[tz].replace('%H', '%02d' % rng.choice(
                [12, 18, 20, 22, 23]))
        elif r < 0.36:
            tz = rng.choice(sorted(FALL))
            start = FALL[tz].replace('%H', '%02d' % rng.choice([18, 22]))
        sc['cfg']['tz'] = tz
        sc['cfg']['start'] = start
        odd = None
        if rng.random() < 0.16:
            odd = rng.choice(['gap', 'gap', 'fine', 'late', 'stops', 'stops',
                              'twice'])
        return {'sc': sc, 'a': a, 'b': b, 'odd': odd, 'faults': [],
                'cut': core.r4(rng.random()), 'wseed': rng.randrange(10 ** 6),
                'shift': rng.choice([1, 7, 30, 365, 1000]),
                'tz2': rng.choice(['UTC', 'MST', 'Asia/Tokyo'])}

    def shrink(self, case):
        for m in ('normal',):
            if case['sc']['cfg']['mode'] != m:
                c = copy.deepcopy(case)
                c['sc']['cfg']['mode'] = m
                yield c
        if case['a']:
            c = copy.deepcopy(case)
            c['a'] = 0
            yield c
        if case['b'] > case['a'] + 2:
            c = copy.deepcopy(case)
            c['b'] -= 1
            yield c

    def file_run(self, d, name, sc, res, stamps, a_stamp, b_stamp, wx=None):
        e = mk(d, name)
        cfg = dict(sc['cfg'])
        ini, csv, out = (os.path.join(e, x)
                         for x in ('c.ini', 'in.csv', 'out.csv'))
        core.put(csv, sysrun.forcing_text([sysrun.wall(t) for t in stamps],
                                          wx or sc['wx']))
        cfg['start'] = a_stamp.strftime('%Y-%m-%d %H:%M')
        core.put(ini, core.ini_text(cfg, csv, out, b_stamp.strftime(
            '%Y-%m-%d %H:%M')))
        o = invoke(ini)
        self.account(res, sc, o)
        return o, content(out)

    def run(self, case):
        res = Result()
        d = core.scratch()
        try:
            self.body(case, d, res)
        finally:
            core.drop(d)
        return res

    def body(self, case, d, res):
        import pytz
        out = res.viol
        sc, a, b = case['sc'], case['a'], case['b']
        cfg = sc['cfg']
        step = cfg['steps'][0]
        n = len(sc['wx'])
        tz = cfg['tz']
        ts = instants(tz, cfg['start'], step, -a, n - a)
        walls = [sysrun.wall(t) for t in ts]
        ambiguous = len(set(walls)) < len(walls) or any(
            self.ambiguous(t, tz) for t in ts)
        res.cov['zone ' + tz] += 1
        if case['odd']:
            return self.irregular(case, d, res, ts)
        o, data = self.file_run(d, 'base', sc, res, ts, ts[a], ts[b])
        if ambiguous:
            res.cov['wall clock repeats itself'] += 1
            res.faults['clock set back'] += 1
            if not o.ok:
                return
        if len(set(t.utcoffset() for t in ts[a:b + 2])) > 1:
            res.cov['crosses a daylight-saving change'] += 1
            res.faults['clock jump inside the period'] += 1
        if not o.ok:
            if self.physical(sc, a, b):
                out.append(V('valid_period_rejected', -1,
                             error=repr(o.err)[:200]))
            else:
                res.cov['model gave up on this forcing'] += 1
            return
        if ambiguous:
            return
        rows, bad = sysrun.parse(data)
        if bad:
            out.append(V('malformed_output', -1, what=bad))
            return
        rows = sysrun.table(data)
        res.nontrivial = len(rows) >= 3
        end = min(b + 1, n - 1)
        want = [str_stamp(t) for t in ts[a + 1:end + 1]]
        got = [r[0] for r in rows]
        if cfg['mode'] == 'normal':
            if got != want:
                k = next((i for i, (x, y) in enumerate(zip(got, want))
                          if x != y), min(len(got), len(want)))
                out.append(V('row_stamps', k, rows=len(got),
                             expected=len(want), got=got[k:k + 2],
                             want=want[k:k + 2]))
                return
        else:
            miss = [w for w in want if w not in set(got)]
            if miss or got[-1:] != want[-1:]:
                out.append(V('row_stamps', -1, missing=miss[:3],
                             last=got[-1:], want=want[-1:]))
                return
            sec = [abs_seconds(x) for x in got]
            t0 = abs_seconds(str_stamp(ts[a]))
            if any(y <= x for x, y in zip([t0] + sec, sec)):
                out.append(V('rows_not_increasing', -1))
                return
        res.states.add((tz, cfg['mode'], step, a, len(rows)))
        import random
        rng = random.Random(case['wseed'])
        # 1. the future must not matter
        j = a + 1 + int(case['cut'] * (end - a - 1))
        wx = copy.deepcopy(sc['wx'])
        regs = ['snow', 'cold', 'clear', 'melt', 'rain']
        wx[j + 1:] = core.gen_weather(rng, n - j - 1, step, 0, regimes=regs)
        sc2 = copy.deepcopy(sc)
        sc2['wx'] = wx
        o2, d2 = self.file_run(d, 'future', sc2, res, ts, ts[a], ts[b], wx)
        if o2.ok:
            res.cov['future scrambled'] += 1
            res.faults['records after the row replaced'] += 1
            r2 = sysrun.table(d2)
            lim = abs_seconds(str_stamp(ts[j]))
            x = [r for r in rows if abs_seconds(r[0]) <= lim]
            y = [r for r in r2 if abs_seconds(r[0]) <= lim]
            if x != y:
                k = next((i for i, (p, q) in enumerate(zip(x, y))
                          if p != q), min(len(x), len(y)))
                out.append(V('row_depends_on_future', k, records_until=j,
                             row=x[k:k + 1], other=y[k:k + 1]))
                return
        # 2. the past outside the period and a longer period
        sc3 = copy.deepcopy(sc)
        wx = sc3['wx']
        if a:
            wx[:a] = core.gen_weather(rng, a, step, 0, regimes=regs)
        b3 = n - 1 if case['wseed'] % 3 else min(b + 1, n - 1)
        o3, d3 = self.file_run(d, 'longer', sc3, res, ts, ts[a], ts[b3], wx)
        if o3.ok:
            res.cov['period extended'] += 1
            r3 = sysrun.table(d3)
            if r3[:len(rows)] != rows:
                out.append(V('longer_period_changes_rows', -1))
                return
            w3 = str_stamp(ts[n - 1 if b3 == n - 1 else min(b3 + 1, n - 1)])
            if r3[-1][0] != w3:
                out.append(V('row_stamps', len(r3) - 1, got=r3[-1][0],
                             want=w3, period='up to the last record'))
                return
        # 3. another time, another zone
        t0 = datetime.datetime.strptime(cfg['start'], '%Y-%m-%d %H:%M') + \
            datetime.timedelta(days=case['shift'])
        moves = [('shifted', t0)]
        # ... and one with a turn of the calendar within the period
        turn = datetime.datetime.strptime(
            rng.choice(TURNS), '%Y-%m-%d %H:%M') - datetime.timedelta(
                minutes=step * rng.randint(1, b - a) - rng.choice(
                    [0, 0, step // 2]))
        moves.append(('turn', turn))
        for name, t0 in moves:
            sc4 = copy.deepcopy(sc)
            sc4['cfg']['tz'] = case['tz2']
            ts4 = instants(case['tz2'], t0.strftime('%Y-%m-%d %H:%M'), step,
                           -a, n - a)
            o4, d4 = self.file_run(d, name, sc4, res, ts4, ts4[a], ts4[b])
            if not o4.ok or sysrun.numbers(d4) != sysrun.numbers(data):
                out.append(V('time_shift_changes_physics', -1,
                             start=t0.strftime('%Y-%m-%d %H:%M'),
                             error=repr(o4.err)[:120]))
                return
            res.cov['period moved: ' + name] += 1
            res.faults['clock moved by days, zone changed'] += 1

    def ambiguous(self, t, tz):
        import pytz
        try:
            pytz.timezone(tz).localize(t.replace(tzinfo=None), is_dst=None)
        except pytz.InvalidTimeError:
            return True
        return False

    def physical(self, sc, a, b):
        """does the model accept this forcing when driven directly?"""
        s = copy.deepcopy(sc)
        s['wx'] = s['wx'][a:b + 2]
        s['cfg'].update(tz='UTC', start='1995-10-01 00:00')
        try:
            core.Node(s).run()
        except Exception:
            return False
        return True

    def irregular(self, case, d, res, ts):
        """records not one normal step apart: refuse, or keep their times"""
        out = res.viol
        sc, a, b = copy.deepcopy(case['sc']), case['a'], case['b']
        sc['cfg']['mode'] = 'normal'
        n = len(sc['wx'])
        step = sc['cfg']['steps'][0]
        tz = sc['cfg']['tz'] = 'UTC'
        if case['odd'] == 'fine':
            ts = instants(tz, '1995-10-01 00:00', step // 2 or 1, -a, n - a)
        else:
            ts = instants(tz, '1995-10-01 00:00', step, -a, n - a)
        keep = list(range(n))
        if case['odd'] == 'gap':
            keep.remove(a + 1 + int(case['cut'] * (b - a)))
        elif case['odd'] == 'late':
            keep.remove(a)
        elif case['odd'] == 'stops':     # the logger died before end_date
            keep = keep[:a + 1 + int(case['cut'] * (b - a))]
        st = [ts[i] for i in keep]
        wx = [list(sc['wx'][i]) for i in keep]
        if case['odd'] == 'twice':       # two different records of one time
            k = a + int(case['cut'] * (b - a))
            wx.insert(k, list(wx[k]))
            wx[k][2] -= 3.0              # air temperature
            st.insert(k, st[k])
        o, data = self.file_run(d, 'odd', sc, res, st, ts[a], ts[b], wx)
        res.cov['irregular records: ' + case['odd']] += 1
        res.faults['irregular record times'] += 1
        if not o.ok:
            res.cov['irregular records refused'] += 1
            return
        got = [r[0] for r in sysrun.table(data)]
        if case['odd'] == 'twice':
            out.append(V('two_records_of_one_time_accepted', -1,
                         rows=len(got), time=str_stamp(st[k])))
            return
        # the records used: those inside the period plus one data step
        dt = ts[1] - ts[0]
        used = [t for t in st if ts[a] <= t <= ts[b] + dt]
        want = [str_stamp(t) for t in used[1:]]
        if used[-1] < ts[b]:
            out.append(V('period_not_covered', -1, rows=len(got),
                         last=got[-1:], end_date=str_stamp(ts[b])))
            return
        if got == want:
            return
        import pytz
        clock = [str_stamp(ts[a] + datetime.timedelta(minutes=step * (i + 1)))
                 for i in range(len(used) - 1)]
        if got == clock:
            out.append(V('clock_ignores_record_times', -1, odd=case['odd'],
                         got=got[-1], want=want[-1]))
        else:
            out.append(V('row_stamps', -1, odd=case['odd'], got=got[:4],
                         want=want[:4]))


def str_stamp(t):
    o = int(t.utcoffset().total_seconds() // 60)
    return t.strftime('%Y-%m-%d %H:%M:%S') + '%s%02d:%02d' % (
        '-' if o < 0 else '+', abs(o) // 60, abs(o) % 60)


def abs_seconds(txt):
    t = datetime.datetime.strptime(txt[:19], '%Y-%m-%d %H:%M:%S')
    o = txt[19:]
    off = (int(o[1:3]) * 60 + int(o[4:6])) * (-1 if o[0] == '-' else 1)
    return (t - datetime.datetime(1970, 1, 1)).total_seconds() - off * 60


# ---------------------------------------------------------------------- C09
class C09(Sys):
    pid = 'C09'
    quick, thorough = 240, 15000
    rule = ('a case is a program run that is killed at a seeded executed '
            'line, killed or failed while writing, aborted by an impossible '
            'record or simply repeated, then run again on the same object '
            'and on new objects from the same configuration; non-trivial if '
            'snow was simulated; distinct by case content')

    def gen(self, rng, i, tier):
        kind = rng.choice(['line', 'line', 'line', 'write', 'abort', 'twice',
                           'twice', 'interval'])
        sc = small_sc(rng, 4, 9)
        if kind in ('line', 'interval'):
            sc['wx'] = sc['wx'][:5]
            if sc['cfg']['snow'] in ('thin', 'none'):
                sc['wx'] = sc['wx'][:4]
        short_mode(sc, rng)
        return {'sc': sc, 'kind': kind, 'u': core.r4(rng.random()),
                'us': [core.r4(rng.random()) for _ in range(rng.randint(1, 3))],
                'order': rng.choice(['same', 'new', 'same,new', 'new,same',
                                     'same,same', 'new,new,same']),
                'order_seed': rng.choice([0, 0, rng.randrange(1, 10 ** 6)]),
                'plan': rng.choice(['enospc', 'eio', 'close', 'crash',
                                    'open_eacces', 'open_crash']),
                'faults': []}

    def shrink(self, case):
        if ',' in case['order']:
            for o in ('same', 'new'):
                c = copy.deepcopy(case)
                c['order'] = o
                yield c
        for c in shrink_sc(case):
            yield c

    def run(self, case):
        res = Result()
        d = core.scratch()
        try:
            self.body(case, d, res)
        finally:
            core.drop(d)
        return res

    def body(self, case, d, res):
        out = res.viol
        sc, kind = case['sc'], case['kind']
        if kind == 'interval':
            return self.interval(case, res)
        o, path = self.clean(sc, mk(d, 'clean'), res)
        if not o.ok:
            res.cov['model gave up on this forcing'] += 1
            return
        good = content(path)
        res.nontrivial = any(r['layer_count'] for r in o.records())
        res.cov['kind ' + kind] += 1
        e = mk(d, 'run')
        order = list(range(len(sc['wx'])))
        if case.get('order_seed'):
            import random
            random.Random(case['order_seed']).shuffle(order)
            res.cov['rows of the forcing not in order'] += 1
        ini, csv, path = core.stage(sc, e, order=order)
        forcing = content(csv)
        config = content(ini)
        ucfg = core.load_ucfg(ini)
        first = core.boot()['PySnobal']
        with core.quiet():
            model = None
        before = copy.deepcopy(ucfg.cfg)
        # ---- the disturbed first attempts
        disturbed = []
        if kind == 'line':
            total = self.count_lines(case, d)
            at = 1 + int(case['u'] * total)
            tr = core.Tracer(core._die, at)

            def wrap(body):
                with tr:
                    body()
            o = Attempt(ucfg, e, None, None, wrap)
            if o.o.died:
                res.faults['process killed at a line'] += 1
                res.scheds.add('kill@%s' % tr.where)
            model = o.o.model
            disturbed.append(o)
        elif kind == 'write':
            plan = {'target': 'out', 'write': {'kind': case['plan']}}
            if case['plan'] in ('enospc', 'eio', 'crash'):
                plan['write']['at'] = int(case['u'] * len(good))
            o = Attempt(ucfg, e, plan, None, None)
            for k in o.o.fs.fired:
                res.faults[k] += 1
            res.scheds.add('%s@%d' % (case['plan'], int(case['u'] * 20)))
            if o.o.ok and o.o.fs.fired:
                out.append(V('write_error_swallowed', -1, plan=plan))
                return
            model = o.o.model
        elif kind == 'abort':
            sc2 = copy.deepcopy(sc)
            k = min(len(sc['wx']) - 1, 1 + int(case['u'] * len(sc['wx'])))
            sc2['wx'][k][6:10] = [1.0, 1.0, 0.0, -1.0]
            core.put(csv, core.csv_text(sc['cfg'], sc2['wx']))
            o = Attempt(ucfg, e, None, None, None)
            res.faults['impossible record in the file'] += 1
            res.scheds.add('abort@%d' % k)
            if o.o.ok:
                out.append(V('impossible_record_accepted', k))
                return
            # again on the same object: same refusal, still no output
            if o.o.model is not None:
                again = Attempt(ucfg, e, None, o.o.model, None)
                if again.o.ok or repr(again.o.err) != repr(o.o.err):
                    out.append(V('retry_behaves_differently', k,
                                 first=repr(o.o.err)[:120],
                                 second=repr(again.o.err)[:120]))
                    return
            core.put(csv, forcing)
            model = None              # forcing is read by the constructor
        else:
            o = Attempt(ucfg, e, None, None, None)
            if content(path) != good:
                out.append(V('first_run_differs', -1))
                return
            model = o.o.model
        # ---- the repetitions
        for what in case['order'].split(','):
            target = model if what == 'same' else None
            if os.path.lexists(path) and case['u'] < 0.5:
                os.unlink(path)
            r = Attempt(ucfg, e, None, target, None)
            if r.o.model is not None and target is None:
                model = r.o.model
            now = content(path)
            if not r.o.ok:
                out.append(V('retry_fails', -1, on=what, after=kind,
                             error=repr(r.o.err)[:200]))
                return
            if now != good:
                out.append(V('retry_differs', -1, on=what, after=kind,
                             size=len(now or b''), expected=len(good)))
                return
            res.cov['retries'] += 1
        if ucfg.cfg != before:
            bad = [(s, k) for s in before for k in before[s]
                   if ucfg.cfg.get(s, {}).get(k) != before[s][k]]
            out.append(V('configuration_altered', -1, entries=str(bad)[:200]))
        elif content(csv) != forcing or content(ini) != config:
            out.append(V('input_file_altered', -1))
        res.states.add((kind, case['order'], sc['cfg']['mode'],
                        int(case['u'] * 10)))

    def count_lines(self, case, d):
        e = mk(d, 'probe')
        ini, csv, path = core.stage(case['sc'], e)
        ucfg = core.load_ucfg(ini)
        t = core.Tracer(at=-1)

        def wrap(body):
            with t:
                body()
        Attempt(ucfg, e, None, None, wrap)
        return max(t.n, 1)

    def interval(self, case, res):
        """retry of one interval with the caller's own record objects"""
        out = res.viol
        sc = case['sc']
        nd = core.Node(sc)
        ref = core.Node(sc)
        try:
            ref.run()
        except Exception:
            res.cov['model gave up on this forcing'] += 1
            return
        res.nontrivial = True
        res.cov['kind interval'] += 1
        at = {int(u * nd.n): u for u in case['us']}
        kept = [vars_of(x) for x in nd.inputs]
        while not nd.done():
            i = nd.i
            if i in at:
                ck = nd.checkpoint()
                inputs = nd.inputs
                where = core.crash_step(nd, at[i])
                if where:
                    res.faults['interval killed at a line'] += 1
                    res.scheds.add('interval@%s' % where)
                nd.restore(ck)
                nd.inputs = inputs        # the caller still holds these
            nd.step()
        for j, x in enumerate(nd.inputs):
            if vars_of(x) != kept[j]:
                out.append(V('caller_record_altered', j))
                return
        a, b = nd.records(), ref.records()
        if a != b and not same(a, b):
            out.append(V('retry_differs', -1, on='interval', after='kill'))
        res.steps += len(a) + len(b)


class Attempt(object):
    def __init__(self, ucfg, d, plan, model, wrap):
        self.o = invoke(ucfg, plan, d, model, wrap)


def vars_of(x):
    """public values of a forcing record"""
    return [getattr(x, k) for k in core.KEYS] + [x.m_snow, x.m_rain]


def same(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        for k in x:
            if not (x[k] == y[k] or x[k] != x[k] and y[k] != y[k]):
                return False
    return True


# ---------------------------------------------------------------------- C11
class C11(Sys):
    pid = 'C11'
    quick, thorough = 560, 30000
    rule = ('a case is one forcing file delivered shuffled, re-columned, '
            'embedded in other rows, through split reads, torn, unreadable '
            'or with one missing or garbled value; non-trivial if the clean '
            'run held snow; distinct by case content')
    KINDS = ['order', 'columns', 'outside', 'outside', 'chunk', 'crlf',
             'read_eio', 'read_eio', 'open_enoent', 'open_eacces',
             'read_crash', 'torn', 'torn', 'torn', 'nan', 'nan', 'nan',
             'text', 'dropcol', 'dup', 'joined', 'joined', 'surplus',
             'short', 'stamp', 'blank', 'quoted', 'bom', 'replaced', 'replaced']

    def gen(self, rng, i, tier):
        sc = small_sc(rng, 5, 12)
        short_mode(sc, rng)
        return {'sc': sc, 'kind': rng.choice(self.KINDS),
                'u': core.r4(rng.random()), 'v': core.r4(rng.random()),
                'wseed': rng.randrange(10 ** 6), 'faults': []}

    def run(self, case):
        res = Result()
        d = core.scratch()
        try:
            self.body(case, d, res)
        finally:
            core.drop(d)
        return res

    def body(self, case, d, res):
        import random
        rng = random.Random(case['wseed'])
        out = res.viol
        sc, kind = case['sc'], case['kind']
        wx = sc['wx']
        n = len(wx)
        cfg = sc['cfg']
        o, path = self.clean(sc, mk(d, 'clean'), res)
        if not o.ok:
            res.cov['model gave up on this forcing'] += 1
            return
        good = sysrun.table(content(path))
        res.nontrivial = any(r['layer_count'] for r in o.records())
        res.cov['kind ' + kind] += 1
        e = mk(d, 'run')
        ini, csv, path = core.stage(sc, e)
        stamps = [sysrun.wall(t) for t in core.stamps(cfg, n)]
        full = sysrun.forcing_text(stamps, wx)
        plan = {}
        must = 'same'
        text = full
        info = {'kind_of_file': kind}
        if kind == 'order':
            idx = list(range(n))
            rng.shuffle(idx)
            text = sysrun.forcing_text(stamps, wx, order=idx)
        elif kind == 'columns':
            cols = list(range(len(core.COLS)))
            rng.shuffle(cols)
            extra = []
            for j in range(rng.randint(0, 3)):
                # names the program uses inside are the user's to use as well
                name = rng.choice(['extra', 'S_n', 'I_lw', 't_a', 'e_a', 'u',
                                   't_g', 'm_pp', 't_pp', 'index', 'm_snow'])
                if name in [x[1] for x in extra]:
                    continue
                extra.append((rng.randint(0, len(cols)), name,
                              rng.choice([['1.5', '2'], ['a', 'b c'], [''],
                                          ['NaN', '0']])))
            text = sysrun.forcing_text(stamps, wx, cols=cols, extra=extra)
        elif kind == 'outside':
            text = self.outside(rng, cfg, wx, n, res)
        elif kind == 'chunk':
            plan = {'chunk': rng.choice([1, 3, 50, 700])}
            if rng.random() < .5:
                plan['buffer'] = rng.choice([16, 100])
        elif kind == 'crlf':
            text = full.replace('\n', '\r\n')
        elif kind == 'read_eio' or kind == 'read_crash':
            plan = {'target': 'in.csv', 'read': {
                'kind': kind[5:], 'at': int(case['u'] * len(full))}}
            if rng.random() < .5:
                plan['chunk'] = rng.choice([10, 64, 200])
            must = 'fail'
        elif kind.startswith('open_'):
            plan = {'target': 'in.csv', 'read': {'kind': kind}}
            must = 'fail'
        elif kind == 'torn':
            cut = int(case['u'] * len(full))
            if case['v'] < 0.3:
                # near a row end, where a torn number still looks whole
                ends = [i for i, c in enumerate(full) if c == '\n']
                cut = ends[int(case['u'] * len(ends))] - rng.randint(0, 4)
            text = full[:cut]
            info['cut'] = cut
            must = 'prefix'
            res.faults['file torn'] += 1
        elif kind in ('nan', 'text'):
            k = int(case['u'] * n)
            pick = list(range(7))
            if wx[k][6] > 0:
                pick += [7, 9]
                if wx[k][7] > 0:
                    pick += [8, 8]
            c = pick[int(case['v'] * len(pick))]
            bad = rng.choice(['', 'NaN', 'NA', 'inf', '-INF', '1e999']
                             if kind == 'nan' else ['error', '12..5', '--', '1,5'.replace(',', ';'),
                              '0x1F', '<0.1', '#3', '7%', '1 2'])
            w2 = copy.deepcopy(wx)
            w2[k][c] = bad
            text = sysrun.forcing_text(stamps, w2)
            info.update(record=k, column=core.COLS[c], value=bad)
            must = 'fail'
            res.faults['value ' + ('missing' if kind == 'nan' else
                                   'garbled')] += 1
        elif kind == 'dropcol':
            cols = list(range(len(core.COLS)))
            c = int(case['u'] * len(cols))
            cols.remove(c)
            text = sysrun.forcing_text(stamps, wx, cols=cols)
            info['column'] = core.COLS[c]
            must = 'fail'
            res.faults['column missing'] += 1
        elif kind in ('joined', 'surplus', 'short', 'stamp'):
            lines = full.split('\n')
            k = int(case['u'] * n)
            if kind == 'joined':             # a line break was lost
                k = min(k, n - 2)
                lines[k + 1:k + 3] = [lines[k + 1] + lines[k + 2]]
            elif kind == 'surplus':          # stray delimiter and value
                part = lines[k + 1].split(',')
                part.insert(1 + int(case['v'] * len(part)), '0.5')
                lines[k + 1] = ','.join(part)
            elif kind == 'short':            # the writer died in this line
                part = lines[k + 1].split(',')
                lines[k + 1] = ','.join(part[:1 + int(case['v'] * 7)])
            else:
                part = lines[k + 1].split(',')
                part[0] = rng.choice(['garbage', '1983-13-45 00:00:00', '',
                                      '#' + part[0], part[0][:-3] + ':XX'])
                lines[k + 1] = ','.join(part)
            text = '\n'.join(lines)
            must = 'fail'
            info.update(record=k, line=lines[k + 1][:60])
            res.faults['line damaged: ' + kind] += 1
        elif kind == 'blank':
            lines = full.split('\n')
            for _ in range(rng.randint(1, 3)):
                lines.insert(rng.randint(1, len(lines)), '')
            text = '\n'.join(lines)
        elif kind == 'quoted':
            text = '\n'.join(
                ','.join('"%s"' % x if rng.random() < .3 else x
                         for x in ln.split(',')) if ln else ln
                for ln in full.split('\n'))
        elif kind == 'bom':
            text = '\ufeff' + full
        elif kind == 'replaced':
            # another file was there, and was simulated, a moment ago
            w2 = copy.deepcopy(wx)
            for r in w2:
                for c in (0, 1, 2, 5):
                    x = repr(r[c])
                    if rng.random() < .7 and x[-1:].isdigit():
                        x = x[:-1] + str((int(x[-1]) + 3) % 10 or 4)
                        r[c] = type(r[c])(x)
            decoy = sysrun.forcing_text(stamps, w2)
            res.faults['forcing file replaced between runs'] += 1
            if len(decoy) == len(full):
                res.cov['replaced by a file of the same size'] += 1
            core.put(csv, decoy)
            self.account(res, sc, invoke(ini))
        elif kind == 'dup':
            k = int(case['u'] * n)
            lines = full.split('\n')
            w2 = copy.deepcopy(wx[k])
            w2[2] = core.r4(w2[2] - 3.0)
            dup = sysrun.forcing_text([stamps[k]], [w2]).split('\n')[1]
            lines.insert(1 + rng.randint(0, n), dup)
            text = '\n'.join(lines)
            must = 'fail'
            info['record'] = k
            res.faults['record duplicated with other values'] += 1
        core.put(csv, text)
        o = invoke(ini, plan)
        self.account(res, sc, o)
        data = content(path)
        res.states.add((kind, int(case['u'] * 8), int(case['v'] * 4), o.ok))
        res.scheds.add((kind, int(case['u'] * 40)))
        info['error'] = repr(o.err)[:150]
        if must == 'fail':
            if o.ok:
                if plan and not o.fs.fired:
                    return
                out.append(V('bad_forcing_accepted', -1, **info))
            elif data is not None:
                out.append(V('output_from_failed_read', -1, **info))
            return
        if must == 'same':
            if not o.ok:
                out.append(V('good_forcing_refused', -1, **info))
            elif sysrun.table(data) != good:
                t = sysrun.table(data)
                k = next((i for i, (x, y) in enumerate(zip(t, good))
                          if x != y), min(len(t), len(good)))
                out.append(V('forcing_misread', k, rows=len(t),
                             expected=len(good), got=t[k:k + 1],
                             want=good[k:k + 1], **info))
            return
        # torn file
        if not o.ok:
            res.cov['torn file refused'] += 1
            if data is not None:
                out.append(V('output_from_failed_read', -1, **info))
            return
        res.cov['torn file: clean prefix'] += 1
        t = sysrun.table(data)
        whole = text.endswith('\n') or full[len(text):len(text) + 1] == '\n'
        left = text.count('\n') - 1 + (not text.endswith('\n'))
        if left < n - 1:
            # end_date is the last but one record
            out.append(V('torn_forcing_accepted', -1, rows=len(t),
                         expected=len(good), records=left, **info))
            return
        # the last record may hold a torn (shortened) number; only rows of
        # its interval may reflect it
        m = text.count('\n') - (1 if text.endswith('\n') else 0)
        sec0 = abs_seconds(o.records()[0]['date_time'].strftime(
            '%Y-%m-%d %H:%M:%S+00:00')) if False else None
        sure = t
        if not whole:
            T = 60.0 * cfg['steps'][0]
            start = start_of(sc)
            lim = (m - 2) * T
            recs = o.records()
            keep = [r for r in recs
                    if (r['date_time'] - start).total_seconds() <= lim + 1]
            sure = t[:len(keep)]
        if len(t) > len(good) or sure != good[:len(sure)]:
            out.append(V('torn_forcing_used', -1, rows=len(t),
                         expected=len(good), **info))

    def outside(self, rng, cfg, wx, n, res):
        """rows before and after the period: valid, missing, gapped, doubled"""
        t0 = datetime.datetime.strptime(cfg['start'], '%Y-%m-%d %H:%M')
        step = datetime.timedelta(minutes=cfg['steps'][0])
        st = [t0 + step * i for i in range(n)]
        w = copy.deepcopy(wx)
        pre = rng.randint(0, 5)
        post = rng.randint(0, 5)
        before = [t0 - step * (i + 1) for i in range(pre)][::-1]
        if pre and rng.random() < 0.5:
            off = rng.choice([step * 3, datetime.timedelta(days=30), step / 2])
            before = [t - off for t in before]
            res.cov['gap before the period'] += 1
        after = [st[-1] + step * (i + 1) for i in range(post)]
        allst = before + st + after
        rows = [list(r) for r in core.gen_weather(
            rng, pre, cfg['steps'][0], 0, regimes=['snow', 'melt'])]
        rows += w
        rows += [list(r) for r in core.gen_weather(
            rng, post, cfg['steps'][0], 0, regimes=['snow', 'melt'])]
        for i, r in enumerate(rows):
            if (i < pre or i >= pre + n) and rng.random() < 0.3:
                r[rng.randrange(10)] = ''
                res.cov['missing value outside the period'] += 1
        names = [sysrun.wall(t) for t in allst]
        order = list(range(len(rows)))
        if rng.random() < 0.3:
            rng.shuffle(order)
        if pre and rng.random() < 0.15:
            order.append(0)           # a doubled row outside the period
            res.cov['doubled row outside the period'] += 1
        return sysrun.forcing_text(names, rows, order=order)


# ---------------------------------------------------------------------- C12
class C12(Sys):
    pid = 'C12'
    quick, thorough = 560, 30000
    rule = ('a case is a season in which one or more records are made '
            'impossible (no vapour, below absolute zero, buried sensors, '
            'snow without density), or supersaturated throughout in several '
            'strengths, or dead calm; non-trivial if the broken record was '
            'reached; distinct by case content')
    KINDS = ['bad_ea', 'bad_ea', 'bad_ta', 'bad_tg', 'buried', 'buried',
             'no_density', 'super', 'super', 'calm']

    def gen(self, rng, i, tier):
        kind = rng.choice(self.KINDS)
        kw = {}
        if kind == 'calm':
            kw = {'regimes': ['calm']}
        elif kind == 'buried':
            kw = {'regimes': ['bigsnow', 'snow'], 'base': -3}
        elif kind == 'super':
            kw = {'calm': False}
        sc = small_sc(rng, 5, 14, **kw)
        cfg = sc['cfg']
        if kind != 'calm':
            cfg['mode'] = 'normal'
        else:
            cfg['mode'] = 'all'
        if kind == 'buried':
            cfg['relative'] = rng.random() < 0.2
            z = core.depth_bound(cfg, sc['wx'])
            lo = cfg['ic']['z_s']
            key = rng.choice(['z_u', 'z_t'])
            cfg['z_u'] = cfg['z_t'] = float(int(z) + 6)
            cfg[key] = core.r4(max(0.05, lo * 0.4 + rng.uniform(0, 1) *
                                   (z - lo * 0.4)))
            if rng.random() < 0.25:
                # above the snow, but within its roughness
                z0 = cfg['ic']['z_0']
                cfg[key] = z0 * rng.choice([0.3, 0.7, 0.9, 1.0]) if \
                    cfg['relative'] else \
                    lo + z0 * rng.choice([0.2, 0.6, 0.9])
        recs = sorted(set(rng.randrange(len(sc['wx']))
                          for _ in range(rng.choice([1, 1, 1, 2]))))
        val = {'bad_ea': rng.choice([0.0, -1.0, -40.0, -5000.0]),
               'bad_ta': rng.choice([-273.16, -280.0, -400.0]),
               'bad_tg': rng.choice([-273.16, -300.0])}.get(kind, 0.0)
        return {'sc': sc, 'kind': kind, 'recs': recs, 'val': val,
                'fac': [core.r4(rng.uniform(1.02, 6)) for _ in range(14)],
                'old': gen_old(rng), 'faults': [],
                'flake': [rng.choice([0.001, 0.5, 2.0, 15.0]), rng.choice(
                    [1.0, 1.0, 0.999, 0.7, 0.5, 0.3, 0.01]), rng.choice(
                    [0.0, 0.0, -50.0]), rng.choice([-6.0, -0.5, 0.0, 1.5])]}

    def shrink(self, case):
        if len(case['recs']) > 1:
            for k in case['recs']:
                c = copy.deepcopy(case)
                c['recs'] = [k]
                yield c
        if case['old']:
            c = copy.deepcopy(case)
            c['old'] = None
            yield c
        n = len(case['sc']['wx'])
        if n > 3 and max(case['recs']) < n - 1:
            c = copy.deepcopy(case)
            c['sc']['wx'].pop()
            yield c

    def run(self, case):
        res = Result()
        d = core.scratch()
        res.cov['kind ' + case['kind']] += 1
        try:
            if case['kind'] == 'super':
                self.super(case, d, res)
            elif case['kind'] == 'calm':
                self.calm(case, res)
            else:
                self.broken_record(case, d, res)
        finally:
            core.drop(d)
        return res

    def poisoned(self, case):
        sc = copy.deepcopy(case['sc'])
        col = {'bad_ea': 3, 'bad_ta': 2, 'bad_tg': 5}.get(case['kind'])
        for k in case['recs']:
            if k >= len(sc['wx']):
                continue
            if col is not None:
                sc['wx'][k][col] = case['val']
            elif case['kind'] == 'no_density':
                # all snow, or snow and rain mixed in any shares
                sc['wx'][k][6:10] = case.get('flake') or \
                    [2.0, 1.0, [0.0, -50.0][k % 2], -1.0]
        return sc

    def expected(self, sc, recs, rows, p, k, prev):
        """'raise', 'pass' or None (an ulp, an unresolved step or the start
        of the exchange iteration decides)"""
        if k == 0:
            self.warm = (None, None)
        warm, self.warm = self.warm, None
        seen = set()
        for init in ((None, None), warm):
            if init is None:
                continue
            for nudge in (0, 1e-9, -1e-9, 3e-9):
                try:
                    iv = oracle.ref_interval(R.S(prev), p, rows[k],
                                             rows[k + 1], init, nudge)
                except R.Impossible:
                    seen.add('raise')
                    continue
                except (ZeroDivisionError, OverflowError, ValueError):
                    return None
                if not iv['resolved'] or not iv['conv']:
                    return None
                s = iv['s']
                if s.layers and not (150 < s.t_s_0 <= 273.17):
                    return None
                seen.add('pass')
                if not nudge:
                    self.warm = iv['init']
        return seen.pop() if len(seen) == 1 and warm is not None else None

    def broken_record(self, case, d, res):
        out = res.viol
        sc = self.poisoned(case)
        kind = case['kind']
        rows = core.kelvin_rows(sc)
        p = core.ref_params(sc['cfg'])
        start = start_of(sc)
        e = mk(d, 'run')
        ini, csv, path = core.stage(sc, e)
        old = old_bytes(case['old'])
        if old is not None:
            core.put(path, old)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = invoke(ini)
        self.account(res, sc, o)
        got = o.records() if getattr(o.model, 'snobal', None) is not None \
            else []
        now = content(path)
        if kind == 'no_density':
            k = min(case['recs'])
            res.faults['snowfall without density'] += 1
            res.nontrivial = True
            res.scheds.add('%s@%d' % (kind, k))
            if o.ok:
                out.append(V('impossible_record_accepted', k, fault=kind))
            elif now != old:
                out.append(V('failed_run_touched_output', k, fault=kind))
            elif len(got) > max(k, 0):
                out.append(V('rows_after_impossible_record', k,
                             rows=len(got), fault=kind))
            return
        res.faults['record impossible: ' + kind] += 1
        prev = walk.first_record(sc, start)
        n = len(rows) - 1
        stop = None
        for k in range(n):
            want = self.expected(sc, got, rows, p, k, prev)
            have = k < len(got)
            if want is None:
                res.cov['undecided interval'] += 1
            elif want == 'raise' and have:
                out.append(V('impossible_record_accepted', k, fault=kind,
                             value=case['val'],
                             layers=prev['layer_count']))
                return
            elif want == 'pass' and not have:
                out.append(V('possible_record_refused', k, fault=kind,
                             error=repr(o.err)[:200]))
                return
            if not have:
                stop = k
                break
            for f in R.STATE:
                if got[k][f] != got[k][f]:
                    out.append(V('nan_row_reported', k, field=f, fault=kind))
                    return
            prev = got[k]
        res.scheds.add('%s@%s' % (kind, stop))
        res.states.add((kind, stop, bool(old), len(case['recs'])))
        if stop is None:
            res.cov['harmless: no snow at that time'] += 1
            if not o.ok:
                out.append(V('possible_record_refused', -1, fault=kind,
                             error=repr(o.err)[:200]))
            return
        res.nontrivial = True
        res.cov['run stopped'] += 1
        if o.ok:
            out.append(V('failed_run_reports_success', stop, fault=kind))
            return
        if now != old:
            out.append(V('failed_run_touched_output', stop, fault=kind,
                         size=len(now or b'')))
            return
        # records reported before the abort equal an undisturbed run's
        if kind != 'buried':
            first = min(case['recs'])
            cl = copy.deepcopy(case['sc'])
            nd = core.Node(cl)
            try:
                nd.run()
            except Exception:
                return
            good = nd.records()
            m = max(0, min(first - 1, len(got)))
            if not same(got[:m], good[:m]):
                out.append(V('rows_before_abort_differ', m, fault=kind))

    def super(self, case, d, res):
        """air above saturation, in different strengths: one and the same"""
        out = res.viol
        base = copy.deepcopy(case['sc'])
        first = None
        for mode in (0, 1, 2):
            sc = copy.deepcopy(base)
            for j, r in enumerate(sc['wx']):
                f = 1.02 if mode == 0 else case['fac'][0] if mode == 1 \
                    else case['fac'][j % len(case['fac'])]
                # saturation over ice (over water above freezing)
                r[3] = core.es_ice(r[2] + core.TF) * f
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                nd, err = play(sc, case['faults'], res=res)
            rs = nd.records()
            res.steps += len(rs)
            res.simsec += nd.i * 60.0 * sc['cfg']['steps'][0]
            if err is not None:
                res.cov['supersaturated run aborted'] += 1
                try:
                    p = core.ref_params(sc['cfg'])
                    rows = core.kelvin_rows(sc)
                    prev = rs[-1] if rs else walk.first_record(
                        sc, start_of(sc))
                    if self.expected(sc, rs, rows, p, nd.i, prev) == 'pass':
                        out.append(V('supersaturation_aborts', nd.i,
                                     error=repr(err)[:160]))
                except IndexError:
                    pass
                return
            res.faults['supersaturated air'] += 1
            if first is None:
                first = rs
                res.nontrivial = any(r['layer_count'] for r in rs)
                # against the reference, which saturates
                self.against_ref(sc, rs, res)
                if out:
                    return
                continue
            if len(rs) != len(first):
                out.append(V('supersaturation_changes_result', -1))
                return
            for k, (x, y) in enumerate(zip(first, rs)):
                for f in x:
                    if f != 'date_time' and not abs(x[f] - y[f]) <= \
                            1e-9 * (1 + abs(x[f])):
                        out.append(V('supersaturation_changes_result', k,
                                     field=f, slight=x[f], strong=y[f]))
                        return

    def against_ref(self, sc, rs, res):
        from props.physics import C14
        chk = C14()
        p = core.ref_params(sc['cfg'])
        rows = core.kelvin_rows(sc)
        prev = walk.first_record(sc, start_of(sc))
        for k, rec in enumerate(rs):
            v = chk.on_rec(k, prev, rec, rows, p, res)
            if v:
                v[0]['kind'] = 'not_the_result_of_saturation'
                res.viol += v
                return
            prev = rec

    def calm(self, case, res):
        out = res.viol
        sc = case['sc']
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            nd, err = play(sc, (), res=res)
        rs = nd.records()
        res.steps += len(rs)
        res.simsec += nd.i * 60.0 * sc['cfg']['steps'][0]
        told = err is not None or any('converge' in str(w.message)
                                      for w in caught)
        bad = 0
        try:
            for sub in walk.walk_all(sc, rs, start_of(sc), True):
                if sub.o is not None and not sub.o.conv:
                    bad += 1
        except walk.Broken:
            return
        res.cov['exchange not converged (steps)'] += bad
        res.faults['dead calm'] += 1
        if bad:
            res.nontrivial = True
            res.scheds.add('calm%d' % bad)
            if not told:
                out.append(V('silent_nonconvergence', -1, steps=bad))


# ---------------------------------------------------------------------- C15
DEFAULTS = {'z_u': 5.0, 'z_t': 5.0, 'z_g': 0.5, 'relative': False,
            'max_h2o': 0.01, 'max_active': 0.25, 'tz': 'UTC'}


# configurations that do not follow their documentation: key and value
# (None: left out), see pysnobal_core_config.ini
INVALID = {
    'output mode not an option': ('output_mode', 'hourly'),
    'elevation not a number': ('elevation', 'high'),
    'no elevation': ('elevation', None),
    'sensor height not a number': ('z_u', '5m'),
    'density not a number': ('rho', 'dense'),
    'step not whole minutes': ('norm_time_step', '60.5'),
    'no start': ('start_date', None),
    'no end': ('end_date', None),
    'start not a date': ('start_date', 'yesterday noon'),
    'end before start': ('end_date', '1999-01-01 00:00'),
    'no input file': ('input_csv', None),
    'input file missing': ('input_csv', '/nonexistent/forcing.csv'),
    'unknown zone': ('time_zone', 'Mars/Olympus'),
    'relative heights not a flag': ('relative_heights', 'maybe'),
    'no small step': ('small_time_step', '0'),
    'negative small step': ('small_time_step', '-1'),
    'negative medium step': ('medium_time_step', '-15'),
    'negative normal step': ('norm_time_step', '-60'),
}


class C15(Sys):
    pid = 'C15'
    quick, thorough = 420, 30000
    rule = ('a case is a configuration with every option drawn from its '
            'range, run as a program through split file I/O and observed '
            'through its output file, next to the reference model started '
            'from the same text, plus re-statements of the same '
            'configuration; non-trivial if snow was simulated; distinct by '
            'case content')

    def gen(self, rng, i, tier):
        sc = small_sc(rng, 4, 12)
        cfg = sc['cfg']
        cfg['format'] = False
        cfg['mode'] = rng.choice(['all', 'all', 'normal'])
        short = cfg['mode'] == 'all' and cfg['snow'] in ('thin', 'none')
        if short:
            sc['wx'] = sc['wx'][:6]
        if rng.random() < 0.6:
            cfg['elevation'] = core.r4(rng.uniform(-100, 4500))
            cfg['z_g'] = core.r4(rng.uniform(0.05, 1.0))
            cfg['max_h2o'] = core.r4(rng.uniform(0.005, 0.05))
            cfg['max_active'] = core.r4(rng.uniform(0.08, 0.5))
            cfg['z_u'] = core.r4(rng.uniform(2, 20))
            cfg['z_t'] = core.r4(rng.uniform(2, 20))
            cfg['ic']['z_0'] = core.r4(rng.uniform(0.0005, 0.02))
            core.lift_sensors(cfg, sc['wx'])
        else:
            # values at their defaults, so that leaving them out is the same
            for k, v in DEFAULTS.items():
                if rng.random() < 0.6:
                    cfg[k] = v
            core.lift_sensors(cfg, sc['wx'])
        r = rng.random()
        if r < 0.07:
            # thresholds of zero: nothing is refined, or nothing too thin
            n = len(sc['wx'])
            new = core.gen_skim(rng, n, small=0)
            new['cfg'].update({k: cfg[k] for k in ('mode', 'format')})
            sc, cfg = new, new['cfg']
        elif r < 0.11:
            cfg['thr'] = list(cfg['thr'])
            cfg['thr'][rng.choice([0, 1, 1])] = 0
        if rng.random() < 0.06:
            # steps that can not tile the interval
            cfg['steps'] = list(rng.choice(
                [(60, 25, 1), (60, 15, 2), (60, 40, 20), (30, 60, 1),
                 (60, 15, 30), (60, 7, 1), (60, 20, 3), (120, 50, 10)]))
            cfg['family'] = 'uneven'
        bad = None
        if rng.random() < 0.08:
            bad = rng.choice(sorted(INVALID))
            cfg['family'] = 'invalid'
        return {'sc': sc, 'bad': bad, 'again': rng.choice(['path', 'omit', 'omit',
                                               'layout', 'format', 'mixed',
                                               'none']),
                'wseed': rng.randrange(10 ** 6),
                'plan': rng.choice([{}, {'chunk': 13}, {'chunk': 300},
                                    {'buffer': 64}]),
                'faults': []}

    def run(self, case):
        res = Result()
        d = core.scratch()
        try:
            self.body(case, d, res)
        finally:
            core.drop(d)
        return res

    def body(self, case, d, res):
        out = res.viol
        sc = case['sc']
        cfg = sc['cfg']
        ini, csv, path = core.stage(sc, mk(d, 'run'))
        if cfg['family'] == 'invalid':
            self.refused(case, d, res, ini, path)
            return
        o = invoke(ini, case['plan'])
        self.account(res, sc, o)
        if cfg['family'] == 'uneven':
            res.cov['uneven steps'] += 1
            if o.ok or content(path) is not None:
                out.append(V('uneven_steps_accepted', -1, steps=cfg['steps'],
                             rows=len(o.records())))
            return
        if not o.ok:
            if o.err is not None and getattr(o.model, 'snobal', None) is None:
                out.append(V('valid_configuration_refused', -1,
                             error=repr(o.err)[:200]))
            else:
                res.cov['model gave up on this forcing'] += 1
            return
        data = content(path)
        recs = self.merge(o.records(), data, out)
        if out:
            return
        res.nontrivial = any(r['layer_count'] for r in recs)
        res.states.add((cfg['family'], cfg['mode'], cfg['snow'],
                        cfg['relative'], case['again']))
        self.refine(sc, recs, res)
        if out:
            return
        self.again(case, d, res, ini, data)

    def refused(self, case, d, res, ini, path):
        """a configuration that can not be run as documented: the program
        fails, visibly, and what an earlier run has written stays"""
        key, val = INVALID[case['bad']]
        lines = []
        for line in content(ini).decode().split('\n'):
            if line.split(':')[0] == key:
                if val is None:
                    continue
                line = '%s: %s' % (key, val)
            lines.append(line)
        core.put(ini, '\n'.join(lines))
        old = 'date_time,written earlier\n'
        core.put(path, old)
        m = core.boot()
        model = err = None
        with core.quiet():
            try:
                model = m['PySnobal'](ini)
            except (Exception, SystemExit) as e:
                err = e
        if err is None:
            o = invoke(ini, {}, d, model)
            self.account(res, case['sc'], o)
            err = o.err
        res.cov['invalid configuration'] += 1
        res.faults['invalid configuration: ' + case['bad']] += 1
        res.states.add(('invalid', case['bad']))
        if err is None:
            res.viol.append(V('invalid_configuration_accepted', -1,
                              what=case['bad']))
        elif isinstance(err, SystemExit) and err.code in (None, 0):
            res.viol.append(V('invalid_configuration_exits_as_success', -1,
                              what=case['bad']))
        elif content(path) != old.encode():
            res.viol.append(V('refused_run_touched_output', -1,
                              what=case['bad']))

    def merge(self, mem, data, out):
        """records as read back from the file; unpublished fields and the
        time (checked elsewhere) from memory"""
        rows = sysrun.table(data)
        if len(rows) != len(mem):
            out.append(V('rows_lost', -1, rows=len(rows), records=len(mem)))
            return mem
        recs = []
        for row, m in zip(rows, mem):
            r = dict(m)
            for name, x in zip(sysrun.HEAD[1:], row[1:]):
                if x is None:
                    x = float('nan')
                if name.startswith('t_s'):
                    x += core.TF
                r[sysrun.SRC.get(name, name)] = x
            recs.append(r)
        return recs

    def refine(self, sc, recs, res):
        from props.physics import C14
        p = core.ref_params(sc['cfg'])
        if sc['cfg']['mode'] == 'all':
            chk = C14()
            try:
                for sub in walk.walk_all(sc, recs, start_of(sc), True):
                    v = chk.on_sub(sub, p, res)
                    if v:
                        v[0]['kind'] = 'configuration_not_honoured'
                        res.viol += v
                        return
            except walk.Broken as e:
                res.viol.append(V('configuration_not_honoured', -1,
                                  what=str(e)))
        else:
            C12.against_ref(self, sc, recs, res)
            for v in res.viol:
                v['kind'] = 'configuration_not_honoured'

    def again(self, case, d, res, ini, data):
        import random
        rng = random.Random(case['wseed'])
        out = res.viol
        sc, how = case['sc'], case['again']
        if how == 'none':
            return
        cfg = copy.deepcopy(sc['cfg'])
        e = mk(d, 'again')
        if how in ('format', 'mixed'):
            cfg['format'] = True
        ini2, csv2, path2 = core.stage({'cfg': cfg, 'wx': sc['wx']}, e)
        text = content(ini2).decode()
        if how in ('omit', 'mixed'):
            text = self.leave_out(cfg, text, rng, res)
        if how in ('layout', 'mixed'):
            text = self.relayout(text, rng)
        core.put(ini2, text)
        if how == 'path':
            m = core.boot()
            with core.quiet():
                model = m['PySnobal'](ini2)
            o = invoke(ini2, {}, e, model)
        else:
            o = invoke(ini2, {})
        self.account(res, sc, o)
        res.cov['restated: ' + how] += 1
        if not o.ok:
            out.append(V('restated_configuration_refused', -1, how=how,
                         error=repr(o.err)[:160]))
            return
        now = content(path2)
        if cfg['format']:
            v = sysrun.check_file(now, o.records(), True)
            if v:
                v['how'] = how
                out.append(v)
                return
            a, b = sysrun.table(now), sysrun.table(data)
            for k, (x, y) in enumerate(zip(a, b)):
                for name, p, q in zip(sysrun.HEAD[1:], x[1:], y[1:]):
                    if p is None or q is None:
                        bad = p != q
                    elif name.startswith('cc'):
                        bad = abs(p - q) > 1e-9 * abs(q) + 1e-12
                    else:
                        bad = abs(p - q) > 0.5001 * 10 ** -sysrun.DEC[name] \
                            + 1e-9 * abs(q)
                    if bad:
                        out.append(V('format_changes_values', k, column=name,
                                     formatted=p, plain=q))
                        return
            if len(a) != len(b):
                out.append(V('format_changes_values', -1))
        elif now != data:
            out.append(V('restated_configuration_differs', -1, how=how))

    def leave_out(self, cfg, text, rng, res):
        keep = []
        dflt = {'z_u': 'z_u', 'z_t': 'z_T', 'z_g': 'z_g',
                'relative': 'relative_heights', 'max_h2o': 'max_h2o',
                'max_active': 'max_active', 'tz': 'time_zone'}
        gone = [dflt[k] for k, v in DEFAULTS.items() if cfg[k] == v]
        for key, val in (('norm_time_step', 60), ('medium_time_step', 15),
                         ('small_time_step', 1), ('norm_threshold', 60),
                         ('medium_threshold', 10), ('small_threshold', 1)):
            i = ['norm', 'medium', 'small'].index(key.split('_')[0])
            if (cfg['steps'] if 'step' in key else cfg['thr'])[i] == val:
                gone.append(key)
        if cfg['format']:          # documented default: formatted
            gone.append('format_output')
        if cfg['mode'] == 'normal':
            gone.append('output_mode')
        for k, v in cfg['ic'].items():
            if v == (0.005 if k == 'z_0' else 0.0):
                gone.append(k)
        gone = [g for g in gone if rng.random() < 0.8]
        for line in text.split('\n'):
            if line.split(':')[0] in gone:
                res.cov['default left out'] += 1
                continue
            keep.append(line)
        return '\n'.join(keep)

    def relayout(self, text, rng):
        """sections and keys in another order, other case and spacing"""
        secs = []
        for line in text.split('\n'):
            if line.startswith('['):
                secs.append([line])
            elif line.strip():
                secs[-1].append(line)
        rng.shuffle(secs)
        out = []
        for s in secs:
            body = s[1:]
            rng.shuffle(body)
            out.append(s[0].upper() if rng.random() < .3 else s[0])
            for b in body:
                k, v = b.split(':', 1)
                if rng.random() < .3:
                    k = k.upper()
                out.append('%s:%s%s' % (k, ' ' * rng.randint(1, 5), v.strip()))
                if rng.random() < .2:
                    out.append('# a comment')
            out.append('')
        return '\n'.join(out) + '\n'
