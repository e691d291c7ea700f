"""C07 checkpoint/crash/resume across processes, C08 isolation of models
advanced in arbitrary interleavings, down to single statements."""
import builtins
import contextlib
import copy
import io
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import threading

import core
import sysrun
from base import Prop, Result, shrink_sc
from oracle import V
from props.system import same, small_sc


class ChildDied(Exception):
    pass


def in_child(fn, wall=200):
    """run fn() in a forked process; its result, or its exception's text"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException as e:
                out = (False, repr(e)[:300])
            b = pickle.dumps(out, 2)
            while b:
                b = b[os.write(w, b):]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    try:
        while True:
            if not select.select([r], [], [], wall)[0]:
                os.kill(pid, signal.SIGKILL)
                raise ChildDied('timeout')
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf.append(c)
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise ChildDied('no answer')
    return pickle.loads(b''.join(buf))


# ---------------------------------------------------------------------- C07
class C07(Prop):
    pid = 'C07'
    quick, thorough = 100, 20000
    rule = ('a case is a season cut at seeded intervals; each piece runs in '
            'another process from the saved model, after other models ran '
            'there and after kills in mid-interval, and the joined records '
            'are compared bit for bit with the uninterrupted run; '
            'non-trivial if a cut lies in snow; distinct by case content')
    stub = ('none of the package; simulator-owned: sensor feed, interval '
            'pump, process death, the checkpoint store (pickle)')

    def gen(self, rng, i, tier):
        sc = small_sc(rng, 6, 16)
        if sc['cfg']['mode'] == 'all' and sc['cfg']['snow'] in ('thin',
                                                                'none'):
            sc['wx'] = sc['wx'][:8]
        n = len(sc['wx']) - 1
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.randint(1, 3))))
        hops = []
        for c in cuts:
            hops.append({'at': c,
                         'kill': core.r4(rng.random())
                         if rng.random() < 0.25 and n < 9 else None,
                         'noise': rng.choice([None, None, 'same', 'other']),
                         'store': rng.choice(['pickle2', 'pickle4',
                                              'deepcopy', 'mode'])})
        other = small_sc(rng, 3, 5)
        return {'sc': sc, 'hops': hops, 'other': other, 'faults': [],
                'exec': rng.random() < 0.012}

    def shrink(self, case):
        if len(case['hops']) > 1:
            for j in range(len(case['hops'])):
                c = copy.deepcopy(case)
                del c['hops'][j]
                yield c
        for j, h in enumerate(case['hops']):
            for k in ('kill', 'noise'):
                if h[k]:
                    c = copy.deepcopy(case)
                    c['hops'][j][k] = None
                    yield c
        n = len(case['sc']['wx'])
        if n - 2 > max(h['at'] for h in case['hops']):
            c = copy.deepcopy(case)
            c['sc']['wx'].pop()
            yield c

    def run(self, case):
        res = Result()
        sc = case['sc']
        out = res.viol
        ok, whole = in_child(lambda: full_run(sc))
        if not ok:
            res.cov['setup failed'] += 1
            out.append(V('abort_on_valid_input', -1, error=whole))
            return res
        err, want = whole
        res.steps += len(want)
        res.simsec += 60.0 * sc['cfg']['steps'][0] * len(sc['wx'])
        blob = None
        pos = 0
        plan = case['hops'] + [{'at': None, 'kill': None, 'noise': None,
                                'store': 'pickle2'}]
        snow = False
        got = None
        for j, h in enumerate(plan):
            nxt = h['at']
            if nxt is None and case.get('exec'):
                ok, r = self.exec_last(sc, blob)
                res.faults['resumed in a new interpreter'] += 1
            else:
                ok, r = in_child(lambda: piece(sc, blob, nxt, h,
                                               case['other']))
            if not ok:
                out.append(V('resume_fails', pos, error=r, hop=j))
                return res
            kind, a, b, fired = r
            for f in fired:
                res.faults[f.split('@')[0]] += 1
                if '@' in f:
                    res.scheds.add(f)
            if kind == 'raised':
                if err is None:
                    out.append(V('resume_aborts', pos, error=a, hop=j))
                elif not same(b, want):
                    out.append(V('resumed_rows_differ', pos,
                                 **first_diff(b, want)))
                else:
                    res.cov['both aborted alike'] += 1
                return res
            if kind == 'done':
                got = b
                break
            blob, pos = a, nxt
            res.faults['process left, model restored elsewhere'] += 1
            snow = snow or (b and b[-1]['layer_count'] > 0)
        res.nontrivial = bool(snow)
        res.scheds.add('cuts%r' % [h['at'] for h in case['hops']])
        res.states.add((sc['cfg']['family'], sc['cfg']['mode'],
                        sc['cfg']['snow'], len(plan)))
        if err is not None:
            out.append(V('resumed_run_missed_the_abort', -1,
                         error=str(err)[:100]))
        elif not same(got, want):
            out.append(V('resumed_rows_differ', pos, **first_diff(got, want)))
        return res

    def exec_last(self, sc, blob):
        import json
        d = core.scratch()
        try:
            a, b, c = (os.path.join(d, x) for x in ('sc', 'blob', 'out'))
            core.put(a, json.dumps(sc))
            core.put(b, blob)
            code = ('import sys; sys.path.insert(0, %r); import core; '
                    'core.boot(); from props import concurrent; '
                    'concurrent.exec_main(*sys.argv[1:])' % os.path.dirname(
                        os.path.dirname(os.path.abspath(__file__))))
            p = subprocess.run([sys.executable, '-B', '-c', code, a, b, c],
                               stdout=subprocess.DEVNULL,
                               stderr=subprocess.PIPE, timeout=300)
            if p.returncode:
                return False, p.stderr.decode()[-300:]
            return pickle.loads(core.get(c))
        finally:
            core.drop(d)


def exec_main(a, b, c):
    import json
    sc = json.loads(core.get(a).decode())
    blob = core.get(b)
    try:
        out = (True, piece(sc, blob, None, {'kill': None, 'noise': None,
                                            'store': 'pickle2'}, None))
    except Exception as e:
        out = (False, repr(e)[:300])
    core.put(c, pickle.dumps(out, 2))


def full_run(sc):
    nd = core.Node(sc)
    err = None
    try:
        nd.run()
    except Exception as e:
        err = repr(e)[:300]
    return err, nd.records()


def piece(sc, blob, until, hop, other):
    """one process's share: restore, run on, save, vanish"""
    fired = []
    nd = core.Node(sc)
    if hop['noise'] == 'other' and other is not None:
        try:
            core.Node(other).run()
            fired.append('other model run in the same process')
        except Exception:
            pass
    elif hop['noise'] == 'same':
        try:
            x = core.Node(sc)
            x.step()
            x.step()
            fired.append('same model started over in the same process')
        except Exception:
            pass
    if blob is not None:
        nd.i, nd.s = pickle.loads(blob)
    end = nd.n if until is None else until
    keep = None
    if hop['kill'] is not None:
        keep = nd.checkpoint()
        try:
            where = core.crash_step(nd, hop['kill'])
        except Exception:
            where = None
        if where:
            fired.append('killed in mid-interval@%s' % where)
        nd.restore(keep)
    try:
        while nd.i < end:
            nd.step()
    except Exception as e:
        return 'raised', repr(e)[:200], nd.records(), fired
    if until is None:
        return 'done', None, nd.records(), fired
    state = (nd.i, nd.s)
    if hop['store'] == 'deepcopy':
        state = copy.deepcopy(state)
    proto = 4 if hop['store'] == 'pickle4' else 2
    return 'saved', pickle.dumps(state, proto), nd.records(), fired


def first_diff(a, b):
    if len(a) != len(b):
        return {'rows': len(a), 'expected': len(b)}
    for k, (x, y) in enumerate(zip(a, b)):
        for f in sorted(x):
            if not (x[f] == y[f] or x[f] != x[f] and y[f] != y[f]):
                return {'row': k, 'field': f, 'got': str(x[f]),
                        'want': str(y[f])}
    return {}


# ---------------------------------------------------------------------- C08
class Sched(object):
    """runs callables in threads, one at a time; the seed decides who.

    A thread gives way only where the plan says so: after a planned number of
    executed lines of the code under test (or at its own yield points)."""

    def __init__(self, rng, mean, trace=True):
        self.rng, self.mean, self.trace = rng, mean, trace
        self.sem = []
        self.live = set()
        self.now = None
        self.switches = 0
        self.order = []
        self.main = threading.Semaphore(0)
        self.pkg = core.boot()['pkg']
        self.left = 0
        self.errors = {}
        self.free = False
        self.ticks = 0
        self.parked = set()
        self.me = {}
        self.meetings = 0

    def meet(self):
        """a thread about to write waits until every other one is about to
        write too (or has ended); from then on they take turns quickly"""
        me = self.me.get(threading.get_ident())
        if me is None or self.meetings:
            return
        self.parked.add(me)
        self.give_way(me)

    def draw(self):
        self.left = 1 + int(self.rng.expovariate(1.0 / self.mean))

    def pick(self):
        free = self.live - self.parked
        if not free:
            self.meetings += 1
            self.mean = 3
            self.parked.clear()
            free = self.live
        return self.rng.choice(sorted(free))

    def give_way(self, me):
        if self.free:
            return
        nxt = self.pick()
        self.draw()
        if nxt == me:
            return
        self.switches += 1
        self.order.append(nxt)
        self.now = nxt
        self.sem[nxt].release()
        self.sem[me].acquire()

    def tracer(self, me):
        def lines_of(frame0):
            last = [-1]          # see core.Tracer.lines_of

            def line(frame, event, arg):
                if event == 'line' and frame.f_lineno != last[0]:
                    last[0] = frame.f_lineno
                    self.left -= 1
                    self.ticks += 1
                    if self.left <= 0:
                        self.give_way(me)
                return line
            return line

        def call(frame, event, arg):
            if frame.f_code.co_filename.startswith(self.pkg):
                return lines_of(frame)
            return None
        return call

    def body(self, me, fn):
        self.sem[me].acquire()
        self.me[threading.get_ident()] = me
        if self.trace:
            sys.settrace(self.tracer(me))
        try:
            fn()
        except BaseException as e:
            self.errors[me] = repr(e)[:300]
        finally:
            sys.settrace(None)
            self.live.discard(me)
            if self.live:
                nxt = self.pick()
                self.draw()
                self.order.append(nxt)
                self.sem[nxt].release()
            else:
                self.main.release()

    def run(self, fns):
        n = len(fns)
        self.sem = [threading.Semaphore(0) for _ in fns]
        self.live = set(range(n))
        ts = [threading.Thread(target=self.body, args=(i, f))
              for i, f in enumerate(fns)]
        for t in ts:
            t.daemon = True
            t.start()
        self.draw()
        first = self.pick()
        self.order.append(first)
        self.sem[first].release()
        seen = -1
        while not self.main.acquire(timeout=10):
            if self.ticks == seen and not self.free:
                # the code has locks of its own, and the one who holds it was
                # told to wait: let all of them run as they like
                self.free = True
                for x in self.sem:
                    x.release()
            seen = self.ticks
        for t in ts:
            t.join()


class C08(Prop):
    pid = 'C08'
    quick, thorough = 120, 20000
    rule = ('a case is 2-4 models (different seasons, or one season shared, '
            'from one configuration object or several) advanced under one '
            'seeded interleaving of statements or of intervals, or whole '
            'programs interleaved statement by statement; each is compared '
            'bit for bit with its run alone in a fresh process; non-trivial '
            'if at least two switches happened while snow was simulated; '
            'distinct by case content')
    stub = ('none of the package; simulator-owned: the thread scheduler '
            '(real threads, one runs at a time, switch points drawn from '
            'the seed), sensor feed')

    def gen(self, rng, i, tier):
        kind = rng.choice(['lines', 'lines', 'intervals', 'intervals',
                           'programs', 'objects'])
        n = rng.randint(2, 4 if kind == 'intervals' else 3)
        scs = []
        share = rng.random() < 0.45
        for j in range(n):
            if share and scs:
                scs.append(copy.deepcopy(scs[0]))
                continue
            lo, hi = (5, 12) if kind == 'intervals' else (3, 4)
            sc = small_sc(rng, lo, hi)
            if kind != 'intervals' and sc['cfg']['snow'] in ('thin', 'none') \
                    and sc['cfg']['steps'][2] < 3:
                sc['wx'] = sc['wx'][:3]
            scs.append(sc)
        if kind == 'objects':
            # other packs and seasons under one set of parameter objects
            share = False
            for k in ('z_u', 'z_t'):
                scs[0]['cfg'][k] = max(s['cfg'][k] for s in scs)
            if any(not s['cfg']['relative'] for s in scs):
                scs[0]['cfg']['relative'] = False
            for s in scs[1:]:
                ic = dict(s['cfg']['ic'], z_0=scs[0]['cfg']['ic']['z_0'])
                s['cfg'] = dict(copy.deepcopy(scs[0]['cfg']), ic=ic,
                                snow=s['cfg']['snow'])
            for s in scs:
                core.lift_sensors(scs[0]['cfg'], s['wx'])
            for s in scs:
                z = core.depth_bound(s['cfg'], s['wx']) + 0.3
                for k in ('z_u', 'z_t'):
                    scs[0]['cfg'][k] = max(scs[0]['cfg'][k],
                                           float(int(z * 100) + 1) / 100)
            for s in scs[1:]:
                for k in ('z_u', 'z_t'):
                    s['cfg'][k] = scs[0]['cfg'][k]
        return {'scs': scs, 'kind': kind, 'share': share,
                'mean': rng.choice([2, 10, 60, 300, 1500]),
                'sseed': rng.randrange(10 ** 9), 'faults': [],
                'together': kind == 'programs' and rng.random() < 0.6}

    def shrink(self, case):
        if len(case['scs']) > 2:
            for j in range(len(case['scs'])):
                c = copy.deepcopy(case)
                del c['scs'][j]
                yield c
        for j, sc in enumerate(case['scs']):
            n = len(sc['wx'])
            if n > 3:
                c = copy.deepcopy(case)
                if case['share']:
                    for s in c['scs']:
                        s['wx'] = s['wx'][:-1]
                else:
                    c['scs'][j]['wx'].pop()
                yield c

    def run(self, case):
        res = Result()
        d = core.scratch()
        try:
            if case['kind'] == 'programs':
                self.programs(case, d, res)
            else:
                self.models(case, res)
        finally:
            core.drop(d)
        return res

    def alone(self, scs, share, res, fn):
        out = []
        for j, sc in enumerate(scs):
            if share and j:
                out.append(out[0])
                continue
            out.append(in_child(lambda: fn(sc)))
        return out

    def models(self, case, res):
        out = res.viol
        scs = case['scs']
        solo = self.alone(scs, case['share'], res, full_run)
        for ok, r in solo:
            if not ok:
                out.append(V('abort_on_valid_input', -1, error=r))
                return
        parts = [{} for sc in scs]
        nodes = [core.Node(sc, parts=p) for sc, p in zip(scs, parts)]
        if case['kind'] == 'objects':
            self.common(nodes, parts)
        if case['share']:
            # one set of forcing records feeds all of them
            for nd in nodes[1:]:
                nd.inputs = nodes[0].inputs
        kept = [[vars_of(x) for x in nd.inputs] for nd in nodes]
        rng = random.Random(case['sseed'])
        errs = {}
        if case['kind'] == 'lines' or \
                case['kind'] == 'objects' and case['sseed'] % 3 == 0:
            s = Sched(rng, case['mean'])
            s.run([nd.run for nd in nodes])
            errs = s.errors
            res.faults['thread switches'] += s.switches
            res.scheds.add(core.jhash([s.order, s.switches]))
            sw = s.switches
        else:
            order = []
            live = [j for j, nd in enumerate(nodes)]
            while live:
                j = rng.choice(live)
                order.append(j)
                try:
                    nodes[j].step()
                except Exception as e:
                    errs[j] = repr(e)[:300]
                    live.remove(j)
                    continue
                if nodes[j].done():
                    live.remove(j)
            sw = sum(1 for x, y in zip(order, order[1:]) if x != y)
            res.faults['interval switches'] += sw
            res.scheds.add(core.jhash(order))
        res.cov['kind ' + case['kind']] += 1
        for j, nd in enumerate(nodes):
            err, want = solo[j][1]
            got = nd.records()
            res.steps += len(got)
            res.simsec += nd.i * 60.0 * scs[j]['cfg']['steps'][0]
            if any(r['layer_count'] for r in got) and sw >= 2:
                res.nontrivial = True
            if (err is None) != (j not in errs):
                out.append(V('interleaving_changes_abort', j,
                             alone=err, together=errs.get(j)))
                return
            if not same(got, want):
                out.append(V('interleaving_changes_rows', j,
                             **first_diff(got, want)))
                return
            for k, x in enumerate(nd.inputs):
                if vars_of(x) != kept[j][k]:
                    out.append(V('shared_record_altered', k, model=j))
                    return
        for j, p in enumerate(parts):
            if plain(p['args']) != plain(p['pristine']):
                out.append(V('parameter_object_altered', j, before=str(
                    p['pristine'])[:400], after=str(p['args'])[:400]))
                return
        res.states.add((case['kind'], len(nodes), case['share'],
                        case['mean'], tuple(s['cfg']['snow'] for s in scs)))

    def common(self, nodes, parts):
        """rebuild the models from the first one's parameter objects, each
        with its own initial snow"""
        cls = core.boot()['Snobal']
        for nd, p in list(zip(nodes, parts))[1:]:
            args = [self.swap(a, b) for a, b in zip(parts[0]['args'][0],
                                                    p['args'][0])]
            kw = {k: self.swap(a, p['args'][1].get(k))
                  for k, a in parts[0]['args'][1].items()}
            nd.s = cls(*args, **kw)

    def swap(self, first, own):
        if isinstance(first, dict) and 'rho' in first and 'z_s' in first:
            return own
        return first

    def programs(self, case, d, res):
        out = res.viol
        scs = case['scs']

        def solo_run(sc):
            x = core.scratch()
            try:
                ini, csv, path = core.stage(sc, x)
                m = core.make_model(ini)
                try:
                    m.run()
                except Exception as e:
                    return repr(e)[:200], sysrun.content(path)
                return None, sysrun.content(path)
            finally:
                core.drop(x)
        with core.quiet():
            solo = self.alone(scs, case['share'], res, solo_run)
        if not all(ok for ok, r in solo):
            out.append(V('abort_on_valid_input', -1,
                         error=[r for ok, r in solo if not ok][0]))
            return
        paths, ucfgs = [], []
        for j, sc in enumerate(scs):
            if case.get('together'):
                ini, csv, path = core.stage(sc, d, name='p%d.' % j)
            else:
                e = os.path.join(d, 'p%d' % j)
                os.makedirs(e)
                ini, csv, path = core.stage(sc, e)
            paths.append(path)
            ucfgs.append(core.load_ucfg(ini))
        before = [copy.deepcopy(u.cfg) for u in ucfgs]
        m = core.boot()

        def prog(u):
            return lambda: m['PySnobal'](u).run()
        s = Sched(random.Random(case['sseed']), case['mean'])
        fs = meeting(s, d) if case.get('together') else \
            contextlib.nullcontext()
        with core.quiet(), fs:
            s.run([prog(u) for u in ucfgs])
        res.cov['kind programs'] += 1
        if s.meetings:
            res.cov['programs writing to one directory at once'] += 1
        res.faults['thread switches'] += s.switches
        res.scheds.add(core.jhash([s.order, s.switches]))
        for j, sc in enumerate(scs):
            err, want = solo[j][1]
            got = sysrun.content(paths[j])
            res.simsec += len(sc['wx']) * 60.0 * sc['cfg']['steps'][0]
            if want is not None and s.switches >= 2:
                res.nontrivial = True
            if (err is None) != (j not in s.errors):
                out.append(V('interleaving_changes_abort', j, alone=err,
                             together=s.errors.get(j)))
                return
            if got != want:
                out.append(V('interleaving_changes_output', j,
                             size=len(got or b''), want=len(want or b'')))
                return
            if ucfgs[j].cfg != before[j]:
                out.append(V('configuration_altered', j))
                return
        res.states.add(('programs', len(scs), case['share'], case['mean']))


@contextlib.contextmanager
def meeting(sched, root):
    """the programs begin to write to root at the same time"""
    real = builtins.open
    root = os.path.realpath(root) + os.sep

    def opener(file, mode='r', *a, **k):
        if isinstance(file, (str, os.PathLike)) and \
                any(c in mode for c in 'wax+') and \
                os.path.realpath(os.fspath(file)).startswith(root):
            sched.meet()
        return real(file, mode, *a, **k)
    builtins.open = io.open = opener
    try:
        yield
    finally:
        builtins.open = io.open = real


def plain(x):
    """the values in nested plain containers"""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return str(x) if type(x).__str__ is not object.__str__ else \
        type(x).__name__


def vars_of(x):
    return [getattr(x, k, None) for k in core.KEYS + ['m_snow', 'm_rain']]
