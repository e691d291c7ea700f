"""Run one property's check:  main.py C01 [--tier T] [--replay FILE] [--n N]

exit 0  property held on everything explored (known findings are printed)
exit 1  VIOLATION line(s) printed
exit 2  the harness itself failed (never reported as a violation)
"""
import sys
import os

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get('SNOSIM_PY', '/opt/venv/bin/python')
_want = {'PYTHONHASHSEED': os.environ.get('SNOSIM_HASHSEED', '0'),
         'PYTHONDONTWRITEBYTECODE': '1',
         'PYTHONPYCACHEPREFIX': '/nonexistent-snosim', 'OPENBLAS_NUM_THREADS': '1',
         'OMP_NUM_THREADS': '1'}
if os.environ.get('SNOSIM_CHILD') != '1':
    env = dict(os.environ, SNOSIM_CHILD='1', **_want)
    env.pop('PYTHONPATH', None)
    env.pop('PYTHONWARNINGS', None)
    os.execve(PY, [PY, '-B'] + sys.argv, env)

sys.path.insert(0, HERE)

import argparse
import collections
import importlib
import json
import pickle
import select
import shutil
import signal
import struct
import tempfile
import time
import traceback

import core

MODULES = {}
for _m, _ids in (('physics', 'C01 C02 C03 C04 C13 C14 C16'),
                 ('cadence', 'C05 C17'),
                 ('system', 'C06 C09 C10 C11 C12 C15'),
                 ('concurrent', 'C07 C08')):
    for _i in _ids.split():
        MODULES[_i] = _m

CASE_CPU = 60           # seconds of CPU after which one case is "stuck"


class Stuck(BaseException):
    pass


def _alarm(sig, frame):
    raise Stuck()


def prop_class(pid):
    return getattr(importlib.import_module('props.' + MODULES[pid]), pid)


def known_kinds(pid):
    out = {}
    path = os.path.join(core.VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if 'kind' in d and pid in d['properties']:
                        out[d['kind']] = d
    return out


def run_case(prop, case, cpu=CASE_CPU):
    """(Result, None) or (None, traceback text)"""
    from base import Result
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, cpu)
    try:
        return prop.run(case), None
    except Stuck:
        r = Result()
        r.viol = [{'kind': 'no_progress', 'at': -1,
                   'cpu_seconds': cpu}]
        return r, None
    except (Exception, SystemExit) as e:
        text = traceback.format_exc()
        tb = traceback.extract_tb(e.__traceback__)
        pkg = core.boot()['pkg']
        if any(t.filename.startswith(pkg) for t in tb):
            # the shipped code gave up on input that is valid by construction
            last = [t for t in tb if t.filename.startswith(pkg)][-1]
            r = Result()
            r.viol = [{'kind': 'abort_on_valid_input', 'at': -1,
                       'error': repr(e)[:300], 'where': '%s:%s' % (
                           os.path.basename(last.filename), last.name)}]
            return r, None
        return None, text
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.settrace(None)


# ------------------------------------------------------------ worker pool
def send(fd, obj):
    b = pickle.dumps(obj, 2)
    b = struct.pack('>I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def recv(fd):
    def need(n):
        out = b''
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                return None
            out += c
        return out
    h = need(4)
    if h is None:
        return None
    return pickle.loads(need(struct.unpack('>I', h)[0]))


def fork_child(fn):
    """fork; the child runs fn(fd) and exits; returns (pid, read fd)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        os.close(w)
        return pid, r
    code = 3
    try:
        os.close(r)
        fn(w)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def isolated(prop, cases, wall=600):
    """run cases in order in one fresh process; result of the last one"""
    def child(fd):
        for c in cases[:-1]:
            run_case(prop, c)
        send(fd, run_case(prop, cases[-1]))
    pid, fd = fork_child(child)
    t0 = time.time()
    out = None
    while time.time() - t0 < wall:
        if select.select([fd], [], [], 1.0)[0]:
            out = recv(fd)
            break
    else:
        os.kill(pid, signal.SIGKILL)
    os.close(fd)
    os.waitpid(pid, 0)
    if out is None:
        return None, 'isolated run died or hung'
    return out


def case_for(prop, seed, i, tier):
    rng = core.rng_for(seed, prop.pid, i)
    case = prop.gen(rng, i, tier)
    return json.loads(json.dumps(case))


def new_kinds(res, known):
    return [v for v in res.viol if v['kind'] not in known]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--n', type=int)
    ap.add_argument('--workers', type=int,
                    default=int(os.environ.get('SNOSIM_WORKERS') or 8))
    ap.add_argument('--log', help='write one line per case (determinism)')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    t0 = time.time()
    root = tempfile.mkdtemp(prefix='snosim.')
    os.environ['SNOSIM_SCRATCH'] = root
    me = os.getpid()
    try:
        code = go(a, t0)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print('HARNESS-ERROR property=%s' % a.pid)
        code = 2
    finally:
        if os.getpid() == me:
            shutil.rmtree(root, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def go(a, t0):
    core.boot()
    prop = prop_class(a.pid)()
    known = known_kinds(a.pid)
    if a.replay:
        return replay(a, prop, known)
    n = a.n or (prop.quick if a.tier == 'quick' else prop.thorough)
    nw = max(1, min(a.workers, n))
    if hasattr(prop, 'warm'):
        prop.warm(a.seed)
    else:
        for i in range(3):           # compile the hot paths before forking
            run_case(prop, case_for(prop, 'warm', i, a.tier))
    limit = 840 if a.tier == 'quick' else float(
        os.environ.get('SNOSIM_BUDGET') or 7200)

    def worker(w):
        def child(fd):
            hist = []
            for i in range(w, n, nw):
                case = case_for(prop, a.seed, i, a.tier)
                res, err = run_case(prop, case)
                bad = None
                if err:
                    bad = ('error', err)
                else:
                    nk = new_kinds(res, known)
                    if nk:
                        bad = ('viol', nk)
                send(fd, (i, bad, res, list(hist[-12:]) if bad else None,
                          core.jhash(case)))
                hist.append(i)
                if bad:
                    break
            send(fd, None)
        return fork_child(child)

    kids = {}
    for w in range(nw):
        pid, fd = worker(w)
        kids[fd] = pid
    agg = Agg()
    bad = []
    dead = []
    lines = {}
    stopped = False
    while kids:
        left = limit - (time.time() - t0)
        if left <= 0 and not stopped:
            stopped = True
            for pid in kids.values():
                os.kill(pid, signal.SIGKILL)
        ready = select.select(list(kids), [], [], min(max(left, 0.1), 5))[0]
        for fd in ready:
            m = recv(fd)
            if m is None:
                pid = kids.pop(fd)
                os.close(fd)
                st = os.waitpid(pid, 0)[1]
                if st != 0 and not stopped:
                    dead.append(st)
                continue
            i, b, res, hist, h = m
            lines[i] = h
            if res is not None:
                agg.add(i, h, res, known)
                lines[i] += ' %d %d %s' % (
                    res.steps, len(res.viol), res.note or
                    core.jhash([sorted(res.cov.items()),
                                sorted(res.states), sorted(res.scheds)]))
            if b:
                bad.append((i, b, hist))
    if a.log:
        with open(a.log, 'w') as f:
            for i in sorted(lines):
                f.write('%d %s\n' % (i, lines[i]))
    errors = [b for b in bad if b[1][0] == 'error']
    viols = sorted((b for b in bad if b[1][0] == 'viol'), key=lambda b: b[0])
    reported = 0
    for i, (_, vs), hist in viols[:3]:
        if report(a, prop, known, i, vs, hist, t0):
            reported += 1
            break
    agg.finish(a, prop, known, n, nw, time.time() - t0, reported, t0)
    for kind in sorted(agg.known):
        d = known[kind]
        print('KNOWN-FINDING: property=%s %s [%s, seen %d times]' % (
            a.pid, d['what'], d['id'], agg.known[kind]))
    if reported:
        return 1
    if viols:
        print('HARNESS-ERROR property=%s: violation seen but not '
              'reproducible: case %d %r' % (a.pid, viols[0][0],
                                            viols[0][1][1][:1]))
        return 2
    if errors:
        print(errors[0][1][1])
        print('HARNESS-ERROR property=%s case=%d' % (a.pid, errors[0][0]))
        return 2
    if dead:
        print('HARNESS-ERROR property=%s: worker died %r' % (a.pid, dead))
        return 2
    if stopped:
        if a.tier == 'quick':
            print('HARNESS-ERROR property=%s: time limit' % a.pid)
            return 2
        print('time budget reached after %d of %d cases' % (agg.n, n))
    return 0


class Agg(object):
    def __init__(self):
        self.n = self.nontrivial = self.steps = 0
        self.sim = 0.0
        self.cov = collections.Counter()
        self.faults = collections.Counter()
        self.states = set()
        self.scheds = set()
        self.hashes = set()
        self.known = collections.Counter()
        self.sample = None

    def add(self, i, h, res, known):
        self.n += 1
        self.steps += res.steps
        self.sim += res.simsec
        self.cov.update(res.cov)
        self.faults.update(res.faults)
        self.states |= res.states
        self.scheds |= res.scheds
        if res.nontrivial and h not in self.hashes:
            self.nontrivial += 1
        self.hashes.add(h)
        for v in res.viol:
            if v['kind'] in known:
                self.known[v['kind']] += 1

    def finish(self, a, prop, known, n, nw, wall, nviol, t0):
        samples = []
        for i in (0, n // 2):
            case = case_for(prop, a.seed, i, a.tier)
            s = json.dumps(case)
            samples.append(case if len(s) < 2500 else s[:2500] + '...')
        ev = {
            'property': a.pid, 'tier': a.tier, 'seed': a.seed,
            'level': 'exploration',
            'coverage': {
                'evaluations': self.n,
                'distinct_nontrivial': self.nontrivial,
                'rule': prop.rule,
                'samples': samples,
                'simulated_runs': self.n,
                'seeds_per_hour': int(self.n / max(wall, 1e-3) * 3600),
                'model_steps_simulated': self.steps,
                'simulated_time_hours': round(self.sim / 3600.0, 2),
                'faults_fired': dict(sorted(self.faults.items())),
                'distinct_states': len(self.states),
                'distinct_schedules': len(self.scheds),
                'probes': dict(sorted(self.cov.items())),
                'known_findings_seen': dict(self.known),
                'workers': nw,
                'real_components': prop.real,
                'stub_components': prop.stub,
            },
            'assumptions': list(prop.assumptions),
            'wall_s': round(wall, 2),
            'violations': nviol,
        }
        print('%s %s: %d runs, %d non-trivial, %d steps, %.0f simulated '
              'hours, %d states, %d schedules, %d faults, %.1f s' % (
                  a.pid, a.tier, self.n, self.nontrivial, self.steps,
                  self.sim / 3600.0, len(self.states), len(self.scheds),
                  sum(self.faults.values()), wall))
        if a.no_evidence:
            return
        d = os.path.join(core.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % a.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
            f.write('\n')
        os.rename(tmp, os.path.join(d, a.pid + '.json'))


# ------------------------------------------------- confirm, minimise, report
def report(a, prop, known, i, vs, hist, t0):
    case = case_for(prop, a.seed, i, a.tier)
    kind = vs[0]['kind']

    def fails(cs, k=None):
        res, err = isolated(prop, cs, 400)
        if err:
            return None
        for v in new_kinds(res, known):
            if k is None or v['kind'] == k:
                return v
        return None

    prelude = []
    v = fails([case])
    if v is None and hist:
        prelude = [case_for(prop, a.seed, j, a.tier) for j in hist]
        v = fails(prelude + [case])
    if v is None:
        return False
    kind = v['kind']
    # minimise within a time cap
    cap = time.time() + (60 if a.tier == 'quick' else 300)
    if kind == 'no_progress':
        cap = 0
    tries = 0
    progress = True
    while progress and time.time() < cap:
        progress = False
        for c in prop.shrink(case):
            if time.time() > cap:
                break
            c = json.loads(json.dumps(c))
            tries += 1
            w = fails(prelude + [c], kind)
            if w is not None:
                case, v, progress = c, w, True
                break
    for j in range(len(prelude)):
        if time.time() > cap:
            break
        p = prelude[:len(prelude) - 1]
        w = fails(p + [case], kind)
        if w is None:
            break
        prelude, v = p, w
    rec = {'property': a.pid, 'seed': a.seed, 'index': i, 'tier': a.tier,
           'kind': kind, 'violation': v, 'case': case, 'prelude': prelude,
           'shrink_tries': tries}
    d = os.path.join(core.VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (a.pid, core.jhash(
        [case, kind])))
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1, sort_keys=True)
        f.write('\n')
    print('violation: %s' % json.dumps(v))
    print('seed=%d run=%d minimised in %d tries' % (a.seed, i, tries))
    print('VIOLATION property=%s replay=%s' % (a.pid, path))
    return True


def replay(a, prop, known):
    with open(a.replay) as f:
        rec = json.load(f)
    res, err = isolated(prop, rec['prelude'] + [rec['case']])
    if err:
        print(err)
        return 2
    nk = new_kinds(res, known)
    for v in nk[:5]:
        print('violation: %s' % json.dumps(v))
    same = any(v['kind'] == rec['kind'] for v in nk)
    print('replayed %s: recorded kind %s %s' % (
        a.replay, rec['kind'],
        'reproduced' + (' exactly' if rec['violation'] in nk else '')
        if same else 'NOT reproduced'))
    if nk:
        print('VIOLATION property=%s replay=%s' % (a.pid, a.replay))
        return 1
    return 0


if __name__ == '__main__':
    main()
