"""Simulator core: boot, scenario generation, nodes, crash points, walking.

Everything random is drawn from random.Random(string) objects derived from
VERIF_SEED; nothing here reads a real clock except the run budget reports.
"""
import contextlib
import copy
import io
import json
import math
import os
import random
import sys
import warnings

REPO = os.environ.get('SNOSIM_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TF = 273.16

COLS = ['net_solar', 'incoming_thermal', 'air_temp', 'vapor_pressure',
        'wind_speed', 'soil_temp', 'precip_mass', 'percent_snow', 'rho_snow',
        'precip_temp']
KEYS = ['S_n', 'I_lw', 't_a', 'e_a', 'u', 't_g', 'm_pp', 'percent_snow',
        'rho_snow', 't_pp']

mods = {}


def boot():
    """import the code under test from REPO, once"""
    if mods:
        return mods
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)
    import numpy as np
    import pandas as pd
    np.seterr(all='ignore')
    pd.options.mode.chained_assignment = None
    with contextlib.redirect_stdout(io.StringIO()):
        import pysnobal
        import pysnobal.pysnobal as drv
        from pysnobal.point import InputData, Snobal
    here = os.path.realpath(os.path.dirname(pysnobal.__file__))
    want = os.path.realpath(os.path.join(REPO, 'pysnobal'))
    if here != want:
        raise RuntimeError('imported pysnobal from %s, not %s' % (here, want))
    from inicheck.config import MasterConfig
    from inicheck.tools import get_user_config
    warnings.simplefilter('ignore')
    mods.update(np=np, pd=pd, drv=drv, PySnobal=drv.PySnobal, Snobal=Snobal,
                InputData=InputData, MasterConfig=MasterConfig,
                get_user_config=get_user_config,
                pkg=want + os.sep)
    return mods


def rng_for(*parts):
    return random.Random('/'.join(str(p) for p in parts))


# ------------------------------------------------------------ generation
def es_ice(t):
    from refmodel import es_ice as f
    return f(t)


def es_water(t):
    from refmodel import es_water as f
    return f(t)


# step lengths (minutes) and mass thresholds that resolve the melt: no single
# sub-step can melt or drain away a whole layer under the generated forcing
FAMILIES = {
    'default': ((60, 15, 1), (60, 10, 1), 5),
    'm20s2': ((60, 20, 2), (60, 12, 2), 3),
    'm30s3': ((60, 30, 3), (80, 18, 3), 3),
    'n30': ((30, 10, 1), (30, 10, 1), 2),
    'n60m10': ((60, 10, 1), (50, 6, 1), 2),
    'n180': ((180, 30, 2), (160, 25, 2), 2),
    'two': ((60, 60, 1), (60, 60, 1), 1),
    'two2': ((60, 2, 2), (70, 5, 2), 1),
    'n15': ((15, 5, 1), (20, 8, 1), 2),
    'flat5': ((5, 5, 5), (6, 5, 4), 1),
    'n120': ((120, 20, 2), (120, 15, 2), 1),
}

REGIMES = {
    # name: T0, spread, solar, precip kind
    'cold': (-16, 3, 60, None),
    'clear': (-5, 3, 250, None),
    'snow': (-6, 3, 60, 'snow'),
    'warmsnow': (0.3, 1, 60, 'warmsnow'),
    'mixed': (1, 1, 60, 'mixed'),
    'rain': (4, 2, 40, 'rain'),
    'freezerain': (-1.5, 1, 30, 'rain'),
    'melt': (6, 3, 450, None),
    'calm': (-3, 4, 120, None),
    'heat': (14, 4, 750, None),
    'bigsnow': (-4, 3, 40, 'bigsnow'),
    'humid': (1, 3, 30, None),
    'steady': (-2, 4, 100, None),
    'foehn': (16, 4, 200, None),
    'deepcold': (-32, 5, 30, None),
    'gale': (-2, 6, 60, 'snow'),
    'downpour': (7, 3, 20, 'rain'),
}


def r4(x):
    return round(x, 4)


def gen_weather(rng, n, step_min, base, hot=False, calm=True, regimes=None):
    names = regimes or list(REGIMES)
    rows = []
    hour = rng.uniform(0, 24)
    tg = rng.choice([-2.0, -0.5, 0.0, 1.0, 3.0])
    soil = 6.0
    if rng.random() < 0.1:          # permafrost, or ground warm from summer
        tg = rng.choice([-14.0, -9.0, 10.0])
        soil = 16.0
    while len(rows) < n:
        reg = rng.choice(names)
        T0, spread, solar, kind = REGIMES[reg]
        if reg == 'calm' and not calm:
            if names == ['calm']:
                names = list(REGIMES)
            continue
        k = rng.randint(1, 9)
        t0 = T0 + base + rng.uniform(-spread, spread)
        rs = rng.choice([40, 60, 80, 100, 130, 180, 250])
        tg += rng.choice([0, 0, 0, -1, 1, 0.3])
        tg = max(-soil, min(soil, tg))
        steady = None
        for _ in range(k):
            hour = (hour + step_min / 60.0) % 24
            sun = max(0.0, math.sin((hour - 6) / 12 * math.pi))
            ta = max(-45.0 if reg == 'deepcold' else -20.0, t0 + 4 * sun + rng.uniform(-1, 1))
            s = solar * sun * rng.uniform(0.4, 1.0)
            lw = rng.uniform(170, 260) if reg in ('cold', 'clear', 'calm') \
                else rng.uniform(240, 360)
            rh = rng.uniform(0.3, 0.98)
            if reg == 'humid':
                rh = rng.uniform(0.95, 1.08)
            elif reg == 'foehn':
                rh = rng.choice([0.2, 0.5, 0.9, 1.0])
            ea = min(rh * es_ice(ta + TF), es_water(ta + TF) * 1.1)
            u = rng.uniform(0.8, 7.0)
            if reg in ('foehn', 'gale'):
                u = rng.uniform(5, 18)
            if reg == 'calm':
                u = rng.choice([0.0, 0.05, 0.2, 0.4, 0.7])
            pp = ps = 0.0
            tp = -1.0
            if kind and rng.random() < 0.75:
                hrs = step_min / 60.0
                pp = rng.choice([0.05, 0.3, 1, 2.5, 6]) * hrs
                if rng.random() < 0.12:
                    pp = 10 ** rng.uniform(-4, -1.5)     # trace
                if kind == 'snow':
                    ps, tp = 1.0, -5 + rng.uniform(-4, 3)
                elif kind == 'warmsnow':
                    rs = max(rs, 80)    # wet snow is never that light
                    ps, tp = 1.0, rng.choice([0.0, 0.2, 1.0])
                elif kind == 'mixed':
                    rs = max(rs, 80)
                    ps, tp = r4(rng.uniform(0.05, 0.95)), rng.uniform(-.5, 2)
                elif kind == 'rain':
                    if reg == 'downpour':
                        pp *= rng.choice([1, 4])
                    ps, tp = 0.0, rng.uniform(-1.0, 5) if t0 < 0 \
                        else rng.uniform(0.5, 8)
                else:
                    pp = rng.uniform(6, 20) * hrs
                    rs = max(rs, 80)
                    ps, tp = 1.0, -3 + rng.uniform(-4, 2)
            row = [r4(s), r4(lw), r4(ta), round(max(ea, 1.0), 3), r4(u), r4(tg),
                   r4(pp), ps, float(rs) if ps > 0 else 0.0, r4(tp)]
            if reg == 'steady':
                if steady is None:
                    steady = row
                row = list(steady)
            rows.append(row)
    return rows[:n]


def tie(rng, cfg):
    """a pack of which a layer holds exactly a threshold mass

    Depths are multiples of 1/16 m and densities of 8, so that every product
    is exact in floating point."""
    cfg['max_active'] = 0.25
    opts = []
    for t in cfg['thr']:
        for z16 in range(1, 17):
            rho = t * 16.0 / z16
            if 80 <= rho <= 520 and rho % 8 == 0:
                opts.append((z16, rho, t))
    if not opts:
        return 60.0, 240.0
    z16, rho, t = rng.choice(opts)
    z = z16 / 16.0
    if z == 0.25 and rng.random() < .5:
        z = rng.choice([0.5, 0.75, 1.0])     # the upper layer ties
    elif rng.random() < .3:
        z += 0.25                            # the lower layer ties
    return z * rho, rho


def gen_cfg(rng, family=None, snow=None):
    free = family is None
    if free:
        pool = [k for k, v in FAMILIES.items() for _ in range(v[2])]
        family = rng.choice(pool)
    steps, thr, _ = FAMILIES[family]
    z = rng.choice([(5.0, 5.0), (8.0, 6.0), (4.0, 10.0), (12.0, 12.0)])
    cfg = {
        'family': family,
        'steps': list(steps), 'thr': list(thr),
        'elevation': rng.choice([0.0, 300.0, 1200.0, 2061.0, 3500.0, -60.5,
                                 814.75]),
        'z_u': z[0], 'z_t': z[1],
        'z_g': rng.choice([0.1, 0.3, 0.5, 1.0]),
        'relative': rng.random() < 0.3,
        'max_h2o': rng.choice([0.01, 0.01, 0.02, 0.05]),
        'margin': rng.choice([1.0, 1.0, 0.6, 0.3]),
        'max_active': rng.choice([0.05, 0.1, 0.25, 0.25, 0.4, 0.6]),
        'mode': 'all',
        'format': False,
        'tz': rng.choice(['UTC', 'MST']),
        'start': rng.choice(['1995-10-01 00:00', '2000-02-28 13:00',
                             '2019-12-31 05:30', '1983-05-14 22:15']),
        'ic': {'z_s': 0.0, 'rho': 0.0, 't_s_0': 0.0, 't_s': 0.0,
               'h2o_sat': 0.0, 'z_0': rng.choice([0.001, 0.005, 0.01])},
    }
    if rng.random() < 0.15:         # anything the documentation allows
        cfg.update(
            elevation=r4(rng.uniform(-400, 5500)),
            z_g=r4(rng.uniform(0.02, 1.0)),
            max_h2o=rng.choice([0.0, r4(rng.uniform(0.001, 0.05))]),
            max_active=r4(rng.uniform(0.02, 1.2)))
        cfg['z_u'] = r4(rng.uniform(2, 20))
        cfg['z_t'] = r4(rng.uniform(2, 20))
        cfg['ic']['z_0'] = round(10 ** rng.uniform(-4, -1.5), 6)
        if free and rng.random() < .7:
            b = rng.choice([1, 2, 3, 5])
            m = b * rng.choice([1, 2, 3, 5, 7])
            cfg['steps'] = steps = [m * rng.randint(1, 8), m, b]
            # thresholds that keep any layer from melting within one step
            cfg['thr'] = thr = [max(a, int(c * s)) for a, c, s in zip(
                (2, 2, 1), (.45 + rng.random(), .5 + rng.random(), 1.0),
                steps)]
            cfg['family'] = 'wide'
    kind = snow or rng.choice(['none', 'thin', 'thin', 'mid', 'mid', 'deep',
                               'huge', 'dense', 'tie'])
    cfg['snow'] = kind
    if kind != 'none':
        rho = r4(rng.uniform(80, 480))
        if kind == 'thin':
            swe = thr[2] * rng.uniform(1.2, 12)
        elif kind == 'mid':
            swe = rng.uniform(15, 150)
        elif kind == 'deep':
            swe = rng.uniform(150, 900)
        elif kind == 'huge':
            swe, rho = rng.uniform(1850, 2600), r4(rng.uniform(380, 540))
            cfg['z_u'] = cfg['z_t'] = 15.0
        elif kind == 'tie':
            swe, rho = tie(rng, cfg)
        else:
            swe, rho = rng.uniform(20, 500), r4(rng.uniform(535, 598))
            if rng.random() < .15:
                rho = r4(rng.uniform(598, 850))     # firn, above the clip
        wet = rng.random() < 0.35
        z_s = round(swe / rho, 5)
        t0 = 0.0 if wet else -r4(rng.uniform(0, 14))
        ts = 0.0 if wet else -r4(rng.uniform(0, 7))
        sat = rng.choice([0.3, 1.0, 0.01, 1e-4]) if wet else 0.0
        r = rng.random()
        if r < 0.06:            # a hair below freezing
            t0 = -10.0 ** rng.randint(-7, -1)
            ts = t0 if rng.random() < .7 else 0.0
        elif r < 0.12:          # liquid that has not had time to freeze
            sat = rng.choice([1.0, 0.4, 0.02])
            t0, ts = -r4(rng.uniform(0, 6)), -r4(rng.uniform(0, 3))
        cfg['ic'].update(z_s=z_s, rho=rho, t_s_0=t0, t_s=ts, h2o_sat=sat)
    return cfg


def gen_scenario(rng, n, family=None, snow=None, base=None, **kw):
    cfg = gen_cfg(rng, family, snow)
    if base is None:
        base = rng.choice([-8, -4, 0, 0, 3])
    if 'regimes' not in kw and rng.random() < 0.6:     # swarm: few regimes
        kw['regimes'] = rng.sample(sorted(REGIMES), rng.randint(1, 4))
        if kw['regimes'] == ['calm']:
            kw['calm'] = True
    wx = gen_weather(rng, n, cfg['steps'][0], base, **kw)
    lift_sensors(cfg, wx)
    return {'cfg': cfg, 'wx': wx}


def gen_skim(rng, n, small=None):
    """skims of snow, under steps so long that a whole pack goes in one

    A little snow falls again and again, and a dry storm or a heat wave takes
    all of it within a single step."""
    sc = gen_scenario(rng, n, snow=rng.choice(['none', 'thin']), base=0,
                      regimes=['clear'])
    cfg, wx = sc['cfg'], sc['wx']
    cfg['steps'] = list(rng.choice([(60, 60, 60), (180, 60, 60), (180, 180, 60),
                                    (180, 180, 180), (120, 60, 60)]))
    if small is None:
        small = rng.choice([0, 1, 1, 2])
    cfg['thr'] = [60, 10, small]
    cfg['family'] = 'skim'
    if cfg['snow'] == 'thin':
        cfg['ic']['z_s'] = round((small + .02) * rng.uniform(1.05, 2)
                                 / cfg['ic']['rho'], 5)
    how = rng.choice(['storm', 'storm', 'heat', 'both'])
    for i, r in enumerate(wx):
        kind = how if how != 'both' else rng.choice(['storm', 'heat'])
        if kind == 'storm':
            ta = rng.uniform(-3, 14)
            r[0], r[1], r[2] = 0.0, r4(rng.uniform(170, 260)), r4(ta)
            r[3] = r4(rng.uniform(0.08, 0.25) * es_ice(ta + TF))
            r[4] = r4(rng.uniform(12, 20))
            r[5] = min(r[5], 0.0)
        else:
            ta = rng.uniform(5, 16)
            r[0], r[1], r[2] = r4(rng.uniform(300, 800)), 320.0, r4(ta)
            r[3] = r4(rng.uniform(0.4, 1.0) * es_ice(ta + TF))
            r[4] = r4(rng.uniform(2, 9))
        r[6:10] = [0.0, 0.0, 0.0, -1.0]
        if rng.random() < 0.5:
            r[6] = r4((small + .02) * rng.uniform(1.02, 2.5))
            r[7:10] = [1.0, float(rng.choice([80, 130, 250])),
                       r4(rng.uniform(-6, 0))]
    lift_sensors(cfg, wx)
    return sc


def depth_bound(cfg, wx):
    z = cfg['ic']['z_s']
    for r in wx:
        if r[6] * r[7] > 0:
            z += r[6] * r[7] / r[8]
    return z


def lift_sensors(cfg, wx):
    """keep instruments above any possible snow surface (C12 buries them)"""
    if not cfg['relative']:
        need = depth_bound(cfg, wx) + cfg.get('margin', 1.0)
        need = math.ceil(need) if cfg.get('margin', 1.0) == 1.0 \
            else math.ceil(need * 100) / 100.0
        cfg['z_u'] = max(cfg['z_u'], float(need))
        cfg['z_t'] = max(cfg['z_t'], float(need))


# ---------------------------------------------------------- repo inputs
def ini_text(cfg, csv, out, end=None, n=None):
    import datetime
    t0 = datetime.datetime.strptime(cfg['start'], '%Y-%m-%d %H:%M')
    if end is None:
        # the last record is only reached through end_date + one step
        end = (t0 + datetime.timedelta(minutes=cfg['steps'][0] * max(n - 2, 0))
               ).strftime('%Y-%m-%d %H:%M')
    ic = cfg['ic']
    L = ['[topo]', 'elevation: %r' % cfg['elevation'], '', '[time]',
         'start_date: %s' % cfg['start'], 'end_date: %s' % end,
         'time_step: %d' % cfg['steps'][0],
         'time_zone: %s' % cfg['tz'], '', '[measurement_heights]',
         'z_u: %r' % cfg['z_u'], 'z_T: %r' % cfg['z_t'],
         'z_g: %r' % cfg['z_g'], 'relative_heights: %s' % cfg['relative'],
         '', '[model]']
    for a, b, c in zip(('norm', 'medium', 'small'), cfg['steps'], cfg['thr']):
        L += ['%s_time_step: %d' % (a, b), '%s_threshold: %d' % (a, c)]
    L += ['max_h2o: %r' % cfg['max_h2o'], 'max_active: %r' % cfg['max_active'],
          '', '[files]', 'input_csv: %s' % csv, 'output_csv: %s' % out,
          'output_mode: %s' % cfg['mode'], 'format_output: %s' % cfg['format'],
          '', '[initial_snow_properties]']
    L += ['%s: %r' % (k, v) for k, v in sorted(ic.items())]
    return '\n'.join(L) + '\n'


def stamps(cfg, n):
    import datetime
    t0 = datetime.datetime.strptime(cfg['start'], '%Y-%m-%d %H:%M')
    return [t0 + datetime.timedelta(minutes=cfg['steps'][0] * i)
            for i in range(n)]


def csv_text(cfg, wx, order=None, cols=None):
    cols = cols or list(range(len(COLS)))
    L = ['date_time,' + ','.join(COLS[c] for c in cols)]
    ts = stamps(cfg, len(wx))
    idx = order if order is not None else range(len(wx))
    for i in idx:
        L.append(ts[i].strftime('%Y-%m-%d %H:%M:%S') + ','
                 + ','.join(repr(float(wx[i][c])) for c in cols))
    return '\n'.join(L) + '\n'


def put(path, text):
    with open(path, 'wb') as f:
        f.write(text.encode() if isinstance(text, str) else text)


def get(path):
    with open(path, 'rb') as f:
        return f.read()


_scratch = [None, 0]


def scratch():
    """a fresh empty directory inside this run's scratch root"""
    root = os.environ['SNOSIM_SCRATCH']
    _scratch[1] += 1
    d = os.path.join(root, '%d_%d' % (os.getpid(), _scratch[1]))
    os.makedirs(d)
    return d


def drop(d):
    import shutil
    root = os.environ['SNOSIM_SCRATCH']
    assert os.path.realpath(d).startswith(os.path.realpath(root) + os.sep)
    shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def load_ucfg(ini):
    m = boot()
    with quiet():
        mc = m['MasterConfig'](path=os.path.join(
            REPO, 'pysnobal', 'pysnobal_core_config.ini'))
        return m['get_user_config'](ini, mcfg=mc)


def stage(sc, d=None, mode=None, end=None, order=None, name=''):
    """write ini+csv for a scenario; returns (ini, csv, out)"""
    d = d or scratch()
    cfg = dict(sc['cfg'])
    if mode:
        cfg['mode'] = mode
    ini, csv, out = (os.path.join(d, name + x)
                     for x in ('c.ini', 'in.csv', 'out.csv'))
    put(csv, csv_text(cfg, sc['wx'], order))
    put(ini, ini_text(cfg, csv, out, end, len(sc['wx'])))
    return ini, csv, out


def make_model(ini):
    """the shipped driver object, through its public constructor"""
    m = boot()
    with quiet():
        return m['PySnobal'](load_ucfg(ini))


class SimCrash(BaseException):
    """process death injected by the simulator (not catchable as Exception)"""


class _Dry(BaseException):
    pass


def harvest(model, parts=None):
    """Let the shipped driver prepare everything, stop before any physics.

    Returns (pristine Snobal instance, list of forcing objects) exactly as
    run() would hand them to the model.  Uses the do_data_tstep seam.
    """
    m = boot()
    cls = m['Snobal']
    got = {'s': None, 'in': [], 'args': None}
    err = None
    orig = cls.do_data_tstep
    init = cls.__init__

    def seam(self, input1, input2):
        if got['s'] is None:
            got['s'] = self
            got['in'].append(input1)
        got['in'].append(input2)

    def built(self, *args, **kw):
        got['args'] = (args, kw)
        got['pristine'] = copy.deepcopy(got['args'])
        init(self, *args, **kw)

    cls.do_data_tstep = seam
    if parts is not None:
        cls.__init__ = built
    try:
        with quiet():
            try:
                model.run()
            except Exception as e:
                err = e      # nothing to write: no interval was simulated
    finally:
        cls.do_data_tstep = orig
        cls.__init__ = init
    if got['s'] is None:
        if err is not None:
            raise err        # the driver gave up before the first interval
        raise HarnessError('driver never reached the model')
    if parts is not None:
        parts.update(got)
    return got['s'], got['in']


class HarnessError(Exception):
    pass


class Node(object):
    """One model instance under simulation, advanced interval by interval."""

    def __init__(self, sc, mode=None, d=None, parts=None):
        own = d is None
        d = d or scratch()
        try:
            ini, csv, out = stage(sc, d, mode)
            self.s, self.inputs = harvest(make_model(ini), parts)
        finally:
            if own:
                drop(d)
        self.pristine = copy.deepcopy(self.inputs)
        self.i = 0
        self.n = len(self.inputs) - 1

    def step(self):
        self.s.do_data_tstep(self.inputs[self.i], self.inputs[self.i + 1])
        self.i += 1

    def done(self):
        return self.i >= self.n

    def run(self):
        while not self.done():
            self.step()
        return self

    # durable state = pickle of the model + position
    def checkpoint(self):
        import pickle
        return pickle.dumps((self.i, self.s), 2)

    def restore(self, blob):
        import pickle
        self.i, self.s = pickle.loads(blob)
        # forcing is re-read from the durable input, never from crashed memory
        self.inputs = copy.deepcopy(self.pristine)

    def records(self):
        return recs(self.s.output_list)


def recs(output_list):
    out = []
    for r in output_list:
        d = {}
        for k, v in r.items():
            d[k] = v if k == 'date_time' else float(v)
        out.append(d)
    return out


# ------------------------------------------------------------ crash points
class Tracer(object):
    """counts (and acts on) executed lines of the code under test"""

    def __init__(self, action=None, at=None):
        self.n = 0
        self.at = at
        self.action = action
        self.where = None
        self.pkg = boot()['pkg']
        self.fired = False

    def call(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.pkg):
            return self.lines_of(frame)
        return None

    def lines_of(self, frame0):
        # PyPy repeats the line event of a one-line loop now and then; a step
        # is therefore a change of line within the frame
        last = [-1]

        def line(frame, event, arg):
            if event == 'line' and frame.f_lineno != last[0]:
                last[0] = frame.f_lineno
                self.n += 1
                if self.n == self.at:
                    self.fired = True
                    self.where = '%s:%s' % (
                        os.path.basename(frame.f_code.co_filename),
                        frame.f_code.co_name)
                    self.action(frame)
            return line
        return line

    def __enter__(self):
        sys.settrace(self.call)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


def _die(frame):
    raise SimCrash()


def crash_step(node, u):
    """advance node by one interval and kill it at fraction u of its lines.

    Returns the place of the crash, or None if the interval completed.
    """
    probe = copy.deepcopy((node.s, node.inputs[node.i], node.inputs[node.i + 1]))
    with Tracer(at=-1) as t:
        try:
            probe[0].do_data_tstep(probe[1], probe[2])
        except Exception:
            pass
    n = max(t.n, 1)
    k = 1 + int(u * n)
    with Tracer(_die, k) as t:
        try:
            node.step()
        except SimCrash:
            return t.where
    return None


# --------------------------------------------------------------- forcing
def kelvin_rows(sc):
    """scenario rows as the physics should see them (our own conversion)"""
    out = []
    for row in sc['wx']:
        d = dict(zip(KEYS, (float(x) for x in row)))
        for k in ('t_a', 't_g', 't_pp'):
            d[k] = d[k] + TF
        if d['m_pp'] * (1 - d['percent_snow']) > 0 and d['t_pp'] < TF:
            d['t_pp'] = TF
        out.append(d)
    return out


def ref_params(cfg):
    import refmodel
    return refmodel.P(cfg['elevation'], cfg['max_h2o'], cfg['max_active'],
                      cfg['z_u'], cfg['z_t'], cfg['z_g'], cfg['relative'],
                      cfg['ic']['z_0'], [60 * s for s in cfg['steps']],
                      cfg['thr'])


def ref_initial(cfg, p):
    import refmodel
    ic = cfg['ic']
    return refmodel.initial(p, {'z_s': ic['z_s'], 'rho': ic['rho'],
                                't_s_0': ic['t_s_0'] + TF,
                                't_s': ic['t_s'] + TF,
                                't_s_l': ic['t_s'] + TF,
                                'h2o_sat': ic['h2o_sat']})


def jhash(x):
    import hashlib
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str)
                          .encode()).hexdigest()[:16]
