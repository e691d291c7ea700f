"""Whole-program runs: configuration file, forcing file, disk, output file."""
import copy
import datetime
import os
import re

import core
import faultfs
import refmodel as R
from oracle import V

TF = core.TF
HEAD = ['date_time', 'R_n', 'H', 'L_v_E', 'G', 'M', 'delta_Q', 'G_0',
        'delta_Q_0', 'cc_s_0', 'cc_s_l', 'cc_s', 'E_s', 'melt', 'swi',
        'z_s_0', 'z_s_l', 'z_s', 'rho', 'm_s_0', 'm_s_l', 'm_s', 'h2o',
        't_s_0', 't_s_l', 't_s']
SRC = {'E_s': 'E_s_sum', 'melt': 'melt_sum', 'swi': 'swi_sum'}
SRC.update({k: k + '_bar' for k in R.FLUX})
DEC = {}
for _k in HEAD[1:9] + ['rho', 'm_s_0', 'm_s_l', 'm_s', 'h2o']:
    DEC[_k] = 3
for _k in ('E_s', 'melt', 'swi'):
    DEC[_k] = 8
for _k in ('z_s_0', 'z_s_l', 'z_s'):
    DEC[_k] = 6
for _k in ('t_s_0', 't_s_l', 't_s'):
    DEC[_k] = 5
FLT = re.compile(r'^-?\d+(\.\d+)?(e[-+]?\d+)?$')


def exists(p):
    return os.path.lexists(p)


def content(p):
    return core.get(p) if os.path.lexists(p) else None


class Outcome(object):
    """what one invocation of the program did"""

    def __init__(self):
        self.model = None
        self.err = None
        self.died = False
        self.fs = None

    @property
    def ok(self):
        return self.err is None and not self.died

    def records(self):
        return core.recs(self.model.snobal.output_list)


def invoke(ini, plan=None, d=None, model=None, wrap=None):
    """construct the driver (unless given) and run it, under a disk plan.

    wrap(fn) may run the whole thing under a tracer."""
    o = Outcome()
    o.model = model
    fs = o.fs = faultfs.FS(d or os.path.dirname(
        ini if isinstance(ini, str) else ini.filename), plan, core.SimCrash)

    def body():
        with core.quiet():
            if o.model is None:
                o.model = core.mods['PySnobal'](
                    core.load_ucfg(ini) if isinstance(ini, str) else ini)
            o.model.run()

    core.boot()
    with faultfs.patched(fs):
        try:
            if wrap:
                wrap(body)
            else:
                body()
        except core.SimCrash:
            o.died = True
        except (Exception, SystemExit) as e:
            o.err = e
    if fs.dead:
        o.died = True
    return o


def tz_stamp(rec):
    return rec['date_time']


def parse(data):
    """(header, rows of text fields) or a violation text"""
    text = data.decode('utf-8')
    if not text.endswith('\n'):
        return None, 'last line is not terminated'
    lines = text.replace('\r\n', '\n').split('\n')[:-1]
    rows = [x.split(',') for x in lines]
    n = len(rows[0])
    for i, r in enumerate(rows):
        if len(r) != n:
            return None, 'line %d has %d fields, header has %d' % (
                i + 1, len(r), n)
    return rows, None


def check_file(data, recs, fmt):
    """the output file against the records simulated: None or a violation"""
    if data is None:
        return V('no_output_file', -1)
    rows, bad = parse(data)
    if bad:
        return V('malformed_output', -1, what=bad)
    if rows[0] != HEAD:
        return V('columns', -1, got=rows[0][:30])
    if len(rows) - 1 != len(recs):
        return V('row_count', -1, rows=len(rows) - 1, records=len(recs))
    for i, (row, rec) in enumerate(zip(rows[1:], recs)):
        if row[0] != str(rec['date_time']):
            return V('row_time', i, got=row[0],
                     expected=str(rec['date_time']))
        for name, txt in zip(HEAD[1:], row[1:]):
            v = value(rec, name)
            why = field_wrong(name, txt, v, fmt)
            if why:
                return V('field', i, column=name, got=txt, expected=v,
                         why=why)
    return None


def value(rec, name):
    if name == 'cc_s':
        v = rec.get('cc_s', rec['cc_s_0'] + rec['cc_s_l'])
    else:
        v = rec[SRC.get(name, name)]
    if name.startswith('t_s'):
        v = v - TF
    return v


def field_wrong(name, txt, v, fmt):
    if v != v:
        return None if txt in ('', 'nan') else 'should be missing'
    if not FLT.match(txt):
        return 'not a number'
    x = float(txt)
    tol = 1e-9 if name.startswith('t_s') else 0.0
    if not fmt:
        # every digit; temperatures up to the rounding of the unit change
        fine = 2e-13 if name.startswith('t_s') else 0.0
        if not abs(x - v) <= fine + 5e-16 * abs(v):
            return 'value'
        return None
    if name.startswith('cc_s'):
        if not re.match(r'^-?\d\.\d{9}e[-+]\d\d$', txt):
            return 'format'
        if not abs(x - v) <= 5.001e-10 * max(abs(v), abs(x)) + tol:
            return 'value'
        return None
    dec = DEC[name]
    if not re.match(r'^-?\d+\.\d{%d}$' % dec, txt):
        return 'format'
    if not abs(x - v) <= 0.50001 * 10 ** -dec + tol + 1e-12 * abs(v):
        return 'value'
    return None


def table(data):
    """rows as [time text, numbers...] (a column of integer zeros is written
    without decimals, so text is not compared across runs)"""
    rows, bad = parse(data)
    if bad:
        raise ValueError(bad)
    return [[r[0]] + [float(x) if x else None for x in r[1:]]
            for r in rows[1:]]


def numbers(data):
    """output without its time column, for runs at other times"""
    return [r[1:] for r in table(data)]


# --------------------------------------------------- forcing files, free form
def forcing_text(stamps, wx, cols=None, order=None, extra=(), sep=True):
    """csv text; cols = column permutation, extra = [(name, values)]"""
    cols = list(cols) if cols is not None else list(range(len(core.COLS)))
    names = [core.COLS[c] for c in cols]
    body = []
    for i, t in enumerate(stamps):
        f = []
        for c in cols:
            x = wx[i][c]
            f.append(x if isinstance(x, str) else repr(float(x)))
        body.append([t] + f)
    for pos, name, vals in extra:
        names.insert(pos, name)
        for i, b in enumerate(body):
            b.insert(pos + 1, vals[i % len(vals)])
    if order is not None:
        body = [body[i] for i in order]
    return '\n'.join([','.join(['date_time'] + names)]
                     + [','.join(b) for b in body]) + '\n'


def wall(ts):
    return ts.strftime('%Y-%m-%d %H:%M:%S')
