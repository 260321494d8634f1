"""Progress display, timing statistics and transposed statistics of every
solver class"""
import contextlib
import io
import json
import os
import re
import time

import numpy as np

import sporco.fft as sfft
from sporco.pgm import backtrack
from rt import registry

sfft.pyfftw_threads = 1

RULE = ('A case draws a random problem and option set for a solver class, '
        'switches the status display and its header on or off, selects one '
        'of the timers for the iteration times, delays functional '
        'evaluation, residual computation and callback by known amounts, and '
        'runs one to three solve() calls with pauses in between. Everything '
        'printed is parsed and compared with the iteration statistics; times '
        'are bounded from both sides by the known delays and by bracketing '
        'clock readings. Non-trivial = distinct (class, display options, '
        'timer).')
ASSUMPTIONS = [
    'option FastSolve off',
    'numbers are printed in any notation with at least three significant '
    'digits']
EXPECT = {'header', 'rows', 'values', 'separator', 'silent', 'iter-sequence',
          'time-lower', 'time-upper', 'time-monotone', 'getitstat',
          'timer-stopped', 'fields', 'row-during-run', 'delays',
          'dl-backtrack'}

NM = registry.NAMES
FN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'display.json')


def layout_key(s):
    kw = s.kw
    return s.name + ('|%s,%s' % (kw['xmethod'], kw['dmethod'])
                     if 'xmethod' in kw else '')


def layout(s):
    """Fields of the statistics and (title, field) pairs of the display"""
    e = LAYOUT[layout_key(s)]
    fld, cols = list(e['fields']), [list(c) for c in e['columns']]
    if s.name.startswith('admm.') and 'AutoRho' in s.opt and \
            not s.opt['AutoRho', 'Enabled']:
        cols = cols[:-1]
    if s.name.startswith('pgm.') and s.opt['Backtrack'] is None:
        cols = cols[:-4]
    for step, v in (('CBPDN', 'X'), ('CCMOD', 'D')):
        if 'xmethod' in s.kw and s.kw['xmethod' if v == 'X' else 'dmethod'] \
                == 'pgm' and s.opt[step, 'Backtrack'] is not None:
            i = fld.index(v + '_L')
            fld[i:i] = [v + t for t in ('_F_Btrack', '_Q_Btrack', '_ItBt')]
            i = [c[0] for c in cols].index('L_' + v)
            cols[i:i] = [['F_' + v, v + '_F_Btrack'],
                         ['Q_' + v, v + '_Q_Btrack'], ['It_' + v, v + '_ItBt']]
    return fld, cols


def cases(tier):
    k = 40 if tier == 'quick' else 120
    return [{'kind': 'show', 'n': 10000 * j + i, 'cls': nm}
            for j, nm in enumerate(NM) for i in range(k)]


class Delay:
    """Delays a method of one object and adds up the time spent in it"""

    def __init__(self, obj, name, dt):
        self.total, self.calls = 0.0, 0
        real = getattr(obj, name, None)
        if real is None:
            return

        def slow(*a, **k):
            t0 = time.perf_counter()
            time.sleep(dt)
            r = real(*a, **k)
            self.inner = time.perf_counter() - t0
            self.total += self.inner
            self.calls += 1
            return r
        setattr(obj, name, slow)


class Out(io.StringIO):
    pass


def lines(txt):
    return txt.split('\n')[:-1] if txt.endswith('\n') else txt.split('\n')


def shown(tok, val):
    """Is tok a rounding of val?"""
    try:
        f = float(tok)
    except ValueError:
        return False
    if val is None:
        return False
    val = float(np.real(val))
    if np.isnan(val) or np.isinf(val):
        return f == val or (np.isnan(f) and np.isnan(val))
    m = re.match(r'[+-]?\d+(?:\.(\d*))?(?:[eE]([+-]?\d+))?$', tok)
    if m is None:
        return False
    unit = 10.0**(int(m.group(2) or 0) - len(m.group(1) or ''))
    if abs(f - val) > .501 * unit + 1e-12 * abs(val):
        return False
    return val == int(val) and '.' not in tok and 'e' not in tok or \
        unit <= 1.1e-2 * max(abs(val), 1e-300) or val == 0


# delays which each timer has to exclude
OUT = {'solve': (), 'solve_wo_eval': ('ev',), 'solve_wo_func': ('ev',),
       'solve_wo_rsdl': ('ev', 'rs'), 'solve_wo_btrack': ('ev', 'rs', 'bt')}

with open(FN) as _f:
    LAYOUT = json.load(_f)


def run(case, mon, rng):
    s = registry.spec(rng, case['cls'])
    dl = s.name.startswith('dl.')
    online = s.mode == 'online'
    cns = s.name.endswith('Consensus') and dl
    verb = bool(rng.random() < .75)
    head = bool(rng.random() < .6)
    s.opt['Verbose'] = verb
    s.opt['StatusHeader'] = head
    labels = ['solve', 'solve_wo_eval'] if dl else \
        ['solve', 'solve_wo_func', 'solve_wo_rsdl']
    pgm = s.name.startswith('pgm.')
    for step, m in (('CBPDN', 'xmethod'), ('CCMOD', 'dmethod')):
        if s.kw.get(m) == 'pgm' and rng.random() < .5:
            s.opt[step, 'Backtrack'] = (
                backtrack.BacktrackStandard if rng.random() < .5 else
                backtrack.BacktrackRobust)()
            mon.event('dl-backtrack', (s.name, step))
    if pgm:
        labels.append('solve_wo_btrack')
    lab = labels[int(rng.integers(len(labels)))]
    s.opt['IterTimer'] = lab
    slp = rng.random() < .6
    dcb, dev, drs = [.002 * float(rng.integers(1, 4)) if slp else 0.0
                     for _ in range(3)]
    pstop = [0.0, 0.0, .3][int(rng.integers(3))]
    log = []                   # one entry per callback
    out = Out()
    clock = {'solve': 0.0, 'start': None, 'cb': 0.0}
    delays = {}
    sparse = 'Callback' in s.opt and not online

    def done():
        """Wall time spent in solve() calls so far"""
        t = clock['solve']
        if clock['start'] is not None:
            t += time.perf_counter() - clock['start']
        return t

    def excluded():
        """Delays which the selected timer must not include"""
        return sum(delays[n].total for n in OUT[lab] if n in delays)

    def included():
        return sum(delays[n].total for n in delays if n not in OUT[lab])

    def cb(o):
        log.append((done(), excluded(), clock['cb'],
                    len(lines(out.getvalue())) if out.getvalue() else 0,
                    len(o.itstat), included()))
        time.sleep(dcb)
        clock['cb'] += dcb
        return bool(rng.random() < pstop)
    if sparse:
        s.opt['Callback'] = cb
    with contextlib.redirect_stdout(out):
        obj = s.make()
    mon.ok('silent', out.getvalue() == '', tag=s.name, got=out.getvalue())
    if slp:
        if dl and not online:
            delays['ev'] = Delay(obj, 'evaluate', dev)
        elif online:
            delays['ev'] = Delay(obj, 'iteration_stats', dev)
        elif s.name != 'admm.ParConvBPDN':
            delays['ev'] = Delay(obj, 'eval_objfn', dev)
            if pgm and dict(s.opt).get('Backtrack') is not None:
                delays['bt'] = Delay(obj.backtrack, 'update', drs)
            delays['rs'] = Delay(obj, 'compute_residuals', drs)
        if delays:
            mon.event('delays', (s.name, lab))
    nsol = int(rng.integers(1, 4))
    tags = (s.name, verb, head, lab)
    pos = 0
    first = 0
    its = obj.itstat
    wall = []
    for j in range(nsol):
        out.seek(0)
        out.truncate()
        nlog = len(log)
        t0 = obj.timer.elapsed('solve')
        with contextlib.redirect_stdout(out):
            clock['start'] = time.perf_counter()
            s.step(obj)
            clock['solve'] += time.perf_counter() - clock['start']
            clock['start'] = None
        wall.append((len(obj.itstat), clock['solve'], excluded()))
        e1 = obj.timer.elapsed('solve')
        if slp:
            time.sleep(.004)
        e2 = {v: obj.timer.elapsed(v) for v in labels}
        time.sleep(1e-4)
        mon.ok('timer-stopped', obj.timer.elapsed('solve') == e1 and
               all(obj.timer.elapsed(v) == e2[v] for v in labels), sig=tags,
               tag=tags, early=bool(pstop))
        new = list(obj.itstat)[pos:]
        ln = lines(out.getvalue()) if out.getvalue() else []
        display(mon, s, obj, ln, new, verb, head, online, tags)
        if sparse and verb:
            # the line of an iteration is there when its callback is called
            for i, r in enumerate(log[nlog:]):
                mon.ok('row-during-run', r[3] == (2 if head else 0) + i + 1,
                       tag=tags, i=i, lines=r[3])
        pos = len(obj.itstat)
    st = list(obj.itstat)
    if not st:
        mon.ok('rows', False, tag=tags, why='no statistics')
        return
    mon.ok('fields', list(st[0]._fields) == layout(s)[0],
           sig=s.name, tag=tags, got=st[0]._fields)
    mon.ok('iter-sequence', [r.Iter for r in st] == list(range(len(st))),
           sig=s.name, tag=tags)
    # ---- times
    T = [float(r.Time) for r in st]
    mon.ok('time-monotone', all(b >= a for a, b in zip([0.0] + T, T)),
           tag=tags, T=T)
    if sparse:
        for i, r in enumerate(log):
            mon.le('time-upper', T[i], r[0] - r[1], slack=1e-4, sig=tags,
                   tag=tags, i=i)
            # (the callback delays of the earlier iterations, and evaluation
            # delays if included)
            lo = r[2] + (log[i - 1][5] if i else 0.0)
            mon.le('time-lower', lo, T[i], slack=1e-4, sig=tags, tag=tags,
                   i=i)
    else:
        k = 0
        for n, w, e in wall:
            for i in range(k, n):
                mon.le('time-upper', T[i], w - (e if lab != 'solve' else 0),
                       slack=1e-4, sig=tags, tag=tags, i=i)
            k = n
    mon.le('time-upper', T[-1], obj.timer.elapsed(lab), slack=1e-5, tag=tags)
    mon.le('time-upper', obj.timer.elapsed('solve'), clock['solve'],
           slack=1e-4, tag=tags)
    # ---- transposed statistics
    g = obj.getitstat()
    ok = list(g._fields) == list(st[0]._fields)
    for f in st[0]._fields if ok else ():
        a = getattr(g, f)
        b = [getattr(r, f) for r in st]
        ok = ok and len(a) == len(b) and all(
            x is y or x == y or (x != x and y != y) for x, y in zip(a, b))
    mon.ok('getitstat', ok, sig=s.name, tag=tags)


def display(mon, s, obj, ln, new, verb, head, online, tags):
    """Compare the printed lines with the statistics"""
    if not verb:
        mon.ok('silent', not ln, sig=tags, tag=tags, got=ln[:3])
        return
    cols = layout(s)[1]
    titles = [c[0] for c in cols]
    if head and not online:
        if not mon.ok('rows', len(ln) == len(new) + 3, sig=tags, tag=tags,
                      n=len(new), got=ln[:5]):
            return
        mon.ok('header', [t for t in re.split(r'\s{2,}', ln[0].strip())] ==
               titles, sig=s.name, tag=tags, got=ln[0], want=titles)
        for v in (ln[1], ln[-1]):
            mon.ok('separator', set(v) == {'-'} and
                   len(v) >= len(ln[0].rstrip()) and len(v) == len(ln[1]),
                   sig=s.name, tag=tags, got=v, header=ln[0])
        rows = ln[2:-1]
        # the values stay below the titles
        for r in rows:
            if len(str(new[-1].Iter)) <= 3:
                mon.ok('separator', len(r) <= len(ln[1]), tag=tags, row=r,
                       sep=len(ln[1]))
    else:
        if not mon.ok('rows', len(ln) == len(new), sig=tags, tag=tags,
                      n=len(new), got=ln[:5]):
            return
        rows = ln
    for r, st in zip(rows, new):
        tok = r.split()
        ok = len(tok) == len(cols)
        bad = None
        for t, (c, f) in zip(tok, cols):
            if not shown(t, getattr(st, f)):
                ok, bad = False, (c, t, getattr(st, f))
        if ok:
            ok = tok[0] == str(st.Iter)
        mon.ok('values', ok, sig=s.name, tag=tags, row=r, bad=bad)
