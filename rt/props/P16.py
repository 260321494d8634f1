"""Batch dictionary learning (sporco.dictlrn.dictlrn, bpdndl, wbpdndl,
cbpdndl, cbpdndlmd)."""
import contextlib
import io

import numpy as np

import sporco.fft as sfft
from sporco.admm import bpdn as abpdn, cmod as acmod, cbpdn as acbpdn
from sporco.admm import ccmod as accmod, ccmodmd as accmodmd
from sporco.pgm import bpdn as pbpdn, cmod as pcmod, cbpdn as pcbpdn
from sporco.pgm import ccmod as pccmod
from sporco.pgm import backtrack as spb, momentum as spm
from sporco.dictlrn import dictlrn, bpdndl, wbpdndl, cbpdndl, cbpdndlmd
from rt import csc, gen
from rt.props.P13 import rand_mask

sfft.pyfftw_threads = 1

RULE = ('A case draws a dictionary learning problem, a pair of sparse coding '
        'and dictionary update methods and their options, runs one or more '
        'solve() calls while recording the state after each outer iteration, '
        'and compares the recorded history with one obtained by explicitly '
        'alternating independent solver objects; the recorded state is also '
        'checked against an independent model (constraint set, functional '
        'values, hand-over of coefficients and dictionary). Non-trivial = '
        'distinct (problem, method pair, geometry, options class).')
ASSUMPTIONS = ['the inner solvers themselves are judged by P08-P15',
               'spatial sizes up to 8 per axis, at most 4 filters']
EXPECT = {'history-x', 'history-d', 'handover-coef', 'handover-dict',
          'feasible', 'support', 'stats-map', 'objective', 'split-same',
          'verbose-same', 'callback-stop', 'outer-order', 'getdict',
          'reconstruct', 'inputs-unchanged', 'iter-count', 'initial-dict',
          'solve-return', 'zero-mean'}

KINDS = ['proto', 'dense', 'wdense', 'conv', 'conv', 'conv', 'mask', 'mask',
         'mask']


def cases(tier):
    k = 440 if tier == 'quick' else 1000
    return [{'kind': kd, 'n': i + 10000 * j} for j, kd in enumerate(KINDS)
            for i in range(k)]


def run(case, mon, rng):
    k = case['kind']
    if k == 'proto':
        return run_proto(mon, rng)
    if k in ('dense', 'wdense'):
        return run_dense(mon, rng, k)
    return run_conv(mon, rng, k)


# --------------------------------------------------------------------------
class _Step:
    def __init__(self, name, log, fast):
        self.name, self.log, self.n = name, log, 0
        self.itstat = []
        import collections
        self.IterationStats = collections.namedtuple('IterationStats', [
            'Iter', 'ObjFun', 'DFid', 'PrimalRsdl', 'DualRsdl', 'Rho',
            'Time'])
        self.fast = fast
        self.val = None

    def solve(self):
        self.n += 1
        self.log.append(self.name + '.solve')
        if not self.fast:
            self.itstat.append(self.IterationStats(*[
                self.n + .1 * i + (100 if self.name == 'd' else 0)
                for i in range(7)]))

    def getcoef(self):
        return ('coef', self.n)

    def setcoef(self, v):
        self.log.append('d.setcoef')
        self.val = v

    def getdict(self):
        return ('dict', self.n)

    def setdict(self, v):
        self.log.append('x.setdict')
        self.val = v


def run_proto(mon, rng):
    """The generic alternation with mock steps"""
    log = []
    fx, fd = rng.random() < .2, rng.random() < .2
    x, d = _Step('x', log, fx), _Step('d', log, fd)
    N = int(rng.integers(1, 6))
    stop = int(rng.integers(0, 8)) if rng.random() < .4 else None
    seen = []

    def cb(obj):
        log.append('callback')
        seen.append(obj.j)
        mon.ok('outer-order', x.val == ('dict', d.n) and
               d.val == ('coef', x.n) and x.n == d.n)
        return stop is not None and obj.j >= stop
    opt = dictlrn.DictLearn.Options({
        'MaxMainIter': N, 'Callback': cb, 'Verbose': bool(rng.random() < .5),
        'StatusHeader': bool(rng.random() < .7)})
    obj = dictlrn.DictLearn(x, d, opt)
    tot = 0
    for h in range(int(rng.integers(1, 4))):
        log.clear()
        with contextlib.redirect_stdout(io.StringIO()):
            r = obj.solve()
        n = N if stop is None else max(1, min(N, stop + 1 - tot))
        tot += n
        mon.ok('outer-order', log == ['x.solve', 'd.setcoef', 'd.solve',
                                      'x.setdict', 'callback'] * n, log=log)
        mon.ok('callback-stop', len(seen) == tot and seen ==
               list(range(tot)), seen=seen, stop=stop, N=N)
        mon.ok('iter-count', len(obj.itstat) == tot and obj.j == tot)
        mon.ok('solve-return', r == ('dict', d.n) and obj.getdict() == r and
               obj.getcoef() == ('coef', x.n))
    for j, s in enumerate(obj.itstat):
        mon.ok('stats-map', s.Iter == j)
        xs = x.itstat[j] if not fx else None
        ds = d.itstat[j] if not fd else None
        for f, (src, g) in {'ObjFunX': (xs, 'ObjFun'),
                            'XPrRsdl': (xs, 'PrimalRsdl'),
                            'XDlRsdl': (xs, 'DualRsdl'),
                            'XRho': (xs, 'Rho'), 'ObjFunD': (ds, 'DFid'),
                            'DPrRsdl': (ds, 'PrimalRsdl'),
                            'DDlRsdl': (ds, 'DualRsdl'),
                            'DRho': (ds, 'Rho')}.items():
            mon.ok('stats-map', getattr(s, f) == (
                0.0 if src is None else getattr(src, g)), field=f)
    its = obj.getitstat()
    mon.ok('stats-map', list(its.Iter) == list(range(tot)))


# --------------------------------------------------------------------------
class Cfg:
    """What the generic driver needs to know about one learning problem"""
    rv = False


def state(xs, ds):
    out = {}
    for nm, s in (('x', xs), ('d', ds)):
        for f in ('X', 'Y', 'U', 'Xf', 'Yf', 'rho', 'L', 'U1', 'Y1'):
            v = getattr(s, f, None)
            if v is not None:
                out[nm + '.' + f] = np.array(v)
    return out


def same(a, b, tol, only=None):
    """Largest relative difference of two states"""
    w, at = 0.0, None
    if set(a) != set(b):
        return np.inf, sorted(set(a) ^ set(b))
    sc = max([np.max(np.abs(v), initial=0) for k, v in a.items()
              if k.split('.')[1] in 'XYU'] + [1e-12])
    for k in a:
        if only and not k.startswith(only):
            continue
        if a[k].shape != b[k].shape:
            return np.inf, k
        s = max(np.max(np.abs(a[k]), initial=0), 1e-3 * sc)
        d = np.max(np.abs(a[k] - b[k]), initial=0) / s
        if not d <= w:
            w, at = float(d), k
    return w, at


def drive(mon, rng, c):
    """c.make(opts) -> learner; c.manual() -> (xstep, dstep); c.feas(mon, D);
    c.objective(D, X) -> (dfid, reg); c.model(D, X) -> reconstruction"""
    tol = 1e-7 if c.dtype == np.float64 else 2e-2
    N = int(rng.integers(1, 6))
    stop = int(rng.integers(0, 5)) if rng.random() < .2 else None
    recs, sts = [], []

    def cb(obj):
        recs.append(dict(D=np.array(obj.getdict()),
                         X=np.array(obj.getcoef()), j=obj.j))
        # the functional is that of the sparse variable, whichever of the
        # two variables is the one returned and handed over
        recs[-1]['Xe'] = np.array(obj.xstep.var_y()) if c.rv else \
            recs[-1]['X']
        sts.append(state(obj.xstep, obj.dstep))
        z = np.array(obj.dstep.Z).ravel()
        gx = np.array(obj.getcoef()).ravel()
        mon.ok('handover-coef', z.size == gx.size and np.array_equal(z, gx),
               tag=c.tag)
        xd = np.array(obj.xstep.D).ravel()
        mon.ok('handover-dict', np.array_equal(xd, recs[-1]['D'].ravel()),
               tag=c.tag)
        c.feas(mon, recs[-1]['D'], np.array(c.dfull(obj)))
        return stop is not None and obj.j >= stop
    cp = [np.array(a) for a in c.arrays]
    obj = c.make({'MaxMainIter': N, 'Callback': cb})
    # the initial dictionary is feasible and is what both steps start from
    mon.close('initial-dict', np.array(obj.xstep.D).ravel(),
              c.D0n.ravel(), rtol=0, atol=tol, tag=c.tag)
    xs, ds = c.manual()
    xdict = [np.array(xs.D, dtype=float)]
    solves = int(rng.integers(1, 3))
    good = True
    for h in range(solves):
        n0 = len(recs)
        ret = obj.solve()
        n = N if stop is None else max(1, min(N, stop + 1 - n0))
        mon.ok('iter-count', len(recs) == n0 + n and
               [r['j'] for r in recs[n0:]] == list(range(n0, n0 + n)) and
               len(obj.itstat) == n0 + n, tag=c.tag)
        if stop is not None:
            mon.ok('callback-stop', len(recs) == n0 + n)
        mon.close('solve-return', ret, recs[-1]['D'], rtol=0, atol=0)
        for j in range(n0, n0 + n):
            xs.solve()
            ds.setcoef(xs.getcoef())
            ds.solve()
            xs.setdict(ds.getdict())
            xdict.append(np.array(ds.getdict(), dtype=float))
            s2 = state(xs, ds)
            big = max(np.max(np.abs(v), initial=0) for v in s2.values())
            if not big < 1e6:
                mon.event('history-extreme')
                good = False
                break
            if good and bt_tie(obj, xs, ds, c.mag):
                mon.event('backtracking-tie')
                good = False
            if good:
                for nm in ('x', 'd'):
                    w, at = same(sts[j], s2, tol, nm + '.')
                    mon.le('history-' + nm, w, tol, sig=c.tag, at=at, j=j)
        if not good:
            return
    # -- statistics --------------------------------------------------------
    for j, s in enumerate(obj.itstat):
        mon.ok('stats-map', s.Iter == j)
        xi, di = xs.itstat, ds.itstat
        if len(obj.xstep.itstat) == len(xi):
            # the last inner iteration of outer iteration j
            kx = c.last_of(obj.xstep.itstat, c.nix, j)
            kd = c.last_of(obj.dstep.itstat, c.nid, j)
            for f, g in c.xmap.items():
                mon.ok('stats-map', eq(getattr(s, f), getattr(
                    obj.xstep.itstat[kx], g)), field=f, tag=c.tag)
            for f, g in c.dmap.items():
                mon.ok('stats-map', eq(getattr(s, f), getattr(
                    obj.dstep.itstat[kd], g)), field=f, tag=c.tag)
        D, X = recs[j]['D'], recs[j]['Xe']
        if c.accurate:
            d, r = c.objective(D.astype(float), X.astype(float))
        elif c.plain_x:
            d, r = c.objective(xdict[j], X.astype(float))
        else:
            continue
        t = 1e-7 if c.dtype == np.float64 else 3e-3
        m = c.mag + d
        how = 'acc' if c.accurate else 'x'
        mon.close('objective', s.DFid, d, rtol=0, atol=t * m, sig='%s/%s' % (
            c.tag, how), tag=c.tag, j=j, how=how)
        mon.close('objective', s.RegL1, r, rtol=t, atol=t, tag=c.tag,
                  how=how)
        lm = float(obj.xstep.lmbda)
        mon.close('objective', s.ObjFun, d + lm * r, rtol=0,
                  atol=t * (m + lm * r), tag=c.tag, how=how)
    c.extra(mon, obj, recs[-1])
    for a, b in zip(c.arrays, cp):
        mon.ok('inputs-unchanged', np.array_equal(a, b), tag=c.tag)
    # -- equivalent histories ----------------------------------------------
    if rng.random() < .4:
        n = int(rng.integers(2, 5))
        hs = []
        for kw, rep in (({'MaxMainIter': n}, 1), ({'MaxMainIter': 1}, n),
                        ({'MaxMainIter': n, 'Verbose': True}, 1)):
            hh = []
            b = c.make(dict(kw, Callback=lambda o: hh.append(state(
                o.xstep, o.dstep)) and None))
            with contextlib.redirect_stdout(io.StringIO()):
                for _ in range(rep):
                    b.solve()
            hs.append(hh)
        for nm, h in (('split-same', hs[1]), ('verbose-same', hs[2])):
            mon.ok(nm, len(h) == len(hs[0]) and all(
                same(p, q, tol)[0] <= tol for p, q in zip(h, hs[0])),
                   tag=c.tag)


def bt_tie(obj, xs, ds, mag):
    """True if the runs took different step sizes although the values
    compared by the backtracking test were equal to within rounding"""
    for a, b in ((obj.xstep, xs), (obj.dstep, ds)):
        n = len(b.itstat)
        if 'F_Btrack' not in getattr(b.itstat[0], '_fields', ()):
            continue
        t = 1e-9 if b.dtype == np.float64 else 1e-3
        for i in range(min(n, len(a.itstat))):
            p, q = a.itstat[i], b.itstat[i]
            if p.F_Btrack is None or p.L == q.L:
                continue
            # the test flips at the last doubling tried by either run
            s = min((p, q), key=lambda v: v.L)
            return abs(s.F_Btrack - s.Q_Btrack) <= t * (
                mag + abs(s.F_Btrack))
    return False


def eq(a, b):
    if a is None or b is None:
        return a is b
    return a == b or (a != a and b != b)


def last_of(its, ni, j):
    """Index of the last inner iteration of outer iteration j; inner stopping
    is switched off, so that each inner solve has ni iterations"""
    return (j + 1) * ni - 1


def run_dense(mon, rng, kind):
    c = Cfg()
    w = kind == 'wdense'
    c.dtype = dt = np.float64 if rng.random() < .8 else np.float32
    n, k, m = (int(rng.integers(2, 8)), int(rng.integers(2, 8)),
               int(rng.integers(2, 9)))
    D0 = gen.layout(rng, rng.standard_normal((n, k)).astype(dt) * 3)
    S = gen.layout(rng, rng.standard_normal((n, m)).astype(dt))
    lm = float(dt(rng.choice([.05, .2])))
    zm, nn = bool(rng.random() < .3), False
    wl = 1.0
    bo, co = {'RelStopTol': 0.0}, {'RelStopTol': 0.0}
    c.nix, c.nid = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    bo['MaxMainIter'], co['MaxMainIter'] = c.nix, c.nid
    if zm:
        co['ZeroMean'] = True
    if rng.random() < .4:
        wl = rng.uniform(.2, 2, (k, m)).astype(dt)
        bo['L1Weight'] = wl
    if rng.random() < .3:
        bo['NonNegCoef'] = True
    c.accurate = bool(rng.random() < .5)
    W, w2 = None, np.ones((1, 1))
    D0n = D0.astype(float)
    if zm:
        D0n = D0n - D0n.mean(0)
    if w:
        if not zm and rng.random() < .3:
            co['NonNegCoef'] = nn = True
            D0n = np.maximum(D0n, 0)
        if rng.random() < .8:
            W = rng.uniform(0, 2, (n, m)) if rng.random() < .5 else (
                rng.random((n, m)) < .6)
            W = gen.mtype(rng, W.astype(dt))
            w2 = W.astype(float)
        if rng.random() < .2:
            bo['Backtrack'] = spb.BacktrackStandard()
        bo['L'], co['L'] = 60.0 * 2, 80.0
    else:
        bo['rho'] = float(rng.choice([1.0, 5.0]))
        co['rho'] = float(rng.choice([.5, 2.0]))
        if rng.random() < .2:
            bo['ReturnX'] = True
            c.rv = True
        bo['AbsStopTol'] = co['AbsStopTol'] = 0.0
        if rng.random() < .4:
            for o in (bo, co):
                o['AutoRho'] = {'Enabled': bool(rng.random() < .6)}
        if rng.random() < .3:
            bo['AuxVarObj'] = bool(rng.random() < .5)
    nv = np.linalg.norm(D0n, axis=0)
    c.D0n = D0n / np.where(nv == 0, 1, nv)
    c.tag = '%s/%s' % (kind, np.dtype(dt).name)
    c.arrays = [D0, S] + ([] if W is None else [W])
    c.last_of = last_of
    base = {'AccurateDFid': c.accurate, 'BPDN': bo, 'CMOD': co}
    cls = wbpdndl.WeightedBPDNDictLearn if w else bpdndl.BPDNDictLearn
    lmarg = lm if rng.random() < .85 else None

    def make(o):
        opt = cls.Options(dict(base, **o))
        if w:
            return cls(D0, S, lmarg, W, opt)
        return cls(D0, S, lmarg, opt)

    def manual():
        opt = cls.Options(base)
        D = c.D0n.astype(dt)
        if w:
            opt['CMOD'].update({'X0': D})
            x = pbpdn.WeightedBPDN(D, S, lmarg, W, opt['BPDN'])
            d = pcmod.WeightedCnstrMOD(None, S, W, (k, m), opt['CMOD'])
        else:
            opt['CMOD'].update({'Y0': D, 'U0': np.zeros((n, k), dt)})
            x = abpdn.BPDN(D, S, lmarg, opt['BPDN'])
            d = acmod.CnstrMOD(None, S, (k, m), opt['CMOD'])
        return x, d
    c.make, c.manual = make, manual
    c.dfull = lambda o: o.getdict()
    Sd = S.astype(float)
    c.mag = np.sum(w2 * Sd**2)
    c.objective = lambda D, X: (.5 * np.sum(w2 * (D @ X - Sd)**2),
                                np.sum(np.abs(wl * X)))
    c.plain_x = w or bo.get('AuxVarObj', True)

    def feas(mon, D, full):
        D = D.astype(float)
        nv = np.linalg.norm(D, axis=0)
        tl = 1e-7 if dt == np.float64 else 1e-3
        mon.ok('feasible', np.all((np.abs(nv - 1) < tl) | (nv == 0)),
               tag=c.tag, nv=nv)
        if zm and dt == np.float64:
            mon.close('zero-mean', D.mean(0), 0 * D.mean(0), rtol=0,
                      atol=1e-6)
        if nn:
            mon.ok('feasible', np.all(D >= 0), tag=c.tag + '/nn')
    c.feas = feas
    if w:
        c.xmap = {'XRsdl': 'Rsdl', 'XL': 'L'}
        c.dmap = {'Cnstr': 'Cnstr', 'DRsdl': 'Rsdl', 'DL': 'L'}
    else:
        c.xmap = {'XPrRsdl': 'PrimalRsdl', 'XDlRsdl': 'DualRsdl',
                  'XRho': 'Rho'}
        c.dmap = {'Cnstr': 'Cnstr', 'DPrRsdl': 'PrimalRsdl', 'DDlRsdl':
                  'DualRsdl', 'DRho': 'Rho'}
    if not c.accurate:
        c.xmap.update({'ObjFun': 'ObjFun', 'DFid': 'DFid', 'RegL1': 'RegL1'})

    def extra(mon, obj, rec):
        mon.close('getdict', obj.getdict(), rec['D'], rtol=0, atol=0)
    c.extra = extra
    drive(mon, rng, c)


def run_conv(mon, rng, kind):
    c = Cfg()
    mask = kind == 'mask'
    c.dtype = dt = np.float64 if rng.random() < .85 else np.float32
    g = csc.Geo(rng, dt, dimK_arg=True)
    dn, axC, axK, axM = g.dimN, g.dimN, g.dimN + 1, g.dimN + 2
    xm = str(rng.choice(['admm', 'pgm']))
    dm = str(rng.choice(['ism', 'cg', 'cns', 'pgm']))
    D0 = gen.layout(rng, (rng.standard_normal(g.D.shape) * 2).astype(dt))
    S = gen.layout(rng, (rng.standard_normal(g.S.shape)).astype(dt))
    Sd = S.astype(float).reshape(g.sshape)
    lm = float(dt(rng.choice([.05, .2])))
    bo, co = {'RelStopTol': 0.0}, {'RelStopTol': 0.0}
    c.nix, c.nid = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    bo['MaxMainIter'], co['MaxMainIter'] = c.nix, c.nid
    zm = bool(rng.random() < .3)
    if zm:
        co['ZeroMean'] = True
    wl = 1.0
    if rng.random() < .4:
        sh = tuple(n if rng.random() < .6 else 1 for n in g.xshape)
        wl = rng.uniform(.2, 2, sh).astype(dt)
        bo['L1Weight'] = wl
        wl = wl.astype(float)
    if rng.random() < .25:
        bo['NonNegCoef'] = True
    if rng.random() < .25:
        bo['NoBndryCross'] = True
    if xm == 'pgm':
        bo['L'] = 20.0 * g.M * g.Cd
        if rng.random() < .25:
            bo['Backtrack'] = spb.BacktrackStandard() if rng.random() < .5 \
                else spb.BacktrackRobust()
        elif rng.random() < .4:
            bo['Momentum'] = spm.MomentumLinear()
    else:
        bo['rho'] = float(rng.choice([1.0, 5.0]))
        bo['AbsStopTol'] = 0.0
        if not mask and rng.random() < .2:
            bo['ReturnX'] = True
            c.rv = True
        if rng.random() < .3:
            bo['AutoRho'] = {'Enabled': bool(rng.random() < .7)}
        if rng.random() < .3:
            bo['AuxVarObj'] = bool(rng.random() < .5)
    if dm == 'pgm':
        co['L'] = 60.0 * g.K * g.C
        if rng.random() < .25:
            co['Backtrack'] = spb.BacktrackStandard() if rng.random() < .5 \
                else spb.BacktrackRobust()
    else:
        co['rho'] = float(rng.choice([1.0, 5.0]))
        co['AbsStopTol'] = 0.0
        if rng.random() < .3:
            co['AutoRho'] = {'Enabled': bool(rng.random() < .7)}
        if dm == 'cg':
            co['CG'] = {'StopTol': 1e-9 if dt == np.float64 else 1e-5}
    c.accurate = bool(rng.random() < .5)
    W, w2 = None, 1.0
    if mask:
        Wi = rand_mask(rng, g, dt)
        w2 = Wi.astype(float)**2
        W = Wi
        if rng.random() < .6 and not (dm == 'pgm'):
            W = Wi.reshape(g.Nv + ((Wi.shape[dn],) if g.dC else ()) +
                           ((Wi.shape[dn + 1],) if g.dK else ()))
        W = gen.mtype(rng, W)
    c.tag = '%s/%s/%s/%s/%s' % (kind, xm, dm, g.desc(), np.dtype(dt).name)
    c.last_of = last_of
    base = {'AccurateDFid': c.accurate, 'CBPDN': bo, 'CCMOD': co}
    # filter supports, possibly of different sizes
    supp = np.zeros(g.dsz + (1, 1, g.M))
    dszs = [g.dsz] * g.M
    dsz = D0.shape
    if g.M > 1 and rng.random() < .35:
        m1 = int(rng.integers(1, g.M))
        small = tuple(int(rng.integers(1, n + 1)) for n in g.dsz)
        ch = (g.Cd,) if g.Cd > 1 else ()
        dsz = (small + ch + (m1,), g.dsz + ch + (g.M - m1,))
        dszs = [small] * m1 + [g.dsz] * (g.M - m1)
        base['DictSize'] = dsz
    for i, s in enumerate(dszs):
        supp[tuple(slice(0, q) for q in s) + (0, 0, i)] = 1
    sp = tuple(range(dn))

    def proj(D):       # (dsz, Cd, 1, M)
        D = D * supp
        if zm:
            D = supp * (D - np.sum(D, axis=sp, keepdims=True) / np.sum(
                supp, axis=sp, keepdims=True))
        n = np.sqrt(np.sum(D**2, axis=sp + (axC,), keepdims=True))
        return D / np.where(n == 0, 1.0, n)
    c.D0n = proj(D0.astype(float).reshape(g.Di.shape))
    c.arrays = [D0, S] + ([] if W is None else [W])
    mod, cls = ((cbpdndlmd, cbpdndlmd.ConvBPDNMaskDictLearn) if mask else
                (cbpdndl, cbpdndl.ConvBPDNDictLearn))
    lmarg = lm if mask or rng.random() < .85 else None

    def make(o):
        opt = cls.Options(dict(base, **o), xmethod=xm, dmethod=dm)
        kw = dict(g.kw)
        if rng.random() < .5:
            kw.update(xmethod=xm, dmethod=dm)
        if mask:
            return cls(D0, S, lmarg, W, opt, **kw)
        return cls(D0, S, lmarg, opt, **kw)

    def manual():
        opt = cls.Options(base, xmethod=xm, dmethod=dm)
        D = c.D0n.astype(dt)
        full = np.zeros(g.Nv + (g.Cd, 1, g.M), dt)
        full[tuple(slice(0, q) for q in g.dsz)] = D
        Y0 = full
        if mask and dm in ('ism', 'cg'):
            nb = g.K * (g.C if g.Cd == 1 else 1)
            Y0 = np.concatenate((np.zeros(g.Nv + (g.Cd, 1, nb), dt), full),
                                axis=axM)
        opt['CCMOD'].update({'X0' if dm == 'pgm' else 'Y0': Y0})
        Dx = D.reshape(D0.shape)
        if not mask:
            xc = {'admm': acbpdn, 'pgm': pcbpdn}[xm].ConvBPDN
            x = xc(Dx, S, lmarg, opt['CBPDN'], **g.kw)
            dc = {'ism': accmod.ConvCnstrMOD_IterSM,
                  'cg': accmod.ConvCnstrMOD_CG,
                  'cns': accmod.ConvCnstrMOD_Consensus,
                  'pgm': pccmod.ConvCnstrMOD}[dm]
            return x, dc(None, S, dsz, opt['CCMOD'], **g.kw)
        xc = {'admm': acbpdn.ConvBPDNMaskDcpl,
              'pgm': pcbpdn.ConvBPDNMask}[xm]
        x = xc(Dx, S, lmarg, W, opt['CBPDN'], **g.kw)
        dc = {'ism': accmodmd.ConvCnstrMODMaskDcpl_IterSM,
              'cg': accmodmd.ConvCnstrMODMaskDcpl_CG,
              'cns': accmodmd.ConvCnstrMODMaskDcpl_Consensus,
              'pgm': pccmod.ConvCnstrMODMask}[dm]
        return x, dc(None, S, W, dsz, opt['CCMOD'], **g.kw)
    c.make, c.manual = make, manual
    c.dfull = lambda o: o.getdict(crop=False)

    def model(D, X):
        F = np.fft.fftn(D.reshape(g.Di.shape), g.Nv, axes=g.axN)
        return np.fft.ifftn(np.sum(F * np.fft.fftn(X.reshape(
            g.xshape), axes=g.axN), axis=axM, keepdims=True),
            axes=g.axN).real
    c.mag = np.sum(Sd**2)
    c.objective = lambda D, X: (
        .5 * np.sum(w2 * (model(D, X) - Sd)**2),
        np.sum(np.abs(wl * X.reshape(g.xshape))))
    # statistics of the coefficient step evaluated at the coefficients
    c.plain_x = xm == 'pgm' or (not mask and bo.get('AuxVarObj', True) and
                                'AuxVarObj' in bo)

    def feas(mon, D, full):
        D = D.astype(float).reshape(g.Di.shape)
        nv = np.sqrt(np.sum(D**2, axis=sp + (axC,)))
        tl = 1e-7 if dt == np.float64 else 1e-3
        mon.ok('feasible', np.all((np.abs(nv - 1) < tl) | (nv == 0)),
               tag=c.tag, nv=nv)
        mon.ok('support', not np.any(D[np.broadcast_to(
            supp == 0, D.shape)]), tag=c.tag)
        z = np.array(full, float)
        cr = z[tuple(slice(0, q) for q in g.dsz)].reshape(D.shape)
        mon.ok('getdict', np.array_equal(cr, D), tag=c.tag)
        z[tuple(slice(0, q) for q in g.dsz)] = 0
        mon.ok('support', not np.any(z), tag=c.tag + '/full')
        if zm and dt == np.float64:
            mx = np.sum(D, axis=sp)
            mon.close('zero-mean', mx, 0 * mx, rtol=0, atol=1e-6)
    c.feas = feas
    if xm == 'admm':
        c.xmap = {'XPrRsdl': 'PrimalRsdl', 'XDlRsdl': 'DualRsdl',
                  'XRho': 'Rho'}
    else:
        c.xmap = {'X_L': 'L', 'X_Rsdl': 'Rsdl'}
        if 'Backtrack' in bo:
            c.xmap.update({'X_F_Btrack': 'F_Btrack',
                           'X_Q_Btrack': 'Q_Btrack', 'X_ItBt': 'IterBTrack'})
    if dm != 'pgm':
        c.dmap = {'DPrRsdl': 'PrimalRsdl', 'DDlRsdl': 'DualRsdl',
                  'DRho': 'Rho'}
    else:
        c.dmap = {'D_L': 'L', 'D_Rsdl': 'Rsdl'}
        if 'Backtrack' in co:
            c.dmap.update({'D_F_Btrack': 'F_Btrack',
                           'D_Q_Btrack': 'Q_Btrack', 'D_ItBt': 'IterBTrack'})
    c.dmap['Cnstr'] = 'Cnstr'
    if not c.accurate:
        c.xmap.update({'ObjFun': 'ObjFun', 'DFid': 'DFid', 'RegL1': 'RegL1'})

    def extra(mon, obj, rec):
        tl = 1e-8 if dt == np.float64 else 2e-3
        ref = model(rec['D'].astype(float), rec['X'].astype(float))
        r = np.asarray(obj.reconstruct())
        mon.close('reconstruct', r.reshape(ref.shape), ref, rtol=0,
                  atol=tl * (1 + np.max(np.abs(ref))), tag=c.tag)
        X2 = rng.standard_normal(g.xshape).astype(dt)
        ref = model(rec['D'].astype(float), X2.astype(float))
        r = np.asarray(obj.reconstruct(X=X2))
        mon.close('reconstruct', r.reshape(ref.shape), ref, rtol=0,
                  atol=tl * (1 + np.max(np.abs(ref))), tag=c.tag)
    c.extra = extra
    drive(mon, rng, c)
