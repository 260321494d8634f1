"""ADMM framework: iteration protocol of the base classes, observed through
user-defined subclasses."""
import copy
import io
import contextlib

import numpy as np

from sporco.admm import admm
from rt.core import Skip
from rt import gen
from rt import admm_mon as am

RULE = ('A case draws a random dense convex problem, a user-defined subclass '
        'of one of the ADMM base classes, an option set (relaxation, penalty '
        'adaptation, residual type, tolerances, initial values, data type) and '
        'an event history (solve calls, callback stop, FastSolve); every '
        'iteration is recorded via the callback. Non-trivial = distinct '
        '(class, option set, penalty decision).')
ASSUMPTIONS = ['x and y steps of the user subclass are exact (dense solves)',
               'penalty decisions within rounding of a threshold are not '
               'judged']
EXPECT = {'xstep', 'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual', 'eps-primal',
          'eps-dual', 'rho-update', 'rho-unchanged', 'no-late-stop',
          'no-early-stop', 'callback-stop', 'itstat-objfn', 'itstat-iter',
          'split-same', 'fastsolve-same', 'opt-unchanged', 'init-unchanged',
          'kkt', 'verbose-same', 'itstat-table', 'timer', 'interleaved-same',
          'consensus-ystep', 'consensus-rsdl', 'init-honoured', 'getmin'}


def soft(v, t):
    a = np.abs(v)
    with np.errstate(all='ignore'):
        return np.where(a > t, (1 - t / np.where(a > 0, a, 1)) * v, 0 * v)


class UADMM(admm.ADMM):
    class Options(admm.ADMM.Options):
        defaults = copy.deepcopy(admm.ADMM.Options.defaults)

        def __init__(self, opt=None):
            admm.ADMM.Options.__init__(self, {} if opt is None else opt)

    def __init__(self, F, s, A, c, sB, lmbda, opt):
        self.F, self.s, self.Am, self.cv, self.sB = F, s, A, c, sB
        self.lmbda = lmbda
        super(UADMM, self).__init__(A.shape[1], (A.shape[0],), (A.shape[0],),
                                    s.dtype, opt)

    def xstep(self):
        M = self.F.T.dot(self.F) + self.rho * self.Am.T.dot(self.Am)
        b = self.F.T.dot(self.s) - self.rho * self.Am.T.dot(
            self.sB * self.Y - self.cv + self.U)
        self.X = np.linalg.solve(M, b).astype(self.dtype)

    def ystep(self):
        self.Y = soft(-self.sB * (self.AX - self.cv + self.U),
                      self.lmbda / self.rho).astype(self.dtype)

    def cnst_A(self, X):
        return self.Am.dot(X)

    def cnst_AT(self, Y):
        return self.Am.T.dot(Y)

    def cnst_B(self, Y):
        return self.sB * Y

    def cnst_c(self):
        return self.cv

    def obfn_f(self, X):
        return 0.5 * np.sum((self.F.dot(X) - self.s)**2)

    def obfn_g(self, Y):
        return self.lmbda * np.sum(np.abs(Y))


class UEqual(admm.ADMMEqual):
    class Options(admm.ADMMEqual.Options):
        defaults = copy.deepcopy(admm.ADMMEqual.Options.defaults)

        def __init__(self, opt=None):
            admm.ADMMEqual.Options.__init__(self, {} if opt is None else opt)

    def __init__(self, F, s, lmbda, opt):
        self.F, self.s, self.lmbda = F, s, lmbda
        super(UEqual, self).__init__((F.shape[1],), s.dtype, opt)

    def xstep(self):
        M = self.F.T.dot(self.F) + self.rho * np.eye(self.F.shape[1])
        b = self.F.T.dot(self.s) + self.rho * (self.Y - self.U)
        self.X = np.linalg.solve(M, b).astype(self.dtype)

    def ystep(self):
        self.Y = soft(self.AX + self.U, self.lmbda / self.rho).astype(
            self.dtype)

    def obfn_f(self, X):
        return 0.5 * np.sum((self.F.dot(X) - self.s)**2)

    def obfn_g(self, Y):
        return self.lmbda * np.sum(np.abs(Y))


class UTwo(admm.ADMMTwoBlockCnstrnt):
    """min mu/2 ||x||^2 + 1/2||y0||^2 w + lmbda ||y1||_1,  blocks on the
    second axis of a 2-d Y array"""
    class Options(admm.ADMMTwoBlockCnstrnt.Options):
        defaults = copy.deepcopy(admm.ADMMTwoBlockCnstrnt.Options.defaults)

        def __init__(self, opt=None):
            admm.ADMMTwoBlockCnstrnt.Options.__init__(
                self, {} if opt is None else opt)

    def __init__(self, A0, A1, c0, c1, mu, w, lmbda, opt):
        self.A0, self.A1, self.c0v, self.c1v = A0, A1, c0, c1
        self.mu, self.w, self.lmbda = mu, w, lmbda
        n = A0.shape[1]
        K = c0.shape[0]
        super(UTwo, self).__init__(K * n, (K, A0.shape[0] + A1.shape[0]), 1,
                                   A0.shape[0], c0.dtype, opt)

    def xstep(self):
        M = (self.mu / self.rho) * np.eye(self.A0.shape[1]) + \
            self.A0.T.dot(self.A0) + self.A1.T.dot(self.A1)
        V0 = self.block_sep0(self.Y - self.U) + self.c0v
        V1 = self.block_sep1(self.Y - self.U) + self.c1v
        self.X = np.linalg.solve(M, (V0.dot(self.A0) + V1.dot(self.A1)).T
                                 ).T.astype(self.dtype)

    def ystep(self):
        V = self.AX + self.U
        V0 = self.block_sep0(V) - self.c0v
        V1 = self.block_sep1(V) - self.c1v
        Y0 = self.rho * V0 / (self.w + self.rho)
        Y1 = soft(V1, self.lmbda / self.rho)
        self.Y = self.block_cat(Y0, Y1).astype(self.dtype)

    def cnst_A0(self, X):
        return X.dot(self.A0.T)

    def cnst_A0T(self, Y0):
        return Y0.dot(self.A0)

    def cnst_A1(self, X):
        return X.dot(self.A1.T)

    def cnst_A1T(self, Y1):
        return Y1.dot(self.A1)

    def cnst_c0(self):
        return self.c0v

    def cnst_c1(self):
        return self.c1v

    def obfn_f(self, X):
        return 0.5 * self.mu * np.sum(X**2)

    def obfn_g0(self, Y0):
        return 0.5 * self.w * np.sum(Y0**2)

    def obfn_g1(self, Y1):
        return self.lmbda * np.sum(np.abs(Y1))


class _CnsMix(object):
    def xistep(self, i):
        w = self.alpha[i] if hasattr(self, 'alpha') else 1.0
        if self.X is None:
            self.X = np.zeros(self.xshape, dtype=self.dtype)
        # minimise w f_i(x) + w rho/2 ||x - y + u_i||^2
        M = self.F[i].T.dot(self.F[i]) + self.rho * np.eye(
            self.F[i].shape[1])
        b = self.F[i].T.dot(self.s[i]) + self.rho * (self.Y - self.U[..., i])
        self.X[..., i] = np.linalg.solve(M, b)

    def prox_g(self, X, rho):
        return soft(X, self.lmbda / rho)

    def obfn_fi(self, X, i):
        return 0.5 * np.sum((self.F[i].dot(X) - self.s[i])**2)

    def obfn_g(self, Y):
        return self.lmbda * np.sum(np.abs(Y))


class UCns(_CnsMix, admm.ADMMConsensus):
    class Options(admm.ADMMConsensus.Options):
        defaults = copy.deepcopy(admm.ADMMConsensus.Options.defaults)

        def __init__(self, opt=None):
            admm.ADMMConsensus.Options.__init__(
                self, {} if opt is None else opt)

    def __init__(self, F, s, lmbda, opt):
        self.F, self.s, self.lmbda = F, s, lmbda
        super(UCns, self).__init__(len(F), (F[0].shape[1],), s[0].dtype, opt)


class UWCns(_CnsMix, admm.WeightedADMMConsensus):
    class Options(admm.WeightedADMMConsensus.Options):
        defaults = copy.deepcopy(admm.WeightedADMMConsensus.Options.defaults)

        def __init__(self, opt=None):
            admm.WeightedADMMConsensus.Options.__init__(
                self, {} if opt is None else opt)

    def __init__(self, F, s, alpha, lmbda, opt):
        self.F, self.s, self.lmbda = F, s, lmbda
        super(UWCns, self).__init__(len(F), alpha, (F[0].shape[1],),
                                    s[0].dtype, opt)


def rand_opts(rng, kind):
    """Random option dictionary"""
    o = {'MaxMainIter': int(rng.integers(60, 300)) if rng.random() < .015
         else int(rng.integers(1, 14)),
         'RelaxParam': float(rng.choice([1.0, 1.0, 1.8, 1.3, 0.7])),
         'RelStopTol': float(rng.choice([0.0, 1e-3, 0.3, 1e-1])),
         'AbsStopTol': float(rng.choice([0.0, 0.0, 1e-2, 1e-4])),
         'rho': [None, 1.0, float(10**rng.uniform(-2, 2))][rng.integers(3)]}
    ar = {'Enabled': bool(rng.random() < 0.6),
          'Period': int(rng.choice([1, 1, 2, 3, 5])),
          'Scaling': float(rng.choice([2.0, 1.5, 10.0, 1000.0])),
          'RsdlRatio': float(rng.choice([1.2, 2.0, 10.0, 1.0])),
          'RsdlTarget': [None, 1.0, float(10**rng.uniform(-1, 1))][
              rng.integers(3)],
          'AutoScaling': bool(rng.random() < 0.5),
          'StdResiduals': bool(rng.random() < 0.4)}
    o['AutoRho'] = ar
    if kind == 'equal':
        o['fEvalX'] = bool(rng.random() < .5)
        o['gEvalY'] = bool(rng.random() < .5)
        o['ReturnX'] = bool(rng.random() < .5)
    if kind == 'two':
        o['AuxVarObj'] = bool(rng.random() < .5)
        o['ReturnVar'] = str(rng.choice(['X', 'Y0', 'Y1']))
    if kind in ('cns', 'wcns'):
        o['AuxVarObj'] = bool(rng.random() < .5)
    return o


def make(kind, rng, dtype):
    """Returns (factory(optdict)->obj, model, yshape, ushape, optcls)"""
    n = int(rng.integers(1, 9))
    p = int(rng.integers(1, 9))
    F = rng.standard_normal((p, n)).astype(dtype)
    s = rng.standard_normal(p).astype(dtype)
    lm = float(10**rng.uniform(-2, 0.5))
    FF, Fs = F.T.dot(F).astype(float), F.T.dot(s).astype(float)

    def fval(x):
        return 0.5 * np.sum((F.dot(x) - s)**2)

    if kind == 'admm':
        ny = int(rng.integers(n, n + 6))
        A = rng.standard_normal((ny, n)).astype(dtype)
        c = (rng.standard_normal(ny) * rng.integers(0, 2)).astype(dtype)
        sB = int(rng.choice([-1, 1]))

        def stats(obj, x, y, opt):
            f, g = fval(x), lm * np.sum(np.abs(y))
            return {'ObjFun': (f + g, f + g), 'FVal': (f, f + g + 1e-6),
                    'GVal': (g, f + g)}
        m = am.Model(A=A.astype(float), c=c.astype(float), sB=sB,
                     H=lambda x: FF.dot(x), q=Fs,
                     gprox=lambda v, t: soft(v, t * lm), stats=stats)
        return (lambda o: UADMM(F, s, A, c, sB, lm, UADMM.Options(o)), m,
                (ny,), (ny,), UADMM)
    if kind == 'equal':
        def stats(obj, x, y, opt):
            f = fval(x if opt['fEvalX'] else y)
            g = lm * np.sum(np.abs(y if opt['gEvalY'] else x))
            return {'ObjFun': (f + g, f + g), 'FVal': (f, f + g + 1e-6),
                    'GVal': (g, f + g)}
        m = am.Model(H=lambda x: FF.dot(x), q=Fs,
                     gprox=lambda v, t: soft(v, t * lm), stats=stats)
        return (lambda o: UEqual(F, s, lm, UEqual.Options(o)), m, (n,), (n,),
                UEqual)
    if kind == 'two':
        K = int(rng.integers(1, 4))
        n0, n1 = int(rng.integers(1, 6)), int(rng.integers(n, n + 3))
        A0 = rng.standard_normal((n0, n)).astype(dtype)
        A1 = rng.standard_normal((n1, n)).astype(dtype)
        c0 = rng.standard_normal((K, n0)).astype(dtype)
        c1 = (rng.standard_normal((K, n1)) * rng.integers(0, 2)).astype(dtype)
        mu = float(rng.choice([0.0, 1.0, 0.1]))
        w = float(10**rng.uniform(-1, 1))
        IK = np.eye(K)
        A = np.concatenate((np.kron(IK, A0), np.kron(IK, A1))).astype(float)
        c = np.concatenate((c0.ravel(), c1.ravel())).astype(float)
        b = K * n0

        def gprox(v, t):
            return np.concatenate((v[:b] / (1 + t * w),
                                   soft(v[b:], t * lm)))

        def stats(obj, x, y, opt):
            z = y if opt['AuxVarObj'] else A.dot(x) - c
            f = 0.5 * mu * np.sum(x**2)
            g0 = 0.5 * w * np.sum(z[:b]**2)
            g1 = lm * np.sum(np.abs(z[b:]))
            t = f + g0 + g1
            return {'ObjFun': (t, t), 'FVal': (f, t + 1e-6),
                    'G0Val': (g0, t), 'G1Val': (g1, t)}
        m = am.Model(A=A, c=c, H=lambda x: mu * x, q=np.zeros(K * n),
                     gprox=gprox, stats=stats, yflat=am.two_block)
        return (lambda o: UTwo(A0, A1, c0, c1, mu, w, lm, UTwo.Options(o)),
                m, (K, n0 + n1), (K, n0 + n1), UTwo)
    raise ValueError(kind)


def run_single(case, mon, rng, kind):
    dtype = np.float64 if rng.random() < .85 else np.float32
    fac, m, ysh, ush, cls = make(kind, rng, dtype)
    o = rand_opts(rng, kind)
    if rng.random() < .4:
        o['Y0'] = rng.standard_normal(ysh).astype(dtype)
        if rng.random() < .7:
            o['U0'] = rng.standard_normal(ush).astype(dtype)
    hist = []
    for _ in range(int(rng.integers(1, 4))):
        hist.append(None)
    stop_at = int(rng.integers(0, 12)) if rng.random() < .3 else None
    recs = []
    o['Callback'] = am.recorder(m, recs, stop_at)
    tag = '%s/%s' % (kind, np.dtype(dtype).name)
    Y0c = None if o.get('Y0') is None else o['Y0'].copy()
    U0c = None if o.get('U0') is None else o['U0'].copy()
    obj = fac(o)
    optc = copy.deepcopy({k: v for k, v in obj.opt.items()
                          if k != 'Callback'})
    prev = am.snapshot(obj, m)
    if Y0c is not None:
        mon.close('init-honoured', np.asarray(obj.Y), Y0c, rtol=0, atol=0)
    if U0c is not None:
        mon.close('init-honoured', np.asarray(obj.U), U0c, rtol=0, atol=0)
    first = prev
    total = []
    for h in hist:
        n0 = len(recs)
        i0 = len(obj.itstat)
        k0 = obj.k
        x = obj.solve()
        new = recs[n0:]
        mon.ok('iter-count', len(new) >= 1 and [r['k'] for r in new] ==
               list(range(k0, k0 + len(new))) and obj.k == k0 + len(new),
               ks=[r['k'] for r in new], k0=k0, kend=obj.k)
        mon.ok('itstat-length', len(obj.itstat) == i0 + len(new))
        am.check_history(mon, tag, obj, m, prev, new, obj.opt,
                         stop_at=stop_at, itstat=obj.itstat[i0:],
                         maxiter=o['MaxMainIter'])
        prev = new[-1]
        total += new
        if kind == 'equal':
            want = obj.X if o['ReturnX'] else obj.Y
        elif kind == 'two':
            want = {'X': obj.X, 'Y0': obj.block_sep0(obj.Y),
                    'Y1': obj.block_sep1(obj.Y)}[o['ReturnVar']]
        else:
            want = obj.X
        mon.close('getmin', x, want, rtol=0, atol=0)
    mon.event('config', sig='%s|%s' % (tag, sorted(
        (k, str(v)) for k, v in o.items() if k in (
            'RelaxParam', 'RelStopTol', 'AbsStopTol'))))
    # statistics table and timer
    tbl = obj.getitstat()
    mon.ok('itstat-table', all(np.asarray(getattr(tbl, f)).shape[0] ==
                               len(obj.itstat) for f in tbl._fields) and
           list(np.asarray(tbl.Iter)) == [i.Iter for i in obj.itstat])
    tm = np.asarray(tbl.Time, dtype=float)
    mon.ok('timer', np.all(tm >= 0) and np.all(np.diff(tm) >= -1e-9),
           tm=tm)
    # options and initial values not modified
    same = True
    for k, v in optc.items():
        w = obj.opt[k]
        if isinstance(v, np.ndarray):
            same &= np.array_equal(v, w)
        else:
            same &= (v == w)
    mon.ok('opt-unchanged', same)
    if Y0c is not None:
        mon.ok('init-unchanged', np.array_equal(Y0c, o['Y0']))
    if U0c is not None:
        mon.ok('init-unchanged', np.array_equal(U0c, o['U0']))

    # the same number of iterations in different portions, without
    # statistics, with status display, and interleaved with another instance
    N = int(rng.integers(2, 9))

    def go(parts, **kw):
        oo = dict(o)
        oo.update(kw)
        oo['RelStopTol'] = 0.0
        oo['AbsStopTol'] = 0.0
        rr = []
        oo['Callback'] = am.recorder(m, rr)
        ob = None
        for p in parts:
            oo['MaxMainIter'] = p
            if ob is None:
                ob = fac(oo)
            else:
                ob.opt['MaxMainIter'] = p
            with contextlib.redirect_stdout(io.StringIO()):
                ob.solve()
        return ob, rr

    def same_hist(name, a, b):
        ok, w = gen.hist_same(a, b, 'XYU')
        mon.ok(name, ok, na=len(a), nb=len(b), tag=tag, worst=w)
    b0, r0 = go([N])
    p = int(rng.integers(1, N))
    b1, r1 = go([p, N - p])
    if all(np.isfinite(r0[-1]['X'])):
        same_hist('split-same', r0, r1)
        b2, r2 = go([N], FastSolve=True)
        same_hist('fastsolve-same', r0, r2)
        mon.ok('fastsolve-same', len(b2.itstat) == 0)
        b3, r3 = go([N], Verbose=True, StatusHeader=bool(rng.random() < .5),
                    IterTimer=str(rng.choice(['solve', 'solve_wo_func',
                                              'solve_wo_rsdl'])))
        same_hist('verbose-same', r0, r3)
        # two instances advanced alternately
        oo = dict(o, RelStopTol=0.0, AbsStopTol=0.0, MaxMainIter=1)
        ra, rb = [], []
        fac2, m2 = make(kind, np.random.default_rng(int(rng.integers(1e9))),
                        dtype)[:2]
        oa = fac(dict(oo, Callback=am.recorder(m, ra)))
        ob = fac2(dict({k: v for k, v in oo.items() if k not in (
            'Y0', 'U0')}, Callback=am.recorder(m2, rb)))
        for _ in range(N):
            oa.solve()
            ob.solve()
        same_hist('interleaved-same', r0, ra)
    # converged iterate satisfies the optimality conditions
    rr = []
    oo = dict(o, MaxMainIter=4000, RelStopTol=1e-9, AbsStopTol=0.0, rho=1.0,
              RelaxParam=1.0, Callback=am.recorder(m, rr))
    oo['AutoRho'] = dict(o['AutoRho'], Enabled=False)
    if dtype == np.float64 and case['n'] % 3 == 0:
        ob = fac(oo)
        ob.solve()
        if len(rr) < 4000:
            e = am.kkt_residual(m, rr[-1])
            mon.le('kkt', max(e), 1e-6, sig=tag, e=e)


def run_cns(case, mon, rng, kind):
    dtype = np.float64 if rng.random() < .85 else np.float32
    tol = am.eps_tol(dtype)
    n = int(rng.integers(1, 7))
    Nb = int(rng.integers(1, 5))
    F = [rng.standard_normal((int(rng.integers(1, 7)), n)).astype(dtype)
         for _ in range(Nb)]
    s = [rng.standard_normal(f.shape[0]).astype(dtype) for f in F]
    lm = float(10**rng.uniform(-2, .5))
    alpha = rng.uniform(0.2, 2.0, Nb).astype(dtype)
    if kind == 'cns':
        alpha = np.ones(Nb, dtype)

        def fac(o):
            return UCns(F, s, lm, UCns.Options(o))
    else:
        def fac(o):
            return UWCns(F, s, alpha, lm, UWCns.Options(o))
    o = rand_opts(rng, kind)
    recs = []

    def cb(ob):
        recs.append({'k': ob.k, 'X': ob.X.copy(), 'Y': ob.Y.copy(),
                     'U': ob.U.copy(), 'rho': float(ob.rho)})
    o['Callback'] = cb
    if rng.random() < .4:
        o['Y0'] = rng.standard_normal(n).astype(dtype)
        o['U0'] = rng.standard_normal((n, Nb)).astype(dtype)
    obj = fac(o)
    prev = {'k': -1, 'Y': obj.Y.copy(), 'U': obj.U.copy(),
            'rho': float(obj.rho)}
    x = obj.solve()
    mon.close('getmin', x, obj.Y, rtol=0, atol=0)
    rlx = o['RelaxParam']
    sa = float(np.sum(alpha))
    sa2 = float(np.sqrt(np.sum(np.asarray(alpha, float)**2)))
    ar = o['AutoRho']
    xi = float(obj.rho_xi)
    for rec, st in zip(recs, obj.itstat):
        rho = prev['rho']
        X = rec['X'].astype(float)
        Y = rec['Y'].astype(float)
        Yp = prev['Y'].astype(float)
        Up = prev['U'].astype(float)
        rsf = rec['rho'] / rho
        U = rec['U'].astype(float) * rsf
        sc = max(np.max(np.abs(X)), np.max(np.abs(Yp)), np.max(np.abs(Up)),
                 1e-6)
        AXr = rlx * X + (1 - rlx) * Yp[:, None]
        v = np.average(AXr + Up, axis=-1, weights=alpha.astype(float))
        mon.close('consensus-ystep', Y, soft(v, lm / (sa * rho)), rtol=0,
                  atol=50 * tol * sc, sig='%s/%d' % (kind, Nb), k=rec['k'])
        mon.close('consensus-ustep', U, Up + AXr - Y[:, None], rtol=0,
                  atol=50 * tol * sc)
        sq = np.sqrt(alpha.astype(float))
        r = np.linalg.norm(sq * (X - Y[:, None]))
        if kind == 'cns':
            sv = np.sqrt(Nb) * rho * np.linalg.norm(Y - Yp)
            rn = max(np.linalg.norm(X), np.sqrt(Nb) * np.linalg.norm(Y))
        else:
            sv = rho * sa2 * np.linalg.norm(Y - Yp)
            rn = max(np.linalg.norm(sq * X), np.sqrt(sa) * np.linalg.norm(Y))
        sn = rho * np.linalg.norm(
            U if kind == 'cns' else U * alpha.astype(float))
        ast, rst = o['AbsStopTol'], o['RelStopTol']
        Nx = n * Nb
        if ar['StdResiduals']:
            ep = np.sqrt(Nx) * ast + rn * rst
            ed = np.sqrt(Nx) * ast + sn * rst
        else:
            rz, sz = rn or 1.0, sn or 1.0
            r, sv = r / rz, sv / sz
            ep = np.sqrt(Nx) * ast / rz + rst
            ed = np.sqrt(Nx) * ast / sz + rst
        if sn > 1e-6 * rho * sc:
            t = 1e3 * tol
            b = max(1.0, rho * sc / sn)
            mon.close('consensus-rsdl', st.PrimalRsdl, r, rtol=t,
                      atol=t * max(1, sc), sig=kind)
            mon.close('consensus-rsdl', st.DualRsdl, sv, rtol=t,
                      atol=t * max(b, rho * sc))
            mon.close('consensus-rsdl', st.EpsPrimal, ep, rtol=t)
            mon.close('consensus-rsdl', st.EpsDual, ed, rtol=t * b)
        r, sv = float(st.PrimalRsdl), float(st.DualRsdl)
        ev = [Y] * Nb if o['AuxVarObj'] else [X[:, i] for i in range(Nb)]
        gv = Y if o['AuxVarObj'] else np.average(
            X, axis=-1, weights=alpha.astype(float))
        f = sum(float(alpha[i]) * 0.5 * np.sum((F[i].dot(ev[i]) - s[i])**2)
                for i in range(Nb))
        g = lm * np.sum(np.abs(gv))
        for fn, val in (('ObjFun', f + g), ('FVal', f), ('GVal', g)):
            mon.close('itstat-objfn', getattr(st, fn), val, rtol=0,
                      atol=100 * tol * (f + g + 1e-6), field=fn, sig=kind)
        k = rec['k']
        want = 1.0
        if ar['Enabled'] and k != 0 and (k + 1) % ar['Period'] == 0:
            ml = ar['Scaling']
            mu = ar['RsdlRatio']
            if ar['AutoScaling'] and r != 0 and sv != 0:
                ml = min(ml, np.sqrt(max(r / (sv * xi), sv * xi / r)))
            if r > xi * mu * sv:
                want = ml
            elif sv > mu / xi * r:
                want = 1 / ml
            mon.close('rho-update', rsf, want, rtol=1e-5, k=k)
        else:
            mon.ok('rho-unchanged', rsf == 1.0)
        prev = rec
    # stop rule
    for j, st in enumerate(obj.itstat):
        d = st.PrimalRsdl < st.EpsPrimal and st.DualRsdl < st.EpsDual
        if j < len(obj.itstat) - 1:
            mon.ok('no-late-stop', not d)
        elif len(obj.itstat) < o['MaxMainIter']:
            mon.ok('no-early-stop', d)


def cases(tier):
    k = 600 if tier == 'quick' else 2500
    out = []
    for kind in ('admm', 'equal', 'two', 'cns', 'wcns'):
        out += [{'kind': kind, 'n': i} for i in range(k)]
    return out


def run(case, mon, rng):
    if case['kind'] in ('cns', 'wcns'):
        run_cns(case, mon, rng, case['kind'])
    else:
        run_single(case, mon, rng, case['kind'])
