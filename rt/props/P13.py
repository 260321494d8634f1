"""Proximal gradient protocol (sporco.pgm)."""
import numpy as np

import sporco.fft as sfft
from sporco.pgm import pgm, bpdn, cbpdn, cmod, ccmod
from rt import csc, gen
from rt import pgm_mon as pm

sfft.pyfftw_threads = 1

RULE = ('A case draws a problem and an option set (momentum rule, step size '
        'policy, backtracking scheme, monotone variant, stopping rule) for '
        'one proximal gradient class or a user-defined subclass, runs one or '
        'two solve() calls and replays every recorded iteration on an '
        'independent model. Non-trivial = distinct (class, step size rule, '
        'momentum rule).')
ASSUMPTIONS = ['Monotone is not combined with backtracking or with a changing '
               'dictionary', 'histories in which the step size degenerates '
               '(zero gradient, parameter outside [1e-6, 1e12]) are followed '
               'up to that point only']
EXPECT = {'stepsize', 'xstep', 'ystep', 'bt-L', 'bt-F', 'bt-Q', 'bt-accept',
          'bt-needed', 'monotone', 'monotone-choice', 'itstat-objfn', 'rsdl',
          'no-late-stop', 'no-early-stop', 'iteration-limit',
          'init-honoured', 'fastsolve-same', 'split-same', 'verbose-same',
          'inputs-unchanged', 'getmin', 'feasible', 'reconstruct',
          'default-lambda', 'dtype-kept', 'functions'}

KINDS = ['user', 'bpdn', 'wbpdn', 'cbpdn', 'cmask', 'cmod', 'wcmod', 'ccmod',
         'ccmask']


def cases(tier):
    k = 900 if tier == 'quick' else 2000
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


class UserLasso(pgm.PGM):
    def __init__(self, A, b, w, lm, opt):
        self.A, self.b, self.w, self.lm = A, b, w, lm
        super().__init__((A.shape[1],), b.dtype, opt)
        self.Y = self.X.copy()

    def grad_f(self, V=None):
        V = self.Y if V is None else V
        return self.A.T.dot(self.w * (self.A.dot(V) - self.b))

    def prox_g(self, V):
        t = self.lm / self.L
        return (np.sign(V) * np.maximum(np.abs(V) - t, 0)).astype(self.dtype)

    def hessian_f(self, V):
        return self.A.T.dot(self.w * self.A.dot(V))

    def obfn_f(self, X):
        return 0.5 * np.sum(self.w * (self.A.dot(X) - self.b)**2)

    def obfn_g(self, X):
        return self.lm * np.sum(np.abs(X))


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def colnorm(v, ax):
    n = np.sqrt(np.sum(v**2, axis=ax, keepdims=True))
    return n


def normalise(v, ax):
    n = colnorm(v, ax)
    return v / np.where(n == 0, 1.0, n)


def lasso_stats(m, lm, w):
    def stats(x):
        f = m.f(x)
        g = np.sum(np.abs(w * x))
        z = m.f(0 * x)
        return {'ObjFun': (f + lm * g, f + z), 'DFid': (f, f + z),
                'RegL1': (g, g)}
    return stats


def run(case, mon, rng):
    kind = case['kind']
    dtype = np.float64 if rng.random() < .8 else np.float32
    lm = float(np.dtype(dtype).type(rng.choice([0.0, 1e-2, .1, .6])))
    fn = {'user': run_user, 'bpdn': run_bpdn, 'wbpdn': run_bpdn,
          'cbpdn': run_cbpdn, 'cmask': run_cbpdn, 'cmod': run_cmod,
          'wcmod': run_cmod, 'ccmod': run_ccmod, 'ccmask': run_ccmod}[kind]
    fn(case, mon, rng, kind, dtype, lm)


def tagof(kind, o, dtype):
    b = o.get('Backtrack')
    s = type(b).__name__ if b is not None else type(
        o.get('StepSizePolicy')).__name__
    return '%s/%s/%s/%s/%s' % (
        kind, s, type(o.get('Momentum')).__name__,
        'mono' if o.get('Monotone') else '', np.dtype(dtype).name)


def run_user(case, mon, rng, kind, dtype, lm):
    n, k = int(rng.integers(2, 9)), int(rng.integers(2, 9))
    A = rng.standard_normal((n, k)).astype(dtype)
    b = (rng.standard_normal(n) * 10.0**rng.integers(-1, 2)).astype(dtype)
    w = rng.uniform(.1, 2, n).astype(dtype)
    Ad, bd, wd = A.astype(float), b.astype(float), w.astype(float)
    m = pm.Model(lambda x: Ad @ x, lambda r: Ad.T @ r, bd, wd,
                 lambda v, L: soft(v, lm / L), None, None)

    def stats(x):
        f, g, z = m.f(x), lm * np.sum(np.abs(x)), m.f(0 * x)
        return {'ObjFun': (f + g, f + z), 'FVal': (f, f + z),
                'GVal': (g, g)}
    m.stats = stats
    m.objval = lambda x: m.f(x) + lm * np.sum(np.abs(x))
    Lok = np.linalg.norm(np.sqrt(wd)[:, None] * Ad, 2)**2
    o = pm.rand_opts(rng, Lok=Lok)
    x0 = rng.standard_normal(k).astype(dtype) if rng.random() < .5 else None
    pm.drive(mon, rng, tagof(kind, o, dtype),
             lambda oo: UserLasso(A, b, w, lm, pgm.PGM.Options(oo)), m, o,
             arrays=(A, b, w), dtype=dtype, x0=x0)


def run_bpdn(case, mon, rng, kind, dtype, lm):
    n, k, c = (int(rng.integers(2, 8)), int(rng.integers(1, 9)),
               int(rng.integers(1, 5)))
    D = gen.layout(rng, rng.standard_normal((n, k)).astype(dtype))
    D2 = rng.standard_normal((n, k)).astype(dtype)
    S = gen.layout(rng, (rng.standard_normal((n, c)) * 10.0**rng.integers(
        -1, 2)).astype(dtype))
    w2 = np.ones((1, 1))
    W = None
    if kind == 'wbpdn':
        ch = rng.integers(4)
        if ch == 0:
            W = rng.uniform(0, 2, (n, c)).astype(dtype)
        elif ch == 1:
            W = (rng.random((n, 1)) < .6).astype(dtype)
        elif ch == 2:
            W = rng.uniform(0, 2, n).astype(dtype)   # column of weights
        if W is not None:
            w2 = W.astype(float) if W.ndim == 2 else W.astype(float)[:, None]
            w2 = w2 * np.ones((n, c))
            W = gen.mtype(rng, W)
    wl = 1.0
    o = {}
    if rng.random() < .5:
        wl = rng.uniform(0, 2, (k if rng.random() < .7 else 1,
                                c if rng.random() < .5 else 1)).astype(dtype)
        o['L1Weight'] = wl
        wl = wl.astype(float)
        o['L1Weight'] = gen.mtype(rng, o['L1Weight'])
    nn = bool(rng.random() < .3)
    if nn:
        o['NonNegCoef'] = True
    lmd = lm
    if rng.random() < .15:
        lmd = None
        lm = 0.1 * float(np.abs(D.astype(float).T @ S.astype(float)).max())
        lm = float(np.dtype(dtype).type(lm))

    def mk(Dm):
        Dd, Sd = Dm.astype(float), S.astype(float)

        def prox(v, L):
            u = soft(v, lm * wl / L)
            return np.maximum(u, 0) if nn else u
        m = pm.Model(lambda x: Dd @ x, lambda r: Dd.T @ r, Sd, w2, prox,
                     None, None)
        m.stats = lasso_stats(m, lm, wl)
        m.objval = lambda x: m.f(x) + lm * np.sum(np.abs(wl * x))
        return m
    m, m2 = mk(D), mk(D2)
    Lok = max(np.linalg.norm(D.astype(float), 2),
              np.linalg.norm(D2.astype(float), 2))**2 * max(w2.max(), .1)
    o.update(pm.rand_opts(rng, Lok=Lok))
    x0 = rng.standard_normal((k, c)).astype(dtype) if rng.random() < .5 \
        else None
    cls = bpdn.BPDN if kind == 'bpdn' else bpdn.WeightedBPDN

    def fac(oo):
        if kind == 'bpdn':
            return cls(D, S, lmd, cls.Options(oo))
        return cls(D, S, lmd, W, cls.Options(oo))

    def extra(mon, obj, m):
        mon.ok('dtype-kept', obj.X.dtype == np.dtype(dtype),
               dt=str(obj.X.dtype))
        if lmd is None:
            mon.close('default-lambda', float(obj.lmbda), lm, rtol=1e-5)
        if nn:
            mon.ok('feasible', np.all(obj.X >= 0), tag=kind)
        tl = pm.tol_of(dtype)
        mon.close('reconstruct', obj.reconstruct(), m.fwd(
            obj.X.astype(float)), rtol=1e2 * tl, atol=1e2 * tl * (
                1 + np.abs(obj.X).sum()), tag=kind)
        xx = rng.standard_normal(obj.X.shape).astype(dtype)
        mon.close('reconstruct', obj.reconstruct(xx), m.fwd(
            xx.astype(float)), rtol=1e2 * tl, atol=1e3 * tl, tag=kind)
        mon.close('getmin', obj.getcoef(), obj.X, rtol=0, atol=0)
    pm.drive(mon, rng, tagof(kind, o, dtype), fac, m, o,
             arrays=(D, S) + (() if W is None else (W,)),
             setdict=(lambda b: gen.put(rng, b.setdict, D2), m2) if rng.random() < .5 else
             None, dtype=dtype, x0=x0, extra=extra)


def rand_mask(rng, g, dtype):
    Wi = rng.uniform(0, 2, g.sshape) if rng.random() < .5 else (
        rng.random(g.sshape) < .6) * 1.0
    sl = [slice(None)] * g.dimN
    for nn in (g.C, g.K):
        sl.append(slice(0, 1) if rng.random() < .35 else slice(None))
    return Wi[tuple(sl) + (slice(None),)].astype(dtype)


def run_cbpdn(case, mon, rng, kind, dtype, lm):
    g = csc.Geo(rng, dtype)
    D, S = gen.layout(rng, g.D), gen.layout(rng, g.S)
    D2 = rng.standard_normal(g.Di.shape).astype(dtype)
    W = None
    w2 = np.ones((1,) * (g.dimN + 3))
    if kind == 'cmask' and rng.random() < .85:
        Wi = rand_mask(rng, g, dtype)
        w2 = Wi.astype(float)**2
        # external form: one axis per axis of S
        W = Wi.reshape(g.Nv + ((Wi.shape[g.dimN],) if g.dC else ()) +
                       ((Wi.shape[g.dimN + 1],) if g.dK else ()))
        if rng.random() < .3:
            W = Wi
        W = gen.mtype(rng, W)
    wl = 1.0
    o = {}
    if rng.random() < .4:
        sh = tuple(n if rng.random() < .6 else 1 for n in g.xshape)
        o['L1Weight'] = rng.uniform(0, 2, sh).astype(dtype)
        wl = o['L1Weight'].astype(float)
        o['L1Weight'] = gen.mtype(rng, o['L1Weight'])
    nn, nb = bool(rng.random() < .3), bool(rng.random() < .3)
    if nn:
        o['NonNegCoef'] = True
    if nb:
        o['NoBndryCross'] = True
    keep = np.ones(g.xshape)
    if nb:
        for a in range(g.dimN):
            idx = np.arange(g.Nv[a]) > g.Nv[a] - g.dsz[a]
            sh = [1] * (g.dimN + 3)
            sh[a] = g.Nv[a]
            keep = keep * (1 - idx.reshape(sh))
    lmd = lm
    if kind == 'cbpdn' and rng.random() < .15:
        lmd = None
        Df = np.fft.fftn(g.Di.astype(float), g.Nv, axes=g.axN)
        Sf = np.fft.fftn(g.Si.astype(float), axes=g.axN)
        lm = 0.1 * float(np.abs(np.conj(Df) * Sf).max())

    def mk(Di):
        op = csc.ConvOp(g, Di)

        def prox(v, L):
            u = soft(v, lm * wl / L)
            return keep * (np.maximum(u, 0) if nn else u)
        m = pm.Model(op.fwd, op.adj, g.Si.astype(float), w2, prox, None,
                     None, dft=g.axN, rsdl2=True,
                     fdft=False if kind == 'cmask' else None)
        m.stats = lasso_stats(m, lm, wl)
        m.objval = lambda x: m.f(x) + lm * np.sum(np.abs(wl * x))
        m.Lok = np.max(np.sum(np.abs(op.Df)**2, axis=(g.dimN, g.dimN + 2))
                       ) * max(w2.max(), .1)
        return m
    m, m2 = mk(g.Di), mk(D2)
    o.update(pm.rand_opts(rng, Lok=max(m.Lok, m2.Lok)))
    x0 = rng.standard_normal(g.xshape).astype(dtype) if rng.random() < .5 \
        else None
    cls = cbpdn.ConvBPDN if kind == 'cbpdn' else cbpdn.ConvBPDNMask

    def fac(oo):
        if kind == 'cbpdn':
            return cls(D, S, lmd, cls.Options(oo), **g.kw)
        return cls(D, S, lm, W, cls.Options(oo), **g.kw)

    def extra(mon, obj, m):
        mon.ok('dtype-kept', obj.X.dtype == np.dtype(dtype),
               dt=str(obj.X.dtype))
        if lmd is None:
            mon.close('default-lambda', float(obj.lmbda), lm, rtol=1e-5)
        if nn:
            mon.ok('feasible', np.all(obj.X >= 0), tag=kind)
        if nb:
            mon.ok('feasible', np.all(obj.X[np.broadcast_to(
                keep == 0, obj.X.shape)] == 0), tag=kind + 'nb')
        tl = pm.tol_of(dtype)
        for xx in (None, rng.standard_normal(obj.X.shape).astype(dtype)):
            r = obj.reconstruct(xx)
            ref = m.fwd((obj.X if xx is None else xx).astype(float))
            mon.close('reconstruct', r, ref[..., 0], rtol=0,
                      atol=1e2 * tl * (1 + np.max(np.abs(ref)) + np.max(
                          np.abs(obj.X))), tag=kind)
        mon.close('getmin', obj.getcoef(), obj.X, rtol=0, atol=0)
    pm.drive(mon, rng, tagof(kind, o, dtype), fac, m, o,
             arrays=(D, S) + (() if W is None else (W,)),
             setdict=(lambda b: gen.put(rng, b.setdict, D2), m2) if rng.random() < .4 else
             None, dtype=dtype, x0=x0, extra=extra)


def run_cmod(case, mon, rng, kind, dtype, lm):
    n, k, c = (int(rng.integers(2, 8)), int(rng.integers(1, 7)),
               int(rng.integers(1, 9)))
    Z = gen.layout(rng, (rng.standard_normal((k, c)) * (
        rng.random((k, c)) < .7)).astype(dtype))
    Z2 = rng.standard_normal((k, c)).astype(dtype)
    S = gen.layout(rng, rng.standard_normal((n, c)).astype(dtype))
    w2 = np.ones((1, 1))
    W = None
    if kind == 'wcmod':
        ch = rng.integers(3)
        if ch == 0:
            W = rng.uniform(0, 2, (n, c)).astype(dtype)
        elif ch == 1:
            W = (rng.random((n, 1)) < .7).astype(dtype)
        if W is not None:
            w2 = W.astype(float) * np.ones((n, c))
            W = gen.mtype(rng, W)
    o = {}
    ch = rng.integers(3)
    zm, nn = ch == 1, ch == 2
    if zm:
        o['ZeroMean'] = True
    if nn:
        o['NonNegCoef'] = True

    def pre(v):
        if zm:
            return v - np.mean(v, axis=0, keepdims=True)
        return np.maximum(v, 0) if nn else v

    def prox(v, L):
        return normalise(pre(v), 0)

    def cond(v, L):
        nv = colnorm(pre(v), 0)
        nv = nv[nv > 0]
        return 1.0 / nv.min() if nv.size else 1.0

    def mk(Zm):
        Zd = Zm.astype(float)
        m = pm.Model(lambda x: x @ Zd, lambda r: r @ Zd.T, S.astype(float),
                     w2, prox, None, None, cond=cond)
        m.stats = lambda x: {
            'DFid': (m.f(x), m.f(x) + m.f(0 * x)),
            'Cnstr': (np.linalg.norm(prox(x, 1) - x), np.sqrt(k))}
        m.objval = m.f
        return m
    m, m2 = mk(Z), mk(Z2)
    Lok = max(np.linalg.norm(Z.astype(float), 2),
              np.linalg.norm(Z2.astype(float), 2), .1)**2 * max(w2.max(), .1)
    o.update(pm.rand_opts(rng, Lok=Lok))
    x0 = rng.standard_normal((n, k)).astype(dtype) if rng.random() < .7 \
        else None
    if x0 is not None and rng.random() < .7:
        x0 = normalise(x0, 0).astype(dtype)
    cls = cmod.CnstrMOD if kind == 'cmod' else cmod.WeightedCnstrMOD

    def fac(oo):
        if kind == 'cmod':
            return cls(Z, S, opt=cls.Options(oo))
        return cls(Z, S, W, opt=cls.Options(oo))

    def extra(mon, obj, m):
        mon.ok('dtype-kept', obj.X.dtype == np.dtype(dtype),
               dt=str(obj.X.dtype))
        X = obj.getdict().astype(float)
        nv = colnorm(X, 0)
        tl = pm.tol_of(dtype)
        mon.ok('feasible', np.all((np.abs(nv - 1) < 1e2 * tl) | (nv == 0)),
               tag=kind, nv=nv)
        if nn:
            mon.ok('feasible', np.all(X >= 0), tag=kind + 'nn')
        if zm:
            if np.dtype(dtype).itemsize == 8 and n > 1:
                mon.close('feasible-zm', X.mean(0), 0 * X.mean(0), rtol=0,
                          atol=1e-5)
        mon.close('reconstruct', obj.reconstruct(), m.fwd(X), rtol=1e2 * tl,
                  atol=1e3 * tl, tag=kind)
        xx = rng.standard_normal(obj.X.shape).astype(dtype)
        mon.close('reconstruct', obj.reconstruct(xx), m.fwd(
            xx.astype(float)), rtol=1e2 * tl, atol=1e3 * tl, tag=kind)
    pm.drive(mon, rng, tagof(kind, o, dtype), fac, m, o,
             arrays=(Z, S) + (() if W is None else (W,)),
             setdict=(lambda b: gen.put(rng, b.setcoef, Z2), m2) if rng.random() < .4 else
             None, dtype=dtype, x0=x0, extra=extra)


def run_ccmod(case, mon, rng, kind, dtype, lm):
    g = csc.Geo(rng, dtype, dimK_arg=True)
    mask = kind == 'ccmask'
    dn, axC, axK, axM = g.dimN, g.dimN, g.dimN + 1, g.dimN + 2
    zs = g.Nv + (g.Cx, g.K, g.M)
    Z = (rng.standard_normal(zs) * (rng.random(zs) < .5)).astype(dtype)
    Z2 = rng.standard_normal(zs).astype(dtype)
    dsz = g.dsz + ((g.Cd, g.M) if g.Cd > 1 else (g.M,))
    flat = g.Cd == 1 and g.C > 1
    S = gen.layout(rng, g.S)
    Zi = gen.layout(rng, Z)
    w2 = np.ones((1,) * (dn + 3))
    W = 1.0
    if mask:
        W = rand_mask(rng, g, dtype)
        w2 = W.astype(float)**2 * np.ones(g.sshape)
        if rng.random() < .15:
            W = 1.0 if rng.random() < .5 else np.array(1.0)
            w2 = np.ones((1,) * (dn + 3))
    zm = bool(rng.random() < .4)
    o = {'ZeroMean': True} if zm else {}
    xsh = g.Nv + (g.Cd, 1, g.M)
    sup = tuple(slice(0, d) for d in g.dsz)

    def pre(v):
        u = np.zeros_like(v)
        w = v[sup]
        if zm:
            w = w - np.mean(w, axis=tuple(range(dn)), keepdims=True)
        u[sup] = w
        return u
    nax = tuple(range(dn)) + (axC,)

    def prox(v, L):
        return normalise(pre(v), nax)

    def cond(v, L):
        nv = colnorm(pre(v), nax)
        # a vanishing filter may be rounding noise in the solver, unless it
        # has a single sample with its mean removed or no gradient
        if np.any((nv == 0) & np.any(v != 0, axis=nax, keepdims=True)) and \
                not (zm and np.prod(g.dsz) == 1):
            return 1e20
        nv = nv[nv > 0]
        return 1.0 / nv.min() if nv.size else 1.0

    def mk(Zm):
        Zd = Zm.astype(float)
        Zf = np.fft.fftn(Zd, axes=g.axN)

        def fwd(x):
            r = np.sum(Zf * np.fft.fftn(x, axes=g.axN), axis=axM,
                       keepdims=True)
            return np.fft.ifftn(r, axes=g.axN).real

        def adj(r):
            v = np.conj(Zf) * np.fft.fftn(r, axes=g.axN)
            v = np.sum(v, axis=(axK,) + ((axC,) if g.Cd == 1 else ()),
                       keepdims=True)
            return np.fft.ifftn(v, axes=g.axN).real
        m = pm.Model(fwd, adj, g.Si.astype(float), w2, prox, None, None,
                     dft=g.axN, rsdl2=True, fdft=False if mask else None,
                     cond=cond)
        m.stats = lambda x: {
            'DFid': (m.f(x), m.f(x) + m.f(0 * x)),
            'Cnstr': (np.linalg.norm(prox(x, 1) - x), np.sqrt(g.M))}
        m.objval = m.f
        m.Lok = np.max(np.sum(np.abs(Zf)**2, axis=(axC, axK, axM))
                       ) * max(w2.max(), .1)
        return m
    m, m2 = mk(Z), mk(Z2)
    dl = rng.random() < .1
    o.update(pm.rand_opts(rng, Lok=max(m.Lok, m2.Lok, .1)))
    if dl:
        del o['L']
    x0 = None
    if rng.random() < .7:
        x0 = rng.standard_normal(xsh)
        if rng.random() < .7:
            x0 = prox(x0, 1)
        x0 = x0.astype(dtype)
    cls = ccmod.ConvCnstrMODMask if mask else ccmod.ConvCnstrMOD

    def fac(oo):
        if mask:
            return cls(Zi, S, W, dsz, cls.Options(oo), **g.kw)
        return cls(Zi, S, dsz, cls.Options(oo), **g.kw)

    def extra(mon, obj, m):
        mon.ok('dtype-kept', obj.X.dtype == np.dtype(dtype),
               dt=str(obj.X.dtype))
        X = obj.X.astype(float)
        tl = pm.tol_of(dtype)
        nv = colnorm(X, nax)
        mon.ok('feasible', np.all((np.abs(nv - 1) < 1e2 * tl) | (nv == 0)),
               tag=kind, nv=nv)
        o2 = X.copy()
        o2[sup] = 0
        mon.ok('feasible', not np.any(o2), tag=kind + '/support')
        dc = obj.getdict()
        mon.close('getmin', dc, obj.X[sup], rtol=0, atol=0)
        mon.close('getmin', obj.getdict(crop=False), obj.X, rtol=0, atol=0)
        for xx in (None, rng.standard_normal(X.shape).astype(dtype)):
            r = obj.reconstruct(xx)
            ref = m.fwd((obj.X if xx is None else xx).astype(float))
            mon.close('reconstruct', np.asarray(r).reshape(ref.shape), ref,
                      rtol=0, atol=1e2 * tl * (1 + np.max(np.abs(ref)) +
                                               np.max(np.abs(Z))), tag=kind)
    pm.drive(mon, rng, tagof(kind, o, dtype), fac, m, o,
             arrays=(Zi, S) + ((W,) if isinstance(W, np.ndarray) else ()),
             setdict=(lambda b: gen.put(rng, b.setcoef, Z2), m2) if rng.random() < .4 else
             None, dtype=dtype, x0=x0, extra=extra)
