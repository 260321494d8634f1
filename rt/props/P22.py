"""Plug and play priors: sporco.admm.ppp and sporco.pgm.ppp."""
import numpy as np

from sporco.admm import ppp as appp
from sporco.pgm import ppp as pppp
from rt import admm_mon as am
from rt import gen, pgm_mon
from rt.drive import drive, admm_opts

RULE = ('A case draws a linear data term, a denoiser (proximal and '
        'non-proximal ones), block weights and an option set for a plug and '
        'play solver, either through the function interface or through a '
        'derived class, runs it under the trace monitor and replays every '
        'iteration with the same user functions. Non-trivial = distinct '
        '(solver, denoiser, dtype, geometry, options class).')
ASSUMPTIONS = ['the user functions are deterministic and Lipschitz',
               'Backtrack, Monotone and the Cauchy step size are not '
               'available in the pgm class (undefined by its interface)']
EXPECT = {'xstep', 'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual',
          'itstat-objfn', 'rho-update', 'init-honoured', 'inputs-unchanged',
          'optimality', 'rsdl', 'stepsize', 'ppp-rho-arg', 'ppp-L-arg',
          'cns-x', 'cns-y', 'cns-u', 'cns-equilibrium', 'dtype-kept',
          'cns-rho-arg', 'getmin', 'pgm-fixpoint', 'mu-unchanged',
          'cns-order', 'cns-stop'}

KINDS = ['admm', 'pgm', 'cns', 'pgmfix']


def cases(tier):
    k = 3000 if tier == 'quick' else 16000
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


def soft(v, t):
    a = np.abs(v)
    return np.where(a > t, v * (1 - t / np.where(a == 0, 1, a)), 0)


def denoiser(rng, cplx=False, prox=False):
    """-> name, fn(v, r) (r: rho or L)"""
    lm = float(10**rng.uniform(-2, .3))
    opts = [('soft', lambda v, r: soft(v, lm / r)),
            ('l2', lambda v, r: v * (r / (r + lm)))]
    if not cplx:
        opts.append(('box', lambda v, r: np.clip(v, -.4, .7)))
    if not prox:
        opts.append(('smooth', lambda v, r: .5 * v + .25 * (
            np.roll(v, 1, 0) + np.roll(v, -1, 0))))
        if not cplx:
            opts.append(('tanh', lambda v, r: np.tanh(v)))
    return opts[rng.integers(len(opts))]


class Quad:
    """w/2 ||A vec(x) - s||^2"""

    def __init__(self, rng, shape, dtype, good=False):
        n = int(np.prod(shape))
        p = n + 2 if good else int(rng.integers(1, n + 3))
        cplx = np.dtype(dtype).kind == 'c'

        def r(*sh):
            x = rng.standard_normal(sh)
            return x + 1j * rng.standard_normal(sh) if cplx else x
        self.A, self.s = r(p, n), r(p)
        if good:
            self.A = self.A * .15 + np.eye(p, n)
        self.AHA = self.A.conj().T @ self.A
        self.AHs = self.A.conj().T @ self.s
        self.shape, self.n = shape, n
        self.L = float(np.linalg.norm(self.A, 2)**2)

    def f(self, x):
        return .5 * float(np.sum(np.abs(
            self.A @ np.asarray(x).ravel() - self.s)**2))

    def grad(self, x):
        return (self.AHA @ np.asarray(x).ravel() - self.AHs).reshape(
            self.shape)

    def prox(self, v, rho):
        rho = max(float(np.real(rho)), 1e-8)   # keeps the system regular
        return np.linalg.solve(
            self.AHA + rho * np.eye(self.n), self.AHs + rho *
            np.asarray(v).ravel()).reshape(self.shape)


def pick(rng, cplx=.2):
    if rng.random() < cplx:
        return np.complex128 if rng.random() < .8 else np.complex64
    return np.float64 if rng.random() < .8 else np.float32


def run(case, mon, rng):
    globals()['run_' + case['kind']](case, mon, rng)


def shape_of(rng, long=False):
    shp = tuple(int(v) for v in rng.integers(1, 3, int(rng.integers(1, 4))))
    # The problems that are solved to convergence have to be small
    return gen.stretch(rng, shp, .02, 5, 60) if long else shp


def run_admm(case, mon, rng):
    dtype = pick(rng)
    cplx = np.dtype(dtype).kind == 'c'
    sh = shape_of(rng)
    q = Quad(rng, sh, dtype)
    isprox = rng.random() < .5
    name, den = denoiser(rng, cplx, isprox)
    derived = bool(rng.random() < .4)
    o = admm_opts(rng)
    o['DataType'] = dtype
    if np.dtype(dtype) == np.float32 and rng.random() < .5:
        del o['DataType']          # the documented default
    args = []

    def pf(v, rho):
        args.append(('f', float(np.real(rho)), np.asarray(v).shape))
        return q.prox(v, rho).astype(dtype)

    def pg(v, rho):
        args.append(('g', float(np.real(rho)), np.asarray(v).shape))
        return den(v, rho).astype(dtype)
    if derived:
        class D(appp.GenericPPP):
            proxf = staticmethod(pf)
            proxg = staticmethod(pg)
            f = staticmethod(q.f)

        def fac(oo):
            return D(sh, D.Options(oo))
    else:
        def fac(oo):
            return appp.PPP(sh, q.f, pf, pg, appp.PPP.Options(oo))
    m = am.Model(
        fprox=lambda v, t: q.prox(v, 1 / t).ravel(),
        gprox=lambda v, t: den(v.reshape(sh), 1 / t).ravel(),
        stats=lambda ob, x, y, opt: {'FVal': (q.f(x), q.f(x) + float(
            np.sum(np.abs(q.s)**2)))})
    y0 = None
    if rng.random() < .4:
        y0 = {'Y0': gen.rand(rng, sh, dtype)}
        if rng.random() < .6:
            y0['U0'] = gen.rand(rng, sh, dtype)

    def extra(mon, ob, m):
        mon.ok('dtype-kept', ob.Y.dtype == np.dtype(dtype) and
               ob.U.dtype == np.dtype(dtype), sig=np.dtype(dtype).name)
        mon.ok('ppp-shape', ob.Y.shape == tuple(sh))
    tag = 'ppp/%s/%s' % (name, 'cls' if derived else 'fn')
    ob = drive(mon, rng, tag, fac, m, o, want=lambda b: b.Y if not
               b.opt['ReturnX'] else b.X,
               arrays=(q.A, q.s), extra=extra, dtype=dtype, y0=y0,
               kkt=isprox and not cplx and q.L < 50 and rng.random() < .3)
    # both user functions get the current penalty parameter, in turn
    del args[:]
    seen = []
    oo = dict(o, RelStopTol=0.0, AbsStopTol=0.0, MaxMainIter=5,
              Callback=lambda b: seen.append(float(np.real(b.rho))) or False)
    b = fac(oo)
    r0 = float(np.real(b.rho))
    del args[:]
    b.solve()
    want = [r for r in [r0] + seen[:-1] for _ in 'fg']
    if all(1e-30 < w < 1e30 for w in want):
        mon.ok('ppp-rho-arg', [a[0] for a in args] == list('fg' * 5) and
               np.allclose([a[1] for a in args], want, rtol=1e-6) and
               all(a[2] == tuple(sh) for a in args), tag=tag)


def run_pgm(case, mon, rng):
    dtype = np.float64 if rng.random() < .8 else np.float32
    sh = shape_of(rng)
    q = Quad(rng, sh, dtype)
    name, den = denoiser(rng)
    derived = bool(rng.random() < .4)
    while True:
        o = pgm_mon.rand_opts(rng, Lok=q.L, mono=False)
        if 'Backtrack' not in o and not isinstance(
                o.get('StepSizePolicy'), pgm_mon.sps.StepSizePolicyCauchy):
            break
    o['DataType'] = dtype
    if dtype is np.float32 and rng.random() < .5:
        del o['DataType']
    Ls = []

    def pg(v, L):
        Ls.append(float(L))
        return den(v, L).astype(dtype)

    def gr(x):
        return q.grad(x).astype(dtype)
    if derived:
        class D(pppp.GenericPPP):
            gradf = staticmethod(gr)
            proxg = staticmethod(pg)
            f = staticmethod(q.f)

        def fac(oo):
            return D(sh, D.Options(oo))
    else:
        def fac(oo):
            return pppp.PPP(sh, q.f, gr, pg, pppp.PPP.Options(oo))
    s = q.s
    mg = float(np.sum(s**2))
    m = pgm_mon.Model(
        lambda x: q.A @ x.ravel(), lambda r: (q.A.T @ r).reshape(sh), s,
        1.0, lambda v, L: den(v, L),
        lambda x: {'FVal': (q.f(x), q.f(x) + mg)}, None)
    x0 = gen.rand(rng, sh, dtype) if rng.random() < .4 else None
    tag = 'pgmppp/%s/%s' % (name, 'cls' if derived else 'fn')
    ob = pgm_mon.drive(mon, rng, tag, fac, m, o, arrays=(q.A, q.s),
                       dtype=dtype, x0=x0, extra=lambda mon, b, m: mon.ok(
                           'dtype-kept', b.X.dtype == np.dtype(dtype)))
    del Ls[:]
    seen = []
    b = fac(dict(o, RelStopTol=0.0, MaxMainIter=4,
                 Callback=lambda b: seen.append(float(b.L)) or False))
    with np.errstate(all='ignore'):
        b.solve()
    mon.ok('ppp-L-arg', np.allclose(Ls, seen, rtol=1e-6, equal_nan=True),
           tag=tag)


def run_pgmfix(case, mon, rng):
    """Convergence to the fixed point x = proxg(x - grad f(x) / L, L) for
    proximal denoisers with a step size below 1/Lipschitz"""
    sh = shape_of(rng)
    q = Quad(rng, sh, np.float64, good=True)
    name, den = denoiser(rng, prox=True)
    L = q.L * float(rng.choice([1.0, 1.5]))
    b = pppp.PPP(sh, q.f, q.grad, den, pppp.PPP.Options(
        {'MaxMainIter': 2500, 'RelStopTol': 1e-14, 'L': L,
         'DataType': np.float64}))
    x = b.solve()
    g = den(x - q.grad(x) / L, L)
    mon.le('pgm-fixpoint', np.max(np.abs(x - g)), 1e-7 * (
        1 + np.max(np.abs(x))), sig=name)
    # the same data and prior solved by ADMM (proximal denoisers only)
    rho = float(rng.choice([1.0, 2.0]))
    a = appp.PPP(sh, q.f, q.prox, den, appp.PPP.Options(
        {'MaxMainIter': 2000, 'RelStopTol': 1e-13, 'rho': rho,
         'DataType': np.float64, 'AutoRho': {'Enabled': False}}))
    y = a.solve()
    mon.close('pgm-admm-agree', x, y, rtol=0, atol=1e-5 * (
        1 + np.max(np.abs(x))), sig=name)


def run_cns(case, mon, rng):
    dtype = pick(rng)
    cplx = np.dtype(dtype).kind == 'c'
    tol = 1e-9 if np.dtype(dtype).name in ('float64', 'complex128') else 3e-4
    sh = shape_of(rng)
    Nb = int(rng.integers(1, 5))
    eq = bool(rng.random() < .4) and tol < 1e-6
    qs = [Quad(rng, sh, dtype, good=eq) for _ in range(Nb)]
    name, den = denoiser(rng, cplx)
    useg = bool(rng.random() < .5)
    mu = None if rng.random() < .3 else [
        rng.uniform(.2, 2.0, Nb), list(rng.uniform(.2, 2.0, Nb)),
        rng.integers(1, 4, Nb), np.ones(Nb)][rng.integers(4)]
    al = np.ones(Nb) if mu is None else np.asarray(mu, float)
    mu0 = None if mu is None else np.array(mu)
    args = []

    def mkf(i):
        def pf(v, rho):
            args.append((i, float(np.real(rho))))
            return qs[i].prox(v, rho).astype(dtype)
        return pf

    def pg(v, rho):
        args.append((-1, float(np.real(rho))))
        return den(v, rho).astype(dtype)
    fs = tuple(mkf(i) for i in range(Nb))
    derived = bool(rng.random() < .4)

    def mk(oo, fg=useg):
        oo = dict(oo, DataType=dtype)
        if np.dtype(dtype) == np.float32:
            del oo['DataType']
        if derived:
            class D(appp.GenericPPPConsensus):
                def prox_fi(self, X, rho, i):
                    return fs[i](X, rho)
            if fg:
                D.prox_g = staticmethod(pg)
            return D(sh, Nb, mu, D.Options(oo))
        return appp.PPPConsensus(
            sh, fs, proxg=pg if fg else None, mu=mu,
            opt=appp.PPPConsensus.Options(oo))
    o = admm_opts(rng, rho=True)
    recs = []

    def cb(b):
        recs.append((np.array(b.X), np.array(b.Y), np.array(b.U),
                     float(np.real(b.rho)), b.k))
        return False
    if rng.random() < .4:
        o['Y0'] = gen.rand(rng, sh, dtype)
        if rng.random() < .6:
            o['U0'] = gen.rand(rng, tuple(sh) + (Nb,), dtype)
    keep = {k: o[k].copy() for k in ('Y0', 'U0') if k in o}
    ob = mk(dict(o, Callback=cb))
    rlx = o['RelaxParam']
    prev = (None, np.array(ob.Y), np.array(ob.U), float(np.real(ob.rho)), -1)
    if 'Y0' in o:
        mon.close('init-honoured', prev[1], keep['Y0'], rtol=0, atol=0)
    if 'U0' in o:
        mon.close('init-honoured', prev[2], keep['U0'], rtol=0, atol=0)
    del args[:]
    ret = ob.solve()
    tag = 'cns/%s/%d' % (name if useg else 'none', Nb)
    mon.ok('iter-count', [r[4] for r in recs] == list(range(len(recs))) and
           1 <= len(recs) <= o['MaxMainIter'] and
           len(ob.itstat) == len(recs))
    per = Nb + (1 if useg else 0)
    order = list(range(Nb)) + ([-1] if useg else [])
    # every user function is evaluated once per iteration (the blocks in any
    # order)
    mon.ok('cns-order', len(args) == per * len(recs) and all(
        sorted(a[0] for a in args[j * per:(j + 1) * per]) == sorted(order)
        for j in range(len(recs))), tag=tag)
    asum = float(np.sum(al))
    dead = False
    for j, r in enumerate(recs):
        X, Y, U, rho1, k = r
        _, Yp, Up, rho, _ = prev
        if not 1e-4 < rho < 1e6 or np.max(np.abs(Yp)) > 1e6 or \
                np.max(np.abs(Up)) > 1e6:
            mon.event('history-extreme')
            dead = True
            break
        for i, ra in args[j * per:(j + 1) * per]:
            rw = rho if i >= 0 else asum * rho
            mon.ok('cns-rho-arg', abs(ra - rw) <= 1e-5 * rw, sig='%s' % (
                i >= 0), rho=rho, got=ra)
        ref = np.stack([qs[i].prox(Yp - Up[..., i], rho)
                        for i in range(Nb)], -1)
        sc = 1e-9 + max(np.max(np.abs(ref)), np.max(np.abs(Yp)),
                        np.max(np.abs(Up)))
        mon.close('cns-x', X, ref, rtol=0, atol=10 * tol * sc, sig=tag,
                  k=k)
        AX = rlx * X + (1 - rlx) * Yp[..., None]
        v = np.sum(al * (AX + Up), -1) / asum
        yr = den(v, asum * rho) if useg else v
        mon.close('cns-y', Y, yr, rtol=0, atol=20 * tol * sc, sig=tag, k=k)
        ur = (Up + AX - Y[..., None]) * (rho / rho1)
        mon.close('cns-u', U, ur, rtol=0, atol=40 * tol * sc * max(
            1, rho / rho1), sig=tag, k=k)
        st = ob.itstat[j]
        done = st.PrimalRsdl < st.EpsPrimal and st.DualRsdl < st.EpsDual
        if j < len(recs) - 1:
            mon.ok('cns-stop', not done, k=k)
        elif len(recs) < o['MaxMainIter']:
            mon.ok('cns-stop', done, k=k)
        mon.close('itstat-rho', float(np.real(st.Rho)), rho, rtol=1e-5)
        prev = r
    if not dead:
        mon.close('getmin', ret, recs[-1][1], rtol=0, atol=0)
    mon.ok('dtype-kept', ob.X.dtype == np.dtype(dtype) and
           ob.Y.dtype == np.dtype(dtype) and ob.U.dtype == np.dtype(dtype),
           sig=np.dtype(dtype).name, X=str(ob.X.dtype), Y=str(ob.Y.dtype))
    if mu is not None:
        mon.ok('mu-unchanged', np.array_equal(mu0, np.array(mu)))
    for k, v in keep.items():
        mon.ok('init-unchanged', np.array_equal(v, o[k]), key=k)
    if eq:
        # no regulariser: the equilibrium is the weighted least squares
        # solution
        b = mk({'MaxMainIter': 1500, 'RelStopTol': 1e-13, 'rho': 1.0,
                'RelaxParam': rlx, 'AutoRho': {'Enabled': False}}, fg=False)
        y = b.solve()
        H = sum(a * q.AHA for a, q in zip(al, qs))
        g = sum(a * q.AHs for a, q in zip(al, qs))
        w = np.linalg.solve(H, g).reshape(sh)
        mon.close('cns-equilibrium', y, w, rtol=0, atol=1e-6 * (
            1 + np.max(np.abs(w))), sig=tag)
