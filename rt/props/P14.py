"""Convergence of proximal gradient solvers and agreement between solvers of
the same problem, judged by duality gap certificates."""
import numpy as np

import sporco.fft as sfft
from sporco.pgm import bpdn as pbpdn, cbpdn as pcbpdn
from sporco.pgm import momentum as spm
from sporco.pgm import backtrack as spb
from sporco.admm import bpdn as abpdn, cbpdn as acbpdn
from rt import csc
from rt.props.P13 import soft, rand_mask

sfft.pyfftw_threads = 1

RULE = ('A case draws a strictly l1-weighted sparse coding problem (dense, '
        'convolutional, masked; optional nonnegativity / boundary '
        'constraint) and runs proximal gradient and ADMM solvers on it. '
        'Every iterate of an accelerated run is compared with the FISTA rate '
        'bound evaluated at a point whose optimality is certified by a dual '
        'feasible point, and final iterates are certified by the duality '
        'gap. Non-trivial = distinct (problem kind, scheme, geometry).')
ASSUMPTIONS = ['rate bound asserted for Nesterov momentum with fixed L at '
               'least the Lipschitz constant, with standard backtracking, '
               'and with robust backtracking',
               'final accuracy asserted for well scaled problems only']
EXPECT = {'rate', 'rate-bt', 'rate-robust', 'gap-pgm', 'gap-admm',
          'agree', 'fixed-point', 'monotone-final', 'gap-ref'}

KINDS = ['bpdn', 'wbpdn', 'cbpdn', 'cmask']


def cases(tier):
    k = 140 if tier == 'quick' else 400
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


class Prob:
    """min 1/2 sum w2 (A x - s)^2 + lm |wl x|_1 (+ x>=0) (+ x=0 off keep)"""

    def gap(self, x):
        """Certified upper bound of F(x) - F*, and F(x)"""
        r = self.s - self.fwd(x)
        F = 0.5 * np.sum(self.w2 * r**2) + self.lm * np.sum(
            np.abs(self.wl * x))
        c = self.adj(self.w2 * r) * self.keep
        c = np.maximum(c, 0) if self.nn else np.abs(c)
        lim = self.lm * self.wl * np.ones_like(c)
        q = np.max(c / lim)
        a = 1.0 / max(q, 1.0)
        # scale of the dual point maximising the dual objective
        rs, rr = np.sum(self.w2 * r * self.s), np.sum(self.w2 * r * r)
        if rr > 0:
            a = min(max(rs / rr, 0.0), 1.0 / max(q, 1e-300))
        dual = a * rs - 0.5 * a * a * rr
        return F - dual, F

    def fista(self, x0, n):
        x, y, t = x0, x0, 1.0
        for _ in range(n):
            g = self.adj(self.w2 * (self.fwd(y) - self.s))
            xn = soft(y - g / self.L, self.lm * self.wl / self.L)
            if self.nn:
                xn = np.maximum(xn, 0)
            xn = xn * self.keep
            tn = .5 * (1 + np.sqrt(1 + 4 * t * t))
            if np.sum((y - xn) * (xn - x)) > 0:      # restart
                t, tn = 1.0, 1.0
                y = xn
            else:
                y = xn + (t - 1) / tn * (xn - x)
            x, t = xn, tn
        return x


def mkprob(kind, rng):
    p = Prob()
    p.nn = bool(rng.random() < .3)
    p.lm = float(rng.choice([.05, .2, .6]))
    p.keep = 1.0
    p.kind = kind
    if kind in ('bpdn', 'wbpdn'):
        n, k, c = (int(rng.integers(3, 9)), int(rng.integers(2, 9)),
                   int(rng.integers(1, 4)))
        D = rng.standard_normal((n, k))
        D /= np.linalg.norm(D, axis=0)
        S = rng.standard_normal((n, c))
        p.fwd, p.adj, p.s = lambda x: D @ x, lambda r: D.T @ r, S
        p.w2 = np.ones((n, c))
        if kind == 'wbpdn':
            p.w2 = rng.uniform(.2, 2, (n, c))
        p.xshape = (k, c)
        p.L = np.linalg.norm(D, 2)**2 * p.w2.max()
        p.D, p.S = D, S
        p.sig = 'k%d' % (k > n)
    else:
        g = csc.Geo(rng, np.float64, Mmax=3, hi=6, big=False)
        g.Si = rng.standard_normal(g.Si.shape)
        g.S = g.Si.reshape(g.S.shape)
        p.g = g
        op = csc.ConvOp(g)
        p.fwd, p.adj, p.s = op.fwd, op.adj, g.Si
        p.w2 = np.ones(g.sshape)
        p.W = None
        if kind == 'cmask':
            p.W = rand_mask(rng, g, np.float64)
            p.w2 = p.W**2 * np.ones(g.sshape)
        p.xshape = g.xshape
        p.nb = bool(rng.random() < .3)
        if p.nb:
            keep = np.ones(g.xshape)
            for a in range(g.dimN):
                idx = np.arange(g.Nv[a]) > g.Nv[a] - g.dsz[a]
                sh = [1] * (g.dimN + 3)
                sh[a] = g.Nv[a]
                keep = keep * (1 - idx.reshape(sh))
            p.keep = keep
        Df = op.Df
        if g.Cd == 1:
            L = np.max(np.sum(np.abs(Df)**2, axis=g.dimN + 2))
        else:
            L = np.max(np.sum(np.abs(Df)**2, axis=(g.dimN, g.dimN + 2)))
        p.L = L * max(p.w2.max(), 1e-3)
        p.sig = g.desc()
    p.wl = np.ones(p.xshape)
    p.wlopt = None
    if rng.random() < .5:
        p.wl = rng.uniform(.3, 2, p.xshape)
        p.wlopt = p.wl
    return p


def pgm_solver(p, opts):
    o = dict(opts)
    if p.nn:
        o['NonNegCoef'] = True
    if p.wlopt is not None:
        o['L1Weight'] = p.wlopt
    if p.kind == 'bpdn':
        c = pbpdn.BPDN
        return c(p.D, p.S, p.lm, c.Options(o))
    if p.kind == 'wbpdn':
        c = pbpdn.WeightedBPDN
        return c(p.D, p.S, p.lm, p.w2, c.Options(o))
    if p.nb:
        o['NoBndryCross'] = True
    if p.kind == 'cbpdn':
        c = pcbpdn.ConvBPDN
        return c(p.g.D, p.g.S, p.lm, c.Options(o), **p.g.kw)
    c = pcbpdn.ConvBPDNMask
    return c(p.g.D, p.g.S, p.lm, p.W, c.Options(o), **p.g.kw)


def admm_solver(p, opts):
    o = dict(opts)
    if p.nn:
        o['NonNegCoef'] = True
    if p.wlopt is not None:
        o['L1Weight'] = p.wlopt
    if p.kind == 'bpdn':
        c = abpdn.BPDN
        return c(p.D, p.S, p.lm, c.Options(o))
    if p.nb:
        o['NoBndryCross'] = True
    if p.kind == 'cbpdn':
        c = acbpdn.ConvBPDN
        return c(p.g.D, p.g.S, p.lm, c.Options(o), **p.g.kw)
    c = acbpdn.ConvBPDNMaskDcpl
    return c(p.g.D, p.g.S, p.lm, p.W, c.Options(o), **p.g.kw)


def run(case, mon, rng):
    p = mkprob(case['kind'], rng)
    sig = '%s/%s/%s%s' % (p.kind, p.sig, 'nn' if p.nn else '',
                          'nb' if getattr(p, 'nb', False) else '')
    x0 = rng.standard_normal(p.xshape) if rng.random() < .5 else np.zeros(
        p.xshape)
    z = p.fista(x0 * p.keep, 1500)
    gz, Fz = p.gap(z)
    if not gz <= 1e-7 * (1 + abs(Fz)):
        z = p.fista(z, 6000)
        gz, Fz = p.gap(z)
    if not gz <= 1e-5 * (1 + abs(Fz)):
        mon.event('reference-not-certified')
        return
    mon.ok('gap-ref', gz >= -1e-9 * (1 + abs(Fz)), gap=gz)
    tol = gz + 1e-8 * (1 + abs(Fz))
    d0 = np.sum((x0 - z)**2)
    N = int(rng.integers(3, 40))
    # -- fixed step size ----------------------------------------------------
    Ls = p.L * float(rng.choice([1.0, 1.5, 10.0]))
    xs = []
    cb = lambda ob: xs.append((np.array(ob.X, float), float(ob.L)))
    base = {'X0': x0, 'MaxMainIter': N, 'RelStopTol': 0.0, 'Callback': cb}
    ob = pgm_solver(p, dict(base, L=Ls, Momentum=spm.MomentumNesterov()))
    ob.solve()
    for k, (x, L) in enumerate(xs, 1):
        mon.le('rate', p.gap(x)[1] - Fz, 2 * Ls * d0 / (k + 1)**2 + tol,
               sig=sig, k=k)
    # -- standard backtracking ---------------------------------------------
    gu = float(rng.choice([1.2, 2.0]))
    L0 = p.L * 10**rng.uniform(-2, .3)
    xs.clear()
    ob = pgm_solver(p, dict(base, L=L0, Backtrack=spb.BacktrackStandard(
        gamma_u=gu, maxiter=200)))
    ob.solve()
    for k, (x, L) in enumerate(xs, 1):
        mon.le('rate-bt', p.gap(x)[1] - Fz, 2 * L * d0 / (k + 1)**2 + tol,
               sig=sig, k=k)
    # -- robust backtracking (A_k bound) -------------------------------------
    gd = float(rng.choice([.7, .9, 1.0]))
    xs.clear()
    ob = pgm_solver(p, dict(base, L=L0, Backtrack=spb.BacktrackRobust(
        gamma_d=gd, gamma_u=gu, maxiter=200)))
    ob.solve()
    T = 0.0
    for k, (x, L) in enumerate(xs, 1):
        T += (1 + np.sqrt(1 + 4 * L * T)) / (2 * L)
        mon.le('rate-robust', p.gap(x)[1] - Fz, d0 / (2 * T) + tol, sig=sig,
               k=k)
    # -- final accuracy ------------------------------------------------------
    if case['n'] % 4:
        return
    how = int(rng.integers(4))
    o = {'MaxMainIter': 3000, 'RelStopTol': 1e-9 if p.kind in (
        'bpdn', 'wbpdn') else 1e-18, 'L': p.L * 1.01, 'X0': x0}
    if how == 1:
        o['Backtrack'] = spb.BacktrackRobust()
    elif how == 2:
        o['Monotone'] = True
    elif how == 3:
        o['Momentum'] = spm.MomentumLinear()
    ob = pgm_solver(p, o)
    x = np.array(ob.solve(), float)
    gap, F = p.gap(x)
    mon.le('gap-pgm', F - Fz, 1e-3 * (1 + abs(Fz)) + tol, sig='%s/%d' % (
        sig, how), how=how)
    if how == 2:
        obj = [s.ObjFun for s in ob.itstat]
        mon.ok('monotone-final', all(
            b <= a + 1e-9 * (1 + abs(a)) for a, b in zip(obj, obj[1:])))
    # restarting from the solution stays at the solution
    xs.clear()
    ob = pgm_solver(p, dict(base, X0=z.copy(), L=p.L * 1.01, MaxMainIter=3))
    ob.solve()
    for x, _ in xs:
        mon.le('fixed-point', p.gap(x)[1] - Fz, gz + 1e-8 * (1 + abs(Fz)),
               sig=sig)
    if p.kind == 'wbpdn':
        return
    rho = float(rng.choice([.5, 2.0]))
    ob = admm_solver(p, {'MaxMainIter': 2000, 'RelStopTol': 1e-6,
                         'AbsStopTol': 0.0, 'rho': rho,
                         'AutoRho': {'Enabled': False}})
    y = np.array(ob.solve(), float)
    if p.kind == 'cmask':
        y = np.array(ob.block_sep1(ob.Y), float)
    F2 = p.gap(y * p.keep)[1]
    st = ob.getitstat()
    conv = len(st.Iter) < 2000
    mon.event('admm-converged' if conv else 'admm-not-converged')
    if conv:
        mon.le('gap-admm', F2 - Fz, 1e-2 * (1 + abs(Fz)) + tol, sig=sig)
        mon.close('agree', F2, F, rtol=0, atol=2e-2 * (1 + abs(Fz)),
                  sig=sig)
