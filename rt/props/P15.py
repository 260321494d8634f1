"""Constrained dictionary update by ADMM (sporco.admm.cmod, ccmod,
ccmodmd)."""
import numpy as np

import sporco.fft as sfft
from sporco.admm import cmod, ccmod, ccmodmd
from rt import admm_mon as am
from rt import csc, gen
from rt.drive import drive, admm_opts, eval_vars, same_hist
from rt.props.P13 import normalise, colnorm, rand_mask

sfft.pyfftw_threads = 1

RULE = ('A case draws coefficients, signals, an optional mask, a filter '
        'support and an option set for one of the dictionary update solvers '
        '(dense, iterated Sherman-Morrison, CG, consensus, and their masked '
        'versions), runs one or two solve() calls (possibly replacing the '
        'coefficients in between), replays each iteration on an independent '
        'model and checks the returned dictionary against the constraint '
        'set. Non-trivial = distinct (solver, geometry, dtype, options '
        'class, penalty decision).')
ASSUMPTIONS = ['spatial sizes up to 8 per axis, at most 4 filters',
               'CG x steps are held to the requested CG tolerance']
EXPECT = {'xstep', 'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual',
          'eps-primal', 'eps-dual', 'itstat-objfn', 'rho-update',
          'init-honoured', 'xslv-relres', 'feasible', 'support', 'getdict',
          'fastsolve-same', 'inputs-unchanged', 'xstep-cg', 'cg-agrees',
          'reconstruct', 'zero-mean', 'getmin', 'dtype-kept', 'method-fn'}

KINDS = ['cmod', 'ism', 'cg', 'cns', 'mism', 'mcg', 'mcns', 'cgagree',
         'cplx']


def cases(tier):
    k = 300 if tier == 'quick' else 1200
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


def run(case, mon, rng):
    kind = case['kind']
    if kind == 'cmod':
        return run_cmod(case, mon, rng)
    cplx = kind == 'cplx'
    dtype = np.float64 if rng.random() < .8 or kind == 'cgagree' else \
        np.float32
    if cplx:
        dtype = np.complex128 if rng.random() < .8 else np.complex64
        kind = str(rng.choice(['ism', 'cns']))
    run_conv(case, mon, rng, kind, dtype, cplx)


def run_cmod(case, mon, rng):
    dtype = np.float64 if rng.random() < .8 else np.float32
    n, k, c = (int(rng.integers(2, 8)), int(rng.integers(1, 7)),
               int(rng.integers(1, 9)))
    Z = gen.layout(rng, (rng.standard_normal((k, c)) * (
        rng.random((k, c)) < .7)).astype(dtype))
    Z2 = rng.standard_normal((k, c)).astype(dtype)
    S = gen.layout(rng, (rng.standard_normal((n, c)) * 10.0**rng.integers(
        -1, 2)).astype(dtype))
    o = admm_opts(rng)
    zm = bool(rng.random() < .4)
    if zm:
        o['ZeroMean'] = True
    if rng.random() < .6:
        o['AuxVarObj'] = bool(rng.random() < .5)
    eval_vars(rng, o)
    if rng.random() < .3:
        o['ReturnX'] = bool(rng.random() < .5)
    Sd = S.astype(float)

    def pre(v):
        V = v.reshape(n, k)
        return V - V.mean(0, keepdims=True) if zm else V

    def prox(v):
        return normalise(pre(v), 0).ravel()

    def gcond(v):
        nv = colnorm(pre(v), 0)
        nv = nv[nv > 0]
        return np.max(np.abs(v)) / nv.min() if nv.size else 1.0

    def mk(Zm):
        Zd = Zm.astype(float)

        def stats(obj, x, y, opt):
            F = (x if opt['fEvalX'] else y).reshape(n, k)
            G = y if opt['gEvalY'] else x
            d = .5 * np.sum((F @ Zd - Sd)**2)
            return {'DFid': (d, d + np.sum(Sd**2)),
                    'Cnstr': (np.linalg.norm(prox(G) - G),
                              np.linalg.norm(G) + np.sqrt(k))}
        return am.Model(H=lambda x: (x.reshape(n, k) @ Zd @ Zd.T).ravel(),
                        q=(Sd @ Zd.T).ravel(), gprox=lambda v, t: prox(v),
                        stats=stats, gcond=gcond)
    cls = cmod.CnstrMOD

    def extra(mon, obj, m):
        X = np.asarray(obj.getdict(), float)
        mon.ok('dtype-kept', obj.Y.dtype == np.dtype(dtype))
        feasible(mon, X, (0,), zm, dtype, 'cmod', n)
        mon.close('getdict', X, np.asarray(obj.Y, float), rtol=0, atol=0)
    y0 = init(rng, (n, k), (n, k), dtype)
    drive(mon, rng, 'cmod', lambda oo: cls(Z, S, opt=cls.Options(oo)), mk(Z),
          o, want=lambda b: b.X if b.opt['ReturnX'] else b.Y,
          arrays=(Z, S), setdict=(lambda b: gen.put(rng, b.setcoef, Z2), mk(Z2)) if
          rng.random() < .4 else None, extra=extra, dtype=dtype, y0=y0,
          lsc=False)


def init(rng, ysh, ush, dtype):
    def r(sh):
        x = rng.standard_normal(sh)
        if np.dtype(dtype).kind == 'c':
            x = x + 1j * rng.standard_normal(sh)
        return x.astype(dtype)
    ch = rng.random()
    if ch < .4:
        return None
    y0 = {}
    if ch > .55:
        y0['Y0'] = r(ysh)
    if ch < .85:
        y0['U0'] = r(ush)
    return y0


def feasible(mon, X, nax, zm, dtype, tag, npt=2):
    nv = np.sqrt(np.sum(np.abs(X)**2, axis=nax))
    tl = 1e-7 if np.dtype(dtype).name in ('float64', 'complex128') else 1e-3
    mon.ok('feasible', np.all((np.abs(nv - 1) < tl) | (nv == 0)), tag=tag,
           nv=nv)
    if zm and npt > 1 and tl < 1e-6:
        mx = X.mean(nax if tag == 'cmod' else nax[:-1])
        mon.close('zero-mean', mx, 0 * mx, rtol=0, atol=1e-5)


def run_conv(case, mon, rng, kind, dtype, cplx):
    g = csc.Geo(rng, dtype, cplx, dimK_arg=True)
    dn, axC, axK, axM = g.dimN, g.dimN, g.dimN + 1, g.dimN + 2
    mask = kind[0] == 'm'
    meth = {'cgagree': 'ism'}.get(kind, kind[1:] if mask else kind)
    zs = g.Nv + (g.Cx, g.K, g.M)

    def rz(p):
        z = rng.standard_normal(zs) * (rng.random(zs) < p)
        if cplx:
            z = z + 1j * rng.standard_normal(zs)
        return z.astype(dtype)
    Z, Z2 = rz(.5), rz(1.0)
    dsz = g.dsz + ((g.Cd, g.M) if g.Cd > 1 else (g.M,))
    S = gen.layout(rng, g.S)
    Zi = gen.layout(rng, Z)
    zm = bool(rng.random() < .4)
    o = admm_opts(rng)
    if kind == 'cgagree':
        o['AutoRho'] = {'Enabled': False}
    elif 'AutoRho' not in o and not mask:
        # the defaults of these classes enable an aggressive scheme
        pass
    if zm:
        o['ZeroMean'] = True
    if rng.random() < .6:
        o['AuxVarObj'] = bool(rng.random() < .5)
    eval_vars(rng, o)
    o['LinSolveCheck'] = bool(rng.random() < .5)
    if rng.random() < .2:
        o['RelStopTol'] = .6
        o['MaxMainIter'] = 20
    cns = meth == 'cns'
    if rng.random() < .4 and not cns:
        if mask:
            o['ReturnVar'] = str(rng.choice(['X', 'Y0', 'Y1']))
        else:
            o['ReturnX'] = bool(rng.random() < .5)
    cgtol = 1e-3
    if meth == 'cg' and rng.random() < .6:
        cgtol = float(rng.choice([1e-2, 1e-6]))
        o['CG'] = {'StopTol': cgtol}
    W = None
    w2 = 1.0
    if mask:
        Wi = rand_mask(rng, g, dtype)
        w2 = np.broadcast_to(Wi.astype(float)**2, g.sshape)
        W = Wi
        if rng.random() < .6:
            W = Wi.reshape(g.Nv + ((Wi.shape[dn],) if g.dC else ()) +
                           ((Wi.shape[dn + 1],) if g.dK else ()))
        W = gen.layout(rng, gen.mtype(rng, W))
    # internal problem: fold channels onto signals for one-channel filters
    flat = g.Cd == 1 and g.C > 1
    ss = g.Nv + ((1, g.C * g.K) if flat else (g.C, g.K)) + (1,)
    Sd = g.Si.astype(complex if cplx else float).reshape(ss)
    if mask:
        w2 = w2.reshape(ss)
    Nb = ss[axK]
    xsh = g.Nv + (g.Cd, 1, g.M)
    nx = int(np.prod(xsh))
    sup = tuple(slice(0, d) for d in g.dsz)
    re = (lambda x: x) if cplx else (lambda x: x.real)

    def pre(v):
        u = np.zeros_like(v)
        w = v[sup]
        if zm:
            w = w - np.mean(w, axis=tuple(range(dn)), keepdims=True)
        u[sup] = w
        return u
    nax = tuple(range(dn)) + (axC,)

    def pcn(v):
        p = pre(v)
        n = np.sqrt(np.sum(np.abs(p)**2, axis=nax, keepdims=True))
        return p / np.where(n == 0, 1.0, n)

    def cond(v):
        n = np.sqrt(np.sum(np.abs(pre(v))**2, axis=nax, keepdims=True))
        # a vanishing filter may be rounding noise in the solver, unless it
        # has a single sample with its mean removed
        if np.any((n == 0) & np.any(v != 0, axis=nax, keepdims=True)) and \
                not (zm and np.prod(g.dsz) == 1):
            return 1e20
        n = n[n > 0]
        return np.max(np.abs(v)) / n.min() if n.size else 1.0

    def mk(Zm):
        Zd = Zm.astype(Sd.dtype).reshape(g.Nv + (
            (1, g.C * g.K) if flat else (g.Cx, g.K)) + (g.M,))
        Zf = np.fft.fftn(Zd, axes=g.axN)

        def fwd(x):      # (Nv,Cd,1,M) or stack -> (Nv,C,K,1)
            r = np.sum(Zf * np.fft.fftn(x, axes=g.axN), axis=axM,
                       keepdims=True)
            return re(np.fft.ifftn(r, axes=g.axN))

        def adjk(r):     # (Nv,C,K,1) -> (Nv,Cd,K,M)
            return re(np.fft.ifftn(np.conj(Zf) * np.fft.fftn(
                r, axes=g.axN), axes=g.axN))

        def adj(r):
            return np.sum(adjk(r), axis=axK, keepdims=True)

        def dfd(x):
            r = fwd(x) - Sd
            return .5 * np.sum(w2 * np.abs(r)**2)
        mag = np.sum(np.abs(Sd)**2)

        def st_common(F, G):
            d = dfd(F)
            return {'DFid': (d, d + mag), 'Cnstr': (
                np.linalg.norm(pcn(G) - G), np.linalg.norm(G) +
                np.sqrt(g.M))}
        R = lambda x: x.reshape(xsh)
        if not cns and not mask:
            def stats(obj, x, y, opt):
                return st_common(R(x if opt['fEvalX'] else y),
                                 R(y if opt['gEvalY'] else x))
            return am.Model(H=lambda x: adj(fwd(R(x))).ravel(),
                            q=adj(Sd).ravel(), stats=stats,
                            gprox=lambda v, t: pcn(R(v)).ravel(),
                            gcond=lambda v: cond(R(v)))
        n0 = int(np.prod(ss))
        if not cns:
            def stats(obj, x, y, opt):
                if opt['AuxVarObj']:
                    d = .5 * np.sum(w2 * y[:n0].reshape(ss)**2)
                    G = R(y[n0:])
                else:
                    d, G = dfd(R(x)), R(x)
                return {'DFid': (d, d + mag), 'Cnstr': (
                    np.linalg.norm(pcn(G) - G), np.linalg.norm(G) +
                    np.sqrt(g.M))}
            return am.Model(
                A=(lambda x: np.concatenate((fwd(R(x)).ravel(), x)),
                   lambda y: adj(y[:n0].reshape(ss)).ravel() + y[n0:]),
                c=np.concatenate((Sd.ravel(), np.zeros(nx))), stats=stats,
                gprox=lambda v, t: np.concatenate((
                    (v[:n0].reshape(ss) / (1 + t * w2)).ravel(),
                    pcn(R(v[n0:])).ravel())),
                gcond=lambda v: cond(R(v[n0:])), yflat=am.two_block,
                rsdl='AtU')
        # consensus: flat x is (Nv,Cd,1,M,Nb)
        S5 = lambda x: x.reshape(xsh + (Nb,))

        def tok(x):      # (Nv,Cd,1,M,Nb) -> (Nv,Cd,Nb,M)
            return np.moveaxis(S5(x)[(slice(None),) * axK + (0,)], -1, axK)

        def fromk(z):    # (Nv,Cd,Nb,M) -> flat
            return np.expand_dims(np.moveaxis(z, axK, -1), axK).ravel()

        def rep(y):
            return np.repeat(y[..., None], Nb, axis=-1).ravel()

        def stats(obj, x, y, opt):
            yy = S5(y[-nx * Nb:])[..., 0]
            F = tok(x) if opt['fEvalX'] else yy
            G = yy if opt['gEvalY'] else np.mean(S5(x), axis=-1)
            return st_common(F, G)

        def gp(v):
            return rep(pcn(np.mean(S5(v), axis=-1)))

        def gc(v):
            return cond(np.mean(S5(v), axis=-1))

        def fwdk(x):     # blockwise
            return fwd(tok(x))
        if not mask:
            return am.Model(H=lambda x: fromk(adjk(fwdk(x))),
                            q=fromk(adjk(Sd)), gprox=lambda v, t: gp(v),
                            gcond=gc, stats=stats,
                            yflat=lambda ob, y: y.ravel() if y.ndim ==
                            len(xsh) + 1 else rep(y))

        def yf(ob, y):
            if y is ob.Y:
                return np.concatenate((ob.Y1.ravel(), rep(y)))
            if y is ob.U:
                return np.concatenate((ob.U1.ravel(), y.ravel()))
            if y.ndim == len(xsh) + 1:       # initial value of U
                return np.concatenate((np.zeros(n0), y.ravel()))
            return np.concatenate((np.zeros(n0), rep(y)))
        return am.Model(
            A=(lambda x: np.concatenate((fwdk(x).ravel(), x)),
               lambda y: fromk(adjk(y[:n0].reshape(ss))) + y[n0:]),
            c=np.concatenate((Sd.ravel(), np.zeros(nx * Nb))), stats=stats,
            gprox=lambda v, t: np.concatenate((
                (v[:n0].reshape(ss) / (1 + t * w2)).ravel(), gp(v[n0:]))),
            gcond=lambda v: gc(v[n0:]), yflat=yf, rsdl='AtU')
    mod = ccmodmd if mask else ccmod
    name = 'ConvCnstrMOD' + ('MaskDcpl' if mask else '')
    cls = getattr(mod, name + {'ism': '_IterSM', 'cg': '_CG',
                               'cns': '_Consensus'}[meth])
    viafn = rng.random() < .3
    fn, ofn = getattr(mod, name), getattr(mod, name + 'Options')

    def fac(oo, m_=None):
        args = (Zi, S, W, dsz) if mask else (Zi, S, dsz)
        if m_ is not None:
            return fn(*args, opt=ofn(oo, method=m_), method=m_, **g.kw)
        if viafn:
            b = fn(*args, opt=ofn(oo, method=meth), method=meth, **g.kw)
            mon.ok('method-fn', isinstance(b, cls), meth=meth)
            return b
        return cls(*args, cls.Options(oo), **g.kw)
    tag = '%s%s/%s/%s' % ('cplx' if cplx else '', kind, g.desc(),
                          np.dtype(dtype).name)
    if kind == 'cgagree':
        # the CG solver with a tight tolerance follows the exact solver
        mk_ = str(rng.choice(['', 'm']))
        N = int(rng.integers(2, 6))
        o.update(MaxMainIter=N, RelStopTol=0.0, AbsStopTol=0.0)
        o.pop('CG', None)
        o.pop('ReturnX', None)
        hs = []
        for me, cgo in (('ism', {}), ('cg', {'CG': {'StopTol': 1e-11}})):
            rr = []
            cb = lambda b: rr.append({'k': b.k, 'X': np.array(b.X), 'Y':
                                      np.array(b.Y), 'U': np.array(b.U),
                                      'rho': b.rho}) and None
            fac(dict(o, Callback=cb, **cgo), me).solve()
            hs.append(rr)
        amp = max(1.0, max(cond(h['X']) for h in hs[0]))**2
        if amp < 1e4:
            same_hist(mon, 'cg-agrees', hs[0], hs[1], tag, tol=1e-7 * amp)
        return
    m = mk(Z)
    if meth == 'cg':
        axn = g.axN

        def xtol(mon, tag, obj, rec, prev, AX, st):
            X, rho = rec['X'], prev['rho']
            if mask:
                rhs = -m_cur[0].mulAH(m.sB * prev['Y'] - m.c + prev['U'])
                lhs = m_cur[0].mulAH(AX)
                canc = am.nrm(m_cur[0].mulAH(np.abs(prev['Y']) + np.abs(
                    m.c) + np.abs(prev['U']))) + am.nrm(prev['Y']) + am.nrm(
                        prev['U'])
            else:
                rhs = -rho * (m.sB * prev['Y'] - m.c + prev['U']) + \
                    m_cur[0].q
                canc = rho * (am.nrm(prev['Y']) + am.nrm(prev['U'])) + \
                    am.nrm(m_cur[0].q)
                lhs = rho * AX + m_cur[0].H(X)
            tr = lambda z: np.fft.rfftn(z.reshape(xsh), axes=axn)
            e = np.linalg.norm(tr(lhs - rhs))
            b = np.linalg.norm(tr(rhs))
            eps = 1e-9 if obj.dtype == np.float64 else 1e-3
            ill = eps * (np.linalg.norm(tr(lhs)) + rho * np.linalg.norm(
                tr(X)) + canc * np.sqrt(X.size))
            if obj.cgit == 0:
                mon.le('xstep-cg', e, cgtol * b * 1.01 + 50 * ill, sig=tag,
                       k=rec['k'])
            else:
                mon.event('cg-not-converged')
        m_cur = [m]
        m.xtol = xtol

    def extra(mon, obj, m):
        Y = np.asarray(obj.Y if not mask or cns else obj.block_sep1(obj.Y))
        mon.ok('dtype-kept', Y.dtype == np.dtype(dtype), dt=str(Y.dtype))
        feasible(mon, Y[sup], nax, zm, dtype, tag, int(np.prod(g.dsz)))
        z = np.array(Y)
        z[sup] = 0
        mon.ok('support', not np.any(z), tag=tag)
        mon.close('getdict', obj.getdict(), Y[sup], rtol=0, atol=0)
        mon.close('getdict', obj.getdict(crop=False), Y, rtol=0, atol=0)
        if not cns:
            Zm = m.Zm.astype(Sd.dtype).reshape(g.Nv + (
                (1, g.C * g.K) if flat else (g.Cx, g.K)) + (g.M,))
            Zf = np.fft.fftn(Zm, axes=g.axN)
            tl = 1e-8 if np.dtype(dtype).name in (
                'float64', 'complex128') else 2e-3
            for D in (None, Y):
                ref = re(np.fft.ifftn(np.sum(Zf * np.fft.fftn(np.asarray(
                    obj.X if D is None else D), axes=g.axN), axis=axM),
                    axes=g.axN))
                mon.close('reconstruct', np.asarray(obj.reconstruct(D)
                                                    ).reshape(ref.shape),
                          ref, rtol=0, atol=tl * (1 + np.max(np.abs(ref)) +
                                                  np.max(np.abs(obj.X)) *
                                                  np.max(np.abs(Zm))),
                          tag=tag)
    m.Zm = Z
    sd = None
    if rng.random() < .4:
        m2 = mk(Z2)
        m2.Zm = Z2
        m2.xtol = m.xtol

        def sd_fn(b):
            gen.put(rng, b.setcoef, Z2)
            if meth == 'cg':
                m_cur[0] = m2
        sd = (sd_fn, m2)
    y0 = None
    if mask and not cns:
        ysh = list(g.Nv + (g.Cd, 1, g.M))
        ysh[axM] += Nb
        y0 = init(rng, tuple(ysh), tuple(ysh), dtype)
    elif cns:
        y0 = init(rng, xsh, xsh + (Nb,), dtype)
    else:
        y0 = init(rng, xsh, xsh, dtype)

    def want(b):
        if cns:
            return b.Y
        if mask:
            return {'X': b.X, 'Y0': b.block_sep0(b.Y), 'Y1': b.block_sep1(
                b.Y)}[b.opt['ReturnVar']]
        return b.X if b.opt['ReturnX'] else b.Y
    drive(mon, rng, tag, fac, m, o, want=want,
          arrays=(Zi, S) + ((W,) if mask else ()), setdict=sd, extra=
          lambda mon, b, mm: extra(mon, b, m2 if sd and m_is2(b, Z2) else m),
          dtype=dtype, y0=y0, lsctol=cgtol * 1.1 + (
              0 if dtype == np.float64 else 2e-2) if meth == 'cg' else None)


def m_is2(b, Z2):
    return np.array_equal(np.asarray(b.Z).ravel(), Z2.ravel())
