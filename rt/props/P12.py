"""Product dictionary, total variation and inhibition variants of
convolutional sparse coding (sporco.admm.pdcsc, cbpdntv, cbpdnin)."""
import numpy as np
from scipy import signal as ssig

import sporco.fft as sfft
from sporco.admm import pdcsc, cbpdntv, cbpdnin
from rt import admm_mon as am
from rt import csc, gen
from rt.drive import drive, admm_opts, eval_vars
from rt.props.P10 import build_opts, want_fn

sfft.pyfftw_threads = 1

RULE = ('A case draws a geometry, dictionaries (convolutional and, for the '
        'product forms, a channel dictionary), weights, options and initial '
        'values for one of the solvers, runs one or two solve() calls '
        '(possibly replacing either dictionary in between) and replays each '
        'recorded iteration on an independent model. Non-trivial = distinct '
        '(solver, geometry, dtype, weight class, penalty decision).')
ASSUMPTIONS = ['the number of signal axes (dimK) is passed explicitly to the '
               'product dictionary solvers', 'group matrices of the '
               'inhibition solver are binary', 'inhibition window does not '
               'exceed the signal']
EXPECT = {'cnst_A', 'cnst_AT', 'xstep',
          'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual',
          'eps-primal', 'eps-dual', 'itstat-objfn', 'rho-update',
          'init-honoured', 'optimality', 'xslv-relres', 'reconstruct',
          'getmin', 'fastsolve-same', 'inputs-unchanged', 'coef-shape'}

PD = {'pd': pdcsc.ConvProdDictBPDN, 'pdj': pdcsc.ConvProdDictBPDNJoint,
      'pdl1': pdcsc.ConvProdDictL1L1Grd,
      'pdl1j': pdcsc.ConvProdDictL1L1GrdJoint}
TV = {'tvs': cbpdntv.ConvBPDNScalarTV, 'tvv': cbpdntv.ConvBPDNVectorTV,
      'tvr': cbpdntv.ConvBPDNRecTV}


def cases(tier):
    k = 220 if tier == 'quick' else 900
    return [{'kind': kd, 'n': i} for kd in list(PD) + list(TV) + ['inhib']
            for i in range(k)]


def run(case, mon, rng):
    kind = case['kind']
    if kind in PD:
        return run_pd(case, mon, rng)
    if kind in TV:
        return run_tv(case, mon, rng)
    return run_inhib(case, mon, rng)


def rand_w(rng, full):
    w = rng.uniform(.1, 2, full) * (rng.random(full) < .85)
    sl = tuple(slice(0, 1) if rng.random() < .5 else slice(None)
               for _ in full)
    return w[sl]


def run_pd(case, mon, rng):
    kind = case['kind']
    cls = PD[kind]
    two = kind in ('pdl1', 'pdl1j')
    dtype = np.float64 if rng.random() < .8 else np.float32
    C = int(rng.integers(2, 4))
    g = csc.Geo(rng, dtype, C=C, multichan_dict=False, dimK_arg=True)
    nb = int(rng.integers(1, 4))
    B = rng.standard_normal((C, nb)).astype(dtype)
    if rng.random() < .2:
        B[:, -1] = B[:, 0]              # rank deficient
    g.Cx = nb
    g.xshape = g.Nv + (nb, g.K, g.M)
    o = build_opts(rng, g, 'l1l1' if two else 'bpdn')
    if kind in ('pdj', 'pdl1j'):
        o.pop('NonNegCoef', None)
        o.pop('NoBndryCross', None)
    lm = float(rng.choice([0.0, 1e-2, .1, .5]))
    mu = float(rng.choice([0.0, 1e-2, .1, .7]))
    lm, mu = float(np.dtype(dtype).type(lm)), float(np.dtype(dtype).type(mu))
    w = wg = w21 = 1.0
    if kind != 'pdl1j' and rng.random() < .5:
        w = o['L1Weight'] = rand_w(rng, g.xshape)
    if two and rng.random() < .6:
        wg = o['GradWeight'] = rng.uniform(0, 2, g.M)
        if rng.random() < .3:
            wg = o['GradWeight'] = float(rng.uniform(.2, 3))
    if kind == 'pdl1j' and rng.random() < .6:
        v = rng.uniform(0, 2, tuple(n if rng.random() < .6 else 1
                                    for n in g.Nv + (g.K, g.M)))
        if rng.random() < .3:
            v = v[(0,) * g.dimN]
            w21 = v
        else:
            w21 = np.expand_dims(v, g.dimN)
        o['L21Weight'] = v
    W, Wi = None, 1.0
    if kind == 'pdl1' and rng.random() < .7:
        Wf = rng.uniform(0, 2, g.Nv) if rng.random() < .5 else \
            (rng.random(g.Nv) < .6) * 1.0
        if rng.random() < .5:
            W, Wi = Wf, Wf.reshape(g.Nv + (1, 1, 1))
        else:
            W = (rng.uniform(0, 2, g.S.shape))
            Wi = W.reshape(g.sshape)
        W = gen.mtype(rng, W.astype(dtype))
        Wi = Wi.astype(dtype).astype(float)
    D, S = gen.layout(rng, g.D), gen.layout(rng, g.S)
    kw = dict(dimN=g.dimN, dimK=g.dK)

    def fac(oo):
        oo = cls.Options(oo)
        if kind == 'pd':
            return cls(D, B, S, lm, opt=oo, **kw)
        if kind == 'pdl1':
            return cls(D, B, S, lm, mu, W=W, opt=oo, **kw)
        return cls(D, B, S, lm, mu, opt=oo, **kw)

    def mk(Di=None, Bm=None):
        op = csc.ProdOp(g, B if Bm is None else Bm, Di)
        if two:
            return csc.two_model('l1l1' if kind == 'pdl1' else 'l1l1j', g,
                                 (lm, mu), o, w, Wi, wg, Di, op=op,
                                 rsdl='AtU', w21=w21)
        return csc.single_model('bpdn' if kind == 'pd' else 'joint', g,
                                (lm, mu), o, w, Di=Di, op=op)
    m = mk()
    sd = None
    Bcur = [B]
    if rng.random() < .6:
        D2 = rng.standard_normal(g.Di.shape).astype(dtype)
        B2 = rng.standard_normal(B.shape).astype(dtype)
        ch = rng.integers(3)
        D2 = None if ch == 1 else D2
        B2 = None if ch == 0 else B2

        def fn(ob):
            if D2 is not None:
                gen.put(rng, lambda v: ob.setdict(D=v, B=B2), D2)
            else:
                gen.put(rng, lambda v: ob.setdict(D=D2, B=v), B2)
            if B2 is not None:
                Bcur[0] = B2
        sd = (fn, mk(D2, B2))
    y0 = None
    if rng.random() < .5:
        ysh = g.xshape
        if two:
            ysh = g.Nv + (C * g.K + nb * g.K * g.M,)
        y0 = {'Y0': rng.standard_normal(ysh).astype(dtype)}
        if rng.random() < .6 or two:
            y0['U0'] = rng.standard_normal(ysh).astype(dtype)
    tag = '%s/%s/%s' % (kind, g.desc(), np.dtype(dtype).name)

    def extra(mon, ob, m_):
        Y = np.asarray(ob.block_sep1(ob.Y) if two else ob.Y)
        mon.ok('coef-shape', Y.shape == g.xshape and Y.dtype ==
               np.dtype(dtype), got=(Y.shape, Y.dtype))
        op = csc.ProdOp(g, Bcur[0], np.asarray(ob.D))
        X = np.asarray(ob.X if two else ob.Y).astype(float)
        tol = 1e-9 if dtype == np.float64 else 1e-4
        at = tol * (1 + np.max(np.abs(X)) * 4 * g.M)
        mon.close('reconstruct', np.asarray(ob.reconstruct()),
                  op.fwd(X)[..., 0], rtol=tol, atol=at, sig=tag, tag=tag)
        Z = rng.standard_normal(g.xshape).astype(dtype)
        mon.close('reconstruct', np.asarray(ob.reconstruct(Z)),
                  op.fwd(Z.astype(float))[..., 0], rtol=tol, atol=40 * tol,
                  tag=tag)
        mon.close('getmin', np.asarray(ob.getcoef()), want_fn(two)(ob),
                  rtol=0, atol=0)
    drive(mon, rng, tag, fac, m, o, want=want_fn(two), arrays=(D, S, B),
          setdict=sd, extra=extra, y0=y0, dtype=dtype,
          kkt=case['n'] % 5 == 0, kkt_iter=400, kkt_tol=1e-4)


def run_tv(case, mon, rng):
    kind = case['kind']
    cls = TV[kind]
    dtype = np.float64 if rng.random() < .8 else np.float32
    g = csc.Geo(rng, dtype)
    o = admm_opts(rng)
    o['HighMemSolve'] = bool(rng.random() < .5)
    o['LinSolveCheck'] = bool(rng.random() < .5)
    if rng.random() < .6:
        o['AuxVarObj'] = bool(rng.random() < .5)
    eval_vars(rng, o)
    if rng.random() < .3:
        o['ReturnX'] = bool(rng.random() < .5)
    lm = float(np.dtype(dtype).type(rng.choice([0.0, 1e-2, .1, .5])))
    mu = float(np.dtype(dtype).type(rng.choice([0.0, 1e-2, .1, .7])))
    w = wt = 1.0
    if rng.random() < .5:
        o['L1Weight'], w = csc.rand_l1w(rng, g)
    if rng.random() < .6:
        wt = o['TVWeight'] = rng.uniform(0, 2, g.M)
        if rng.random() < .3:
            wt = o['TVWeight'] = float(rng.uniform(.2, 3))
    D, S = gen.layout(rng, g.D), gen.layout(rng, g.S)
    xs, dn = g.xshape, g.dimN
    wtb = np.broadcast_to(wt, (g.M,))
    nx = int(np.prod(xs))

    def Gx(X):
        return np.stack([X - np.roll(X, 1, axis=a) for a in g.axN], axis=-1)

    def GTx(V):
        return sum(V[..., i] - np.roll(V[..., i], -1, axis=a)
                   for i, a in enumerate(g.axN))

    def mk(Di=None):
        op = csc.ConvOp(g, Di)
        S_ = g.Si.astype(float)
        rec = kind == 'tvr'
        if rec:
            opw = csc.ConvOp(g, (g.Di if Di is None else Di).astype(float) *
                             wtb)
            vs = g.sshape + (dn,)
            gax = (dn, -1)

            def fwd(x):
                return np.concatenate((x, Gx(opw.fwd(x.reshape(xs))).ravel()))

            def adj(y):
                return y[:nx] + opw.adj(GTx(y[nx:].reshape(vs))).ravel()

            def sep(y):
                return y[nx:].reshape(vs), y[:nx].reshape(xs)

            def cat(V, Z):
                return np.concatenate((Z.ravel(), V.ravel()))
            yflat = am.two_block
        else:
            vs = xs + (dn,)
            gax = (-1,) if kind == 'tvs' else (dn + 2, -1)

            def fwd(x):
                X = x.reshape(xs)
                return cat(Gx(X) * wtb[:, None], X)

            def adj(y):
                V, Z = sep(y)
                return (GTx(V * wtb[:, None]) + Z).ravel()

            def sep(y):
                y = y.reshape(xs + (dn + 1,))
                return y[..., :-1], y[..., -1]

            def cat(V, Z):
                return np.concatenate((V, Z[..., None]), axis=-1).ravel()
            yflat = None

        def gprox(v, t):
            V, Z = sep(v)
            n = np.sqrt(np.sum(V**2, axis=gax, keepdims=True))
            V = V * np.maximum(0, 1 - t * mu / np.maximum(n, 1e-300))
            return cat(V, csc.csoft(Z, t * lm * w))

        def stats(obj, x, y, opt):
            F = x.reshape(xs) if opt['fEvalX'] else sep(y)[1]
            V, Z = sep(y) if opt['gEvalY'] else sep(fwd(x))
            d = 0.5 * np.sum((op.fwd(F) - S_)**2)
            md = d + .5 * np.sum(S_**2) + 1e-12
            r1 = np.sum(np.abs(w * Z))
            tv = np.sum(np.sqrt(np.sum(V**2, axis=gax)))
            return {'DFid': (d, md), 'RegL1': (r1, r1),
                    'RegTV': (tv, tv + np.sum(np.abs(x))),
                    'ObjFun': (d + lm * r1 + mu * tv, md + lm * r1 + mu * (
                        tv + np.sum(np.abs(x))))}
        return am.Model(A=(fwd, adj), H=lambda x: op.adj(op.fwd(
            x.reshape(xs))).ravel(), q=op.adj(S_).ravel(), gprox=gprox,
            stats=stats, yflat=yflat)
    m = mk()
    sd = None
    if rng.random() < .5:
        D2 = rng.standard_normal(g.Di.shape).astype(dtype)
        sd = (lambda ob: gen.put(rng, ob.setdict, D2), mk(D2))
    ysh = (g.Nv + (g.Cx, g.K, g.M + dn * g.Cd)) if kind == 'tvr' else \
        xs + (dn + 1,)
    y0 = None
    if rng.random() < .5:
        y0 = {'Y0': rng.standard_normal(ysh).astype(dtype)}
        if rng.random() < .6:
            y0['U0'] = rng.standard_normal(ysh).astype(dtype)
    tag = '%s/%s/%s' % (kind, g.desc(), np.dtype(dtype).name)

    def fac(oo):
        return cls(D, S, lm, mu, cls.Options(oo), **g.kw)

    def want(ob):
        return ob.X if ob.opt['ReturnX'] else (
            ob.block_sep0(ob.Y) if kind == 'tvr' else ob.Y[..., -1])

    def extra(mon, ob, m_):
        Y = np.asarray(want(ob))
        mon.ok('coef-shape', Y.shape == xs and Y.dtype == np.dtype(dtype),
               got=(Y.shape, Y.dtype))
        op = csc.ConvOp(g, np.asarray(ob.D))
        tol = 1e-9 if dtype == np.float64 else 1e-4
        X = np.asarray(ob.X).astype(float)
        mon.close('reconstruct', np.asarray(ob.reconstruct()),
                  op.fwd(X)[..., 0], rtol=tol,
                  atol=tol * (1 + np.max(np.abs(X)) * 4 * g.M), sig=tag)
        Z = rng.standard_normal(xs).astype(dtype)
        mon.close('reconstruct', np.asarray(ob.reconstruct(Z)),
                  op.fwd(Z.astype(float))[..., 0], rtol=tol, atol=40 * tol)
        mon.close('getmin', np.asarray(ob.getcoef()), want(ob), rtol=0,
                  atol=0)
    drive(mon, rng, tag, fac, m, o, want=want, arrays=(D, S), setdict=sd,
          extra=extra, y0=y0, dtype=dtype, kkt=case['n'] % 5 == 0,
          kkt_iter=400, kkt_tol=1e-4)


def run_inhib(case, mon, rng):
    cls = cbpdnin.ConvBPDNInhib
    dtype = np.float64 if rng.random() < .8 else np.float32
    g = csc.Geo(rng, dtype, Mmax=5)
    o = build_opts(rng, g, 'bpdn')
    dn = g.dimN
    lm = float(np.dtype(dtype).type(rng.choice([0.0, 1e-2, .1, .5])))
    mu = [None, 0.0, .1, 1.0][rng.integers(4)]
    ga = [None, 0.0, .1, 1.0][rng.integers(4)]
    w = 1.0
    if rng.random() < .5:
        o['L1Weight'], w = csc.rand_l1w(rng, g)
    sm = 0.9
    if rng.random() < .6:
        sm = o['SmoothWeight'] = float(rng.choice([0.0, .5, .7, 1.0]))
    Wg = None
    if rng.random() < .8:
        ng = int(rng.integers(1, 4))
        Wg = (rng.random((ng, g.M)) < .6) * 1.0
    kw = dict(g.kw)
    Whn = g.dsz[0]
    if rng.random() < .7:
        Whn = int(rng.integers(1, min(g.Nv) + 1))
        kw['Whn'] = Whn
    n = Whn + (Whn % 2 == 0)
    if n > min(g.Nv):
        n = Whn = 1
        kw['Whn'] = 1
    wa = ('tukey', .5)
    if rng.random() < .5:
        wa = [('tukey', .25), 'hamming', 'boxcar', ('gaussian', 1.5)][
            rng.integers(4)]
        kw['win_args'] = wa
    D, S = gen.layout(rng, g.D), gen.layout(rng, g.S)
    base = csc.single_model('bpdn', g, (lm, 0), o, w)
    op = csc.ConvOp(g)
    muv = 10 * lm if mu is None else mu
    gav = 0.0 if ga is None else ga
    xs = g.xshape
    lateral = Wg is not None and muv != 0
    # spatial window centred at the origin
    w1 = ssig.get_window(wa, n)
    h = np.zeros(g.Nv)
    for idx in np.ndindex(*(n,) * dn):
        v = np.prod([w1[i] for i in idx])**(1.0 / dn)
        h[tuple((i - n // 2) % N for i, N in zip(idx, g.Nv))] += v
    hs = h.copy()
    hs[(0,) * dn] = 0.0

    def spread(A, h):
        r = np.zeros_like(A)
        for idx in zip(*np.nonzero(h)):
            r += h[idx] * np.roll(A, [int(i) for i in idx], axis=g.axN)
        return r
    if Wg is not None:
        cmn = Wg.T.dot(Wg)
        np.fill_diagonal(cmn, 0.0)
    post = csc.postprox(g, o)
    st = {'l': np.zeros(xs), 's': np.zeros(xs)}

    def gprox(v, t):
        V = v.reshape(xs)
        th = t * (lm * w + muv * st['l'] + gav * st['s'])
        return post(csc.csoft(V, np.maximum(th, 0))).ravel()

    def stats(obj, x, y, opt):
        A = np.abs(x.reshape(xs))
        if lateral:
            new = spread(A, h).dot(cmn.T)
            st['l'] = sm * st['l'] + (1 - sm) * new
        if gav != 0:
            st['s'] = sm * st['s'] + (1 - sm) * spread(A, hs)
        out = base.stats(obj, x, y, opt)
        G = (y if opt['gEvalY'] else x).reshape(xs)
        rl, rs = np.sum(np.abs(st['l'] * G)), np.sum(np.abs(st['s'] * G))
        out['RegLat'] = (rl, rl + np.sum(np.abs(G)))
        out['RegSelf'] = (rs, rs + np.sum(np.abs(G)))
        d, r1 = out['DFid'], out['RegL1'][0]
        out['ObjFun'] = (d[0] + lm * r1 + muv * rl + gav * rs,
                         d[1] + lm * r1 + muv * rl + gav * rs +
                         np.sum(np.abs(G)))
        return out
    m = am.Model(H=base.H, q=base.q, gprox=gprox, stats=stats)
    tag = 'inhib/%s/%s%s%s' % (g.desc(), np.dtype(dtype).name,
                               '/lat' if lateral else '',
                               '/self' if gav else '')

    def fac(oo):
        return cls(D, S, Wg, lmbda=lm, mu=mu, gamma=ga, opt=cls.Options(oo),
                   **kw)

    def extra(mon, ob, m_):
        Y = np.asarray(ob.Y)
        mon.ok('coef-shape', Y.shape == xs and Y.dtype == np.dtype(dtype))
    arrays = (D, S) + (() if Wg is None else (Wg,))
    drive(mon, rng, tag, fac, m, o, want=want_fn(False), arrays=arrays,
          extra=extra, dtype=dtype)
