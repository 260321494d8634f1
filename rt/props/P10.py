"""Convolutional sparse coding solvers (sporco.admm.cbpdn)."""
import numpy as np

import sporco.fft as sfft
from sporco.admm import cbpdn
from rt import admm_mon as am
from rt import csc, gen
from rt.drive import drive, admm_opts, eval_vars, same_hist

sfft.pyfftw_threads = 1

RULE = ('A case draws a problem geometry (1-3 spatial axes, channels, '
        'signals, single/multi-channel dictionary), weights/masks, an option '
        'set and initial values for one of the solvers, runs one or two '
        'solve() calls (possibly replacing the dictionary in between) and '
        'replays every recorded iteration on an independent model. '
        'Non-trivial = distinct (solver, geometry, dtype, options class, '
        'penalty decision).')
ASSUMPTIONS = ['options NonNegCoef/NoBndryCross combined with the joint or '
               'l1-ball variants are required to give coefficients in the '
               'constraint set and the documented composition, not the exact '
               'proximal map',
               'spatial sizes up to 8 per axis, at most 4 filters']
EXPECT = {'cnst_A', 'cnst_AT', 'xstep',
          'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual',
          'eps-primal', 'eps-dual', 'itstat-objfn', 'rho-update',
          'init-honoured', 'optimality', 'xslv-relres', 'nonneg',
          'no-bndry-cross', 'reconstruct', 'getmin', 'fastsolve-same',
          'inputs-unchanged', 'ams-unmasked-zero', 'ams-agree', 'md-recon',
          'default-lambda', 'coef-shape'}

SINGLE = {'bpdn': cbpdn.ConvBPDN, 'joint': cbpdn.ConvBPDNJoint,
          'enet': cbpdn.ConvElasticNet, 'grad': cbpdn.ConvBPDNGradReg,
          'proj': cbpdn.ConvBPDNProjL1}
TWO = {'l2ball': cbpdn.ConvMinL1InL2Ball, 'mask': cbpdn.ConvBPDNMaskDcpl,
       'l1l1': cbpdn.ConvL1L1Grd}


def cases(tier):
    k = 200 if tier == 'quick' else 900
    out = []
    for kd in list(SINGLE) + list(TWO) + ['cplx', 'ams', 'md']:
        out += [{'kind': kd, 'n': i} for i in range(k)]
    return out


def optval(o, name, dflt):
    return o.get(name, dflt)


def build_opts(rng, g, kind, cplx=False):
    o = admm_opts(rng)
    if not cplx:
        if rng.random() < .35:
            o['NonNegCoef'] = True
    if rng.random() < .35:
        o['NoBndryCross'] = True
    o['HighMemSolve'] = bool(rng.random() < .5)
    o['LinSolveCheck'] = bool(rng.random() < .5)
    if rng.random() < .6:
        o['AuxVarObj'] = bool(rng.random() < .5)
    eval_vars(rng, o)
    if kind in SINGLE or kind in ('cplx', 'md', 'ams'):
        if rng.random() < .3:
            o['ReturnX'] = bool(rng.random() < .5)
    else:
        if rng.random() < .5:
            o['ReturnVar'] = str(rng.choice(['X', 'Y0', 'Y1']))
    return o


def want_fn(two):
    def want(ob):
        if two:
            rv = ob.opt['ReturnVar']
            return {'X': ob.X, 'Y0': ob.block_sep0(ob.Y),
                    'Y1': ob.block_sep1(ob.Y)}[rv]
        return ob.X if ob.opt['ReturnX'] else ob.Y
    return want


def run(case, mon, rng):
    kind = case['kind']
    if kind == 'ams':
        return run_ams(case, mon, rng)
    if kind == 'md':
        return run_md(case, mon, rng)
    cplx = kind == 'cplx'
    skind = 'bpdn' if cplx else kind
    dtype = np.float64 if rng.random() < .8 else np.float32
    if cplx:
        dtype = np.complex128 if rng.random() < .8 else np.complex64
    g = csc.Geo(rng, dtype, cplx)
    o = build_opts(rng, g, kind, cplx)
    two = kind in TWO
    cls = TWO[kind] if two else SINGLE[skind]
    D = gen.layout(rng, g.D)
    S = gen.layout(rng, g.S)
    lm = float(rng.choice([0.0, 1e-2, .1, .5]))
    mu = float(rng.choice([0.0, 1e-2, .1, .7]))
    if kind == 'proj':
        lm = float(10**rng.uniform(-1, 1))
    if kind == 'l2ball':
        lm = float(rng.choice([0.0, .1, 1.0, 4.0]))
    rdt = np.dtype(dtype).type(0).real.dtype
    lm, mu = float(rdt.type(lm)), float(rdt.type(mu))
    w = wg = w21 = 1.0
    if kind != 'proj' and rng.random() < .5:
        o['L1Weight'], w = csc.rand_l1w(rng, g)
    if kind in ('grad', 'l1l1') and rng.random() < .6:
        wg = rng.uniform(0, 2, g.M)
        o['GradWeight'] = wg
        if rng.random() < .3:
            wg = float(rng.uniform(.2, 3))
            o['GradWeight'] = wg
    if kind == 'joint' and rng.random() < .6:
        sh = tuple(n if rng.random() < .6 else 1 for n in g.Nv +
                   (g.K, g.M))
        v = rng.uniform(0, 2, sh)
        ch = rng.integers(3)
        if ch == 0:
            o['L21Weight'] = v
            w21 = np.expand_dims(v, g.dimN)
        elif ch == 1:
            v = v[(0,) * g.dimN]
            o['L21Weight'] = v
            w21 = v
        else:
            w21 = o['L21Weight'] = float(v.ravel()[0])
    W = None
    Wi = 1.0
    if kind in ('mask', 'l1l1') and rng.random() < .8:
        Wf = rng.uniform(0, 2, g.sshape) if rng.random() < .5 else \
            (rng.random(g.sshape) < .6) * 1.0
        sh = tuple(n if rng.random() < .7 else 1 for n in g.S.shape[g.dimN:])
        W = np.broadcast_to(Wf.reshape(g.S.shape), g.S.shape)
        W = W[(slice(None),) * g.dimN + tuple(slice(0, n) for n in sh)]
        if rng.random() < .2:
            W = W[(Ellipsis,) + (0,) * len(sh)] if len(sh) else W
            Wi = W.reshape(g.Nv + (1, 1, 1))
        else:
            Wi = W.reshape(g.Nv + ((W.shape[g.dimN],) if g.dC else (1,)) +
                           ((W.shape[-1],) if g.dK else (1,)) + (1,))
        Wi = Wi.astype(dtype).astype(float)
        W = gen.mtype(rng, W.astype(dtype))
    if rng.random() < .2:
        # the type of the dictionary need not be that of the signal
        D = D.astype(np.promote_types(D.dtype, np.float64))
    par = (lm, mu)

    def fac(oo):
        oo = cls.Options(oo)
        if kind in ('bpdn', 'cplx', 'proj', 'l2ball'):
            return cls(D, S, lm, oo, **g.kw)
        if kind == 'mask':
            return cls(D, S, lm, W, oo, **g.kw)
        if kind == 'l1l1':
            return cls(D, S, lm, mu, W, oo, **g.kw)
        return cls(D, S, lm, mu, oo, **g.kw)

    def mk(Di=None):
        if two:
            return csc.two_model(kind, g, par, o, w, Wi, wg, Di)
        return csc.single_model(skind, g, par, o, w, wg, w21, Di)
    m = mk()
    sd = None
    if rng.random() < .5:
        D2 = rng.standard_normal(g.Di.shape)
        D2 = (D2 + (1j * rng.standard_normal(g.Di.shape) if cplx else 0)
              ).astype(dtype)
        sd = (lambda ob: gen.put(rng, ob.setdict, D2), mk(D2))
    y0 = None
    if rng.random() < .5:
        ysh = g.xshape
        if two:
            ysh = list(g.Nv) + [g.Cx, g.K, g.M + g.Cd]
        Y0 = rng.standard_normal(ysh)
        if cplx:
            Y0 = Y0 + 1j * rng.standard_normal(ysh)
        y0 = {'Y0': Y0.astype(dtype)}
        if rng.random() < .6:
            y0['U0'] = (rng.standard_normal(ysh) + (
                1j * rng.standard_normal(ysh) if cplx else 0)).astype(dtype)
    tag = '%s/%s/%s' % (kind, g.desc(), np.dtype(dtype).name)

    def extra(mon, ob, m_):
        Y = np.asarray(ob.block_sep1(ob.Y) if two else ob.Y)
        mon.ok('coef-shape', Y.shape == g.xshape and Y.dtype ==
               np.dtype(dtype) and np.asarray(ob.X).shape == g.xshape,
               got=(Y.shape, Y.dtype), want=(g.xshape, dtype))
        if o.get('NonNegCoef'):
            mon.ok('nonneg', np.all(Y >= 0))
        if o.get('NoBndryCross'):
            mon.ok('no-bndry-cross', np.array_equal(Y, csc.bndry(Y, g)))
        op = csc.ConvOp(g, np.asarray(ob.D))
        X = np.asarray(ob.X if two else ob.Y).astype(
            complex if cplx else float)
        tol = 1e-9 if np.dtype(rdt).itemsize == 8 else 1e-4
        r = np.asarray(ob.reconstruct())
        ref = op.fwd(X)[..., 0]
        at = tol * (1 + np.max(np.abs(X)) * 4)
        mon.close('reconstruct', r, ref, rtol=tol, atol=at, sig=tag,
                  tag=tag)
        Z = rng.standard_normal(g.xshape).astype(dtype)
        mon.close('reconstruct', np.asarray(ob.reconstruct(Z)),
                  op.fwd(Z.astype(complex if cplx else float))[..., 0],
                  rtol=tol, atol=10 * tol, tag=tag)
        c = np.asarray(ob.getcoef())
        mon.close('getmin', c, want_fn(two)(ob), rtol=0, atol=0)
    exact = not ((o.get('NonNegCoef') or o.get('NoBndryCross')) and
                 kind in ('joint', 'proj'))
    # random initial values make a full history with setdict ill-defined
    # only in the optimality run, which always uses the first dictionary
    drive(mon, rng, tag, fac, m, o, want=want_fn(two), arrays=(D, S),
          setdict=sd, extra=extra, y0=y0, dtype=dtype,
          kkt=exact and case['n'] % 5 == 0, kkt_iter=400, kkt_tol=1e-4)
    if kind in ('bpdn', 'cplx') and rng.random() < .4:
        Df = np.fft.fftn(g.Di, g.Nv, axes=g.axN)
        Sf = np.fft.fftn(g.Si, axes=g.axN)
        lam = 0.1 * np.max(np.abs(np.conj(Df) * Sf))
        hs = []
        for l in (None, lam):
            rr = []
            cls(D, S, l, cls.Options(dict(
                o, MaxMainIter=3, Callback=am.recorder(m, rr))), **g.kw
                ).solve()
            hs.append(rr)
        same_hist(mon, 'default-lambda', hs[0], hs[1], tag, tol=1e-3 if
                  rdt == np.float32 else 1e-8)


def run_ams(case, mon, rng):
    """Additive mask simulation wrapped around ConvBPDN"""
    dtype = np.float64
    g = csc.Geo(rng, dtype)
    o = build_opts(rng, g, 'ams')
    lm = float(rng.choice([1e-2, .1, .5]))
    Wf = (rng.random(g.sshape) < .6) * 1.0
    sh = tuple(n if rng.random() < .7 else 1 for n in g.S.shape[g.dimN:])
    W = Wf.reshape(g.S.shape)[(slice(None),) * g.dimN +
                              tuple(slice(0, n) for n in sh)]
    Wi = W.reshape(g.Nv + ((W.shape[g.dimN],) if g.dC else (1,)) +
                   ((W.shape[-1],) if g.dK else (1,)) + (1,))
    Wfull = np.broadcast_to(Wi, g.sshape)
    tag = 'ams/%s' % g.desc()
    # extended geometry: impulse filters appended
    g2 = csc.Geo.__new__(csc.Geo)
    g2.__dict__.update(g.__dict__)

    def ext(Di):
        imp = np.zeros(Di.shape[:-1] + (g.Cd,))
        for c in range(g.Cd):
            imp[(0,) * g.dimN + (c, 0, c)] = 1.0
        return np.concatenate((Di, imp), axis=-1)
    g2.Di = ext(g.Di)
    g2.M = g.M + g.Cd
    g2.xshape = g.Nv + (g.Cx, g.K, g2.M)
    amask = Wfull if g.Cd == 1 else np.swapaxes(Wfull, g.dimN, g.dimN + 2)
    amask = np.broadcast_to(amask, g.Nv + (g.Cx, g.K, g.Cd)) != 0

    def mk(Di):
        op = csc.ConvOp(g2, Di)
        S = g.Si.astype(float)
        xs = g2.xshape
        post = csc.postprox(g, o)

        def gprox(v, t):
            V = v.reshape(xs)
            Z = np.empty_like(V)
            Z[..., :g.M] = post(csc.csoft(V[..., :g.M], t * lm))
            Z[..., g.M:] = np.where(amask, 0.0, V[..., g.M:])
            return Z.ravel()

        def stats(obj, x, y, opt):
            F = (x if opt['fEvalX'] else y).reshape(xs)
            G = (y if opt['gEvalY'] else x).reshape(xs)
            d = 0.5 * np.sum((op.fwd(F) - S)**2)
            md = d + .5 * np.sum(S**2)
            r1 = np.sum(np.abs(G[..., :g.M]))
            return {'DFid': (d, md), 'RegL1': (r1, r1),
                    'ObjFun': (d + lm * r1, md + lm * r1)}
        return am.Model(H=lambda x: op.adj(op.fwd(x.reshape(xs))).ravel(),
                        q=op.adj(S).ravel(), gprox=gprox, stats=stats)
    m = mk(g2.Di)
    wrap = []

    class Facade:
        """Presents the inner solver's state and the wrapper's solve"""

        def __init__(self, b):
            self.__dict__['b'] = b

        def __getattr__(self, k):
            return getattr(self.__dict__['b'].cbpdn, k)

        def solve(self):
            return self.__dict__['b'].solve()

    # the axis arguments may be omitted when they have the default values
    kw = dict(g.kw)
    if g.dimN == 2 and rng.random() < .5:
        del kw['dimN']
    rd = g.S.ndim - g.dimN
    if rng.random() < .5 and (rd != 1 or g.D.ndim - g.dimN == 2 or g.C == 1):
        del kw['dimK']

    def fac(oo):
        b = cbpdn.AddMaskSim(cbpdn.ConvBPDN, g.D, g.S, W, lm,
                             opt=cbpdn.ConvBPDN.Options(oo), **kw)
        wrap.append(b)
        return Facade(b)
    sd = None
    if rng.random() < .5:
        D2 = rng.standard_normal(g.Di.shape)
        sd = (lambda ob: gen.put(rng, ob.b.setdict, D2), mk(ext(D2)))

    def want(ob):
        v = ob.X if ob.opt['ReturnX'] else ob.Y
        return v[..., :g.M]

    def extra(mon, ob, m_):
        b = ob.b
        c = np.asarray(b.getcoef())
        mon.close('getmin', c, want(ob), rtol=0, atol=0)
        am_ = np.asarray(ob.Y)[..., g.M:]
        mon.ok('ams-unmasked-zero', np.all(am_[amask] == 0), sig=tag)
        op = csc.ConvOp(g, np.asarray(ob.D)[..., :g.M])
        Y = np.asarray(ob.Y)[..., :g.M]
        mon.close('reconstruct', np.asarray(b.reconstruct()),
                  op.fwd(Y)[..., 0], rtol=1e-9,
                  atol=1e-9 * (1 + np.max(np.abs(Y))))
        Z = rng.standard_normal(g.xshape)
        mon.close('reconstruct', np.asarray(b.reconstruct(Z)),
                  op.fwd(Z)[..., 0], rtol=1e-9, atol=1e-9)
        t = b.getitstat()
        mon.ok('itstat-table', list(t.Iter) == [s.Iter for s in b.itstat])
    drive(mon, rng, tag, fac, m, o, want=want, arrays=(g.D, g.S, W),
          setdict=sd, extra=extra, kkt=case['n'] % 5 == 0, kkt_iter=400,
          kkt_tol=1e-4)
    # the minimum agrees with that of the mask decoupling formulation
    if case['n'] % 5 == 0:
        oo = {k: o[k] for k in ('NonNegCoef', 'NoBndryCross') if k in o}
        oo.update({'MaxMainIter': 500, 'RelStopTol': 1e-6,
                   'RelaxParam': 1.0, 'rho': 1.0,
                   'AutoRho': {'Enabled': False}})
        a = fac(oo)
        a.solve()
        b = cbpdn.ConvBPDNMaskDcpl(g.D, g.S, lm, W,
                                   cbpdn.ConvBPDNMaskDcpl.Options(oo),
                                   **g.kw)
        b.solve()
        op = csc.ConvOp(g)

        def F(X):
            return 0.5 * np.sum((Wfull * (op.fwd(X) - g.Si))**2) + \
                lm * np.sum(np.abs(X))
        if len(a.itstat) < 500 and len(b.itstat) < 500:
            fa = F(np.asarray(a.Y)[..., :g.M])
            fb = F(np.asarray(b.block_sep1(b.Y)))
            mon.close('ams-agree', fa, fb, rtol=2e-3,
                      atol=1e-4 * (1 + .5 * np.sum(g.Si**2)), sig=tag)
        else:
            mon.event('ams-not-converged')


def run_md(case, mon, rng):
    """Several dictionaries sharing coefficient maps"""
    dtype = np.float64
    nb = int(rng.integers(1, 4))
    dimN = int(rng.choice([1, 2, 2]))
    chans = bool(rng.random() < .5)
    chn = [int(rng.integers(1, 3)) if chans else 1 for _ in range(nb)]
    C = sum(chn)
    if C < 2:
        chn = chn + [1]
        nb += 1
        C = sum(chn)
    g = csc.Geo(rng, dtype, dimN=dimN, C=C, multichan_dict=True)
    # spatial supports of the individual dictionaries
    Ds, Ss = [], []
    Di = np.zeros(g.dsz + (C, 1, g.M))
    c0 = 0
    for b in range(nb):
        ds = tuple(int(rng.integers(1, n + 1)) for n in g.dsz)
        if b == 0:
            ds = g.dsz
        d = rng.standard_normal(ds + (chn[b], 1, g.M))
        Di[tuple(slice(0, n) for n in ds) + (slice(c0, c0 + chn[b]),)] = d
        Ds.append(d.reshape(ds + ((chn[b],) if chans else ()) + (g.M,)))
        s = g.Si[(slice(None),) * dimN + (slice(c0, c0 + chn[b]),)]
        Ss.append(np.array(s.reshape(g.Nv + ((chn[b],) if chans else ()) +
                                     ((g.K,) if g.K > 1 else ()))))
        c0 += chn[b]
    g.Di = Di
    o = build_opts(rng, g, 'md')
    lm = float(rng.choice([1e-2, .1, .5]))
    m = csc.single_model('bpdn', g, (lm, 0), o)
    tag = 'md/%s/%d' % (g.desc(), nb)

    class Facade:
        def __init__(self, b):
            self.__dict__['b'] = b

        def __getattr__(self, k):
            return getattr(self.__dict__['b'].cbpdn, k)

        def solve(self):
            return self.__dict__['b'].solve()

    kw = {} if dimN == 2 and rng.random() < .5 else {'dimN': dimN}
    if rng.random() < .5:
        kw['dimK'] = 1 if g.K > 1 else 0

    def fac(oo):
        return Facade(cbpdn.MultiDictConvBPDN(
            cbpdn.ConvBPDN, Ds, Ss, lm, cbpdn.ConvBPDN.Options(oo), **kw))

    def extra(mon, ob, m_):
        b = ob.b
        c = np.asarray(b.getcoef())
        op = csc.ConvOp(g)
        ref = op.fwd(c)
        Z = rng.standard_normal(g.xshape)
        refz = op.fwd(Z)
        c0 = 0
        for i in range(nb):
            r = np.asarray(b.reconstruct(i))
            sl = (slice(None),) * dimN + (slice(c0, c0 + chn[i]),)
            mon.close('md-recon', r, ref[sl][..., 0], rtol=1e-9,
                      atol=1e-9 * (1 + np.max(np.abs(c))), sig=tag)
            mon.close('md-recon', np.asarray(b.reconstruct(i, X=Z)),
                      refz[sl][..., 0], rtol=1e-9, atol=1e-9, sig=tag)
            c0 += chn[i]
        t = b.getitstat()
        mon.ok('itstat-table', list(t.Iter) == [s.Iter for s in b.itstat])
        mon.ok('itstat-table', b.timer is ob.timer)
    drive(mon, rng, tag, fac, m, o, want=want_fn(False),
          arrays=tuple(Ds) + tuple(Ss), extra=extra,
          kkt=case['n'] % 5 == 0, kkt_iter=400, kkt_tol=1e-4)
