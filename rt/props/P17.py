"""Online convolutional dictionary learning (sporco.dictlrn.onlinecdl)."""
import contextlib
import io

import numpy as np

import sporco.fft as sfft
from sporco.admm import cbpdn as acbpdn
from sporco.dictlrn import onlinecdl
from rt import csc, gen
from rt.props.P13 import rand_mask

sfft.pyfftw_threads = 1

RULE = ('A case draws a dictionary, options and a stream of training signals '
        '(changing spatial size, batch size and mask from call to call), '
        'feeds them to an online dictionary learning object and replays each '
        'solve() call on an independent model: sparse coding with the current '
        'dictionary, projected gradient step with the step size of the '
        'schedule, statistics. Non-trivial = distinct (class, geometry, '
        'dtype, options class, kind of change between calls).')
ASSUMPTIONS = ['real data (complex data is not supported by these classes)',
               'the sparse coding solver itself is judged by P10',
               'spatial sizes up to 8 per axis, at most 4 filters']
EXPECT = {'initial-dict', 'coef', 'gradient-step', 'feasible', 'support',
          'zero-mean', 'eta', 'stats', 'stats-xstep', 'counter', 'solve-return',
          'inputs-unchanged', 'repeat-same', 'verbose-same', 'verbose-rows',
          'dtype-kept', 'batch-order', 'optset-unchanged', 'descent'}

KINDS = ['plain', 'mask']


def cases(tier):
    k = 1600 if tier == 'quick' else 4000
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


class Sig:
    pass


def draw_signal(rng, g, dt, mask, fixed, vary=False):
    """A new training signal: other sizes and, for a single-channel
    dictionary, possibly another channel and batch structure"""
    s = Sig()
    Nv, K = g.Nv, g.K
    s.C, s.dC, s.dK = g.C, g.dC, g.dK
    if vary:
        s.dC, s.dK = (int(v) for v in rng.integers(0, 2, 2))
        s.C = int(rng.integers(1, 4)) if s.dC else 1
        K = int(rng.integers(1, 4)) if s.dK else 1
        if s.dC != s.dK and rng.random() < .6:
            # same array shape as other signals of the stream, other axes
            s.C, K = (3, 1) if s.dC else (1, 3)
    s.Cx = s.C if g.Cd == 1 else 1
    if not fixed:
        if rng.random() < .4:
            hi = 6 if g.dimN == 3 else 9
            Nv = tuple(int(rng.integers(n, hi)) if n < hi else n
                       for n in g.dsz)
        if s.dK and not vary and rng.random() < .4:
            K = int(rng.integers(1, 4))
    s.Nv, s.K = Nv, K
    s.full = Nv + (s.C, K, 1)
    sc = 1.0 if rng.random() < .8 else 10.0**rng.integers(-2, 2)
    s.S = gen.layout(rng, (sc * rng.standard_normal(
        Nv + ((s.C,) if s.dC else ()) + ((K,) if s.dK else ()))).astype(dt))
    s.W, s.w2 = None, 1.0
    if mask and rng.random() < .9:
        sh = Sig()
        sh.sshape, sh.dimN, sh.C, sh.K = s.full, g.dimN, s.C, K
        Wi = rand_mask(rng, sh, dt)
        s.w2 = Wi.astype(float)**2
        s.W = Wi
        if rng.random() < .6:
            s.W = Wi.reshape(Nv + ((Wi.shape[g.dimN],) if s.dC else ()) +
                             ((Wi.shape[g.dimN + 1],) if s.dK else ()))
        if rng.random() < .06:
            # one weight for all samples
            s.W = np.array([rng.choice([.5, 1., 2.])], dt)
            s.w2 = float(s.W[0])**2
        s.W = gen.mtype(rng, s.W)
    return s


def run(case, mon, rng):
    mask = case['kind'] == 'mask'
    dt = np.float64 if rng.random() < .85 else np.float32
    f64 = dt == np.float64
    g = csc.Geo(rng, dt)
    dn, axC, axK, axM = g.dimN, g.dimN, g.dimN + 1, g.dimN + 2
    sp = tuple(range(dn))
    tag = '%s/%s/%s' % (case['kind'], g.desc(), np.dtype(dt).name)
    tol = 1e-7 if f64 else 2e-3
    cls = (onlinecdl.OnlineConvBPDNMaskDictLearn if mask else
           onlinecdl.OnlineConvBPDNDictLearn)
    lm = float(dt(rng.choice([.02, .1, .5])))
    D0 = gen.layout(rng, (rng.standard_normal(g.D.shape) * 2 +
                          .3).astype(dt))
    zm = bool(rng.random() < .35)
    bo = {'MaxMainIter': int(rng.integers(1, 7)), 'rho': float(
        rng.choice([.5, 2.0, 10.0]))}
    if rng.random() < .6:
        bo['RelStopTol'] = 0.0
    if rng.random() < .3:
        bo['AutoRho'] = {'Enabled': bool(rng.random() < .6)}
    if rng.random() < .25:
        bo['NonNegCoef'] = True
    if rng.random() < .2:
        bo['NoBndryCross'] = True
    if rng.random() < .2:
        bo['AuxVarObj'] = bool(rng.random() < .5)
    if rng.random() < .2:
        bo['L1Weight'] = rng.uniform(.2, 2, (1,) * (dn + 2) + (g.M,)).astype(
            dt)
    fast = rng.random() < .1
    if fast:
        bo['FastSolve'] = True
    base = {'ZeroMean': zm, 'CBPDN': bo}
    a, b = 10.0, 5.0
    if rng.random() < .7:
        a, b = float(rng.uniform(.05, 8)), float(rng.uniform(.5, 20))
        base['eta_a'], base['eta_b'] = a, b
    supp = np.zeros(g.dsz + (1, 1, g.M))
    dszs = [g.dsz] * g.M
    dsz = D0.shape
    if g.M > 1 and rng.random() < .3:
        m1 = int(rng.integers(1, g.M))
        small = tuple(int(rng.integers(1, n + 1)) for n in g.dsz)
        ch = (g.Cd,) if g.Cd > 1 else ()
        dsz = (small + ch + (m1,), g.dsz + ch + (g.M - m1,))
        dszs = [small] * m1 + [g.dsz] * (g.M - m1)
        base['DictSize'] = dsz
    for i, s in enumerate(dszs):
        supp[tuple(slice(0, q) for q in s) + (0, 0, i)] = 1

    def proj(D):
        D = D * supp
        if zm:
            D = supp * (D - np.sum(D, axis=sp, keepdims=True) / np.sum(
                supp, axis=sp, keepdims=True))
        n = np.sqrt(np.sum(D**2, axis=sp + (axC,), keepdims=True))
        return D / np.where(n == 0, 1.0, n), n

    T = int(rng.integers(1, 6))
    fixed = rng.random() < .35
    vary = g.Cd == 1 and rng.random() < .3
    sig = [draw_signal(rng, g, dt, mask, fixed, vary) for _ in range(T)]
    if vary and mask and T > 1 and rng.random() < .8:
        # the same mask array for two signals with different axes
        i = int(rng.integers(T - 1))
        u = [x for x in (draw_signal(rng, g, dt, mask, fixed, True)
                         for _ in range(12))
             if x.W is not None and x.W.ndim == x.S.ndim and
             x.dC + x.dK == 1 and x.C * x.K > 1]
        if u:
            u, v = u[0], Sig()
            v.Nv, v.W = u.Nv, u.W
            v.dC, v.dK, v.C, v.K = u.dK, u.dC, u.K, u.C
            v.Cx, v.full = v.C, v.Nv + (v.C, v.K, 1)
            v.S = gen.layout(rng, rng.standard_normal(u.S.shape).astype(dt))
            v.w2 = np.asarray(u.W, float).reshape(u.W.shape[:dn] + (
                (u.W.shape[dn], 1, 1) if v.dC else (1, u.W.shape[dn], 1)))**2
            sig[i:i + 2] = [u, v]
    kinit = rng.random() < .5
    kwi = {'dimN': dn}
    kws = {}
    dimK = g.dimK
    if dimK is not None:
        (kwi if kinit else kws)['dimK'] = dimK
        if rng.random() < .15:
            kwi['dimK'] = kws['dimK'] = dimK
    lmarg = lm if rng.random() < .9 or mask else None

    def make(**o):
        opt = cls.Options(dict(base, **o))
        return cls(D0, lmarg, opt, **kwi), opt

    bufs = {} if rng.random() < .3 else None

    def fill(k, v):
        # signals and masks may arrive in one buffer which is overwritten
        if bufs is None or v is None:
            return v
        b = bufs.setdefault((k, v.shape, v.dtype), np.empty_like(v))
        b[...] = v
        return b

    def call(obj, s):
        kw = dict(kws, dimK=s.dK) if vary else kws
        S, W = fill('S', s.S), fill('W', s.W)
        if mask and (s.W is not None or rng.random() < .5):
            ret = obj.solve(S, W, **kw)
        else:
            ret = obj.solve(S, **kw)
        if bufs is not None:
            mon.ok('inputs-unchanged', np.array_equal(S, s.S) and (
                W is None or np.array_equal(W, s.W)), tag=tag)
        return ret
    D0c = np.array(D0)
    obj, opt = make()
    obs = repr(opt)
    Dm, nv = proj(D0.astype(float).reshape(g.Di.shape))
    if np.any((nv > 0) & (nv < 1e-6)):
        return
    # (mean subtraction may leave a small part of a filter)
    amp = max(1., np.max(np.abs(D0)) / np.min(nv[nv > 0])) if np.any(
        nv > 0) else 1.
    mon.close('initial-dict', np.asarray(obj.getdict()).reshape(Dm.shape),
              Dm, rtol=0, atol=(1e-9 if f64 else 1e-4) * amp, tag=tag, zm=zm)
    mon.event('geometry', (tag, zm, dsz != D0.shape))
    Ds = []
    for t, s in enumerate(sig):
        Dprev = np.array(obj.getdict())
        Sc = np.array(s.S)
        Wc = None if s.W is None else np.array(s.W)
        ret = call(obj, s)
        mon.ok('inputs-unchanged', np.array_equal(Sc, s.S) and (
            Wc is None or np.array_equal(Wc, s.W)) and
            np.array_equal(D0, D0c), tag=tag)
        D = np.array(obj.getdict())
        Ds.append(D)
        mon.ok('solve-return', np.array_equal(ret, D), tag=tag)
        mon.ok('dtype-kept', D.dtype == dt, got=D.dtype, tag=tag)
        mon.ok('counter', obj.j == t + 1 and len(obj.itstat) == t + 1 and
               obj.itstat[-1].Iter == t, tag=tag)
        # ---- sparse coding of s with the previous dictionary --------------
        Dx = Dprev.reshape(g.D.shape)
        kw = dict(dimN=dn, dimK=s.dK if vary else dimK)
        if mask:
            W = np.ones((1,) * (dn + 3), dt) if s.W is None else s.W
            xs = acbpdn.ConvBPDNMaskDcpl(
                Dx, s.S, lmarg, W, cls.Options(base)['CBPDN'], **kw)
        else:
            xs = acbpdn.ConvBPDN(Dx, s.S, lmarg, cls.Options(base)['CBPDN'],
                                 **kw)
        xs.solve()
        shx = s.Nv + (s.Cx, s.K, g.M)
        X = np.asarray(xs.getcoef(), float).reshape(shx)
        Z = np.asarray(obj.Z)
        xsc = max(np.max(np.abs(X)), 1e-3)
        okz = mon.ok('coef-size', Z.size == X.size, tag=tag)
        if not okz:
            return
        if Z.shape == shx:
            mon.close('coef', Z, X, rtol=0, atol=tol * xsc, tag=tag, t=t)
        X = Z.astype(float) if Z.shape == shx else X
        # ---- projected gradient step --------------------------------------
        Dp = Dprev.astype(float).reshape(g.Di.shape)
        Sd = s.S.astype(float).reshape(s.full)
        Xf = np.fft.fftn(X, axes=sp)

        def resid(D):
            F = np.fft.fftn(D, s.Nv, axes=sp)
            return np.fft.ifftn(np.sum(F * Xf, axis=axM, keepdims=True),
                                axes=sp).real - Sd

        def fun(D):
            return .5 * np.sum(s.w2 * resid(D)**2)
        R = s.w2 * resid(Dp)
        gr = np.fft.ifftn(np.conj(Xf) * np.fft.fftn(R, axes=sp),
                          axes=sp).real
        gr = np.sum(gr, axis=axK, keepdims=True)
        if g.Cd == 1:
            gr = np.sum(gr, axis=axC, keepdims=True)
        eta = a / (t + b)
        pad = np.zeros(s.Nv + (g.Cd, 1, g.M))
        crop = tuple(slice(0, q) for q in g.dsz)
        pad[crop] = Dp
        G = pad - eta * gr
        Dn, nv = proj(G[crop])
        D5 = D.astype(float).reshape(g.Di.shape)
        n2 = np.sqrt(np.sum(D5**2, axis=sp + (axC,)))
        mon.ok('feasible', np.all((np.abs(n2 - 1) < (1e-9 if f64 else 1e-4))
                                  | (n2 == 0)), tag=tag, n=n2)
        mon.ok('support', not np.any(D5[np.broadcast_to(
            supp == 0, D5.shape)]), tag=tag)
        gsc = 1 + eta * np.max(np.abs(gr))
        # worst relative rounding error of G, amplified by normalisation
        csc_ = np.sum(np.abs(X)) * (np.max(np.abs(R)) + np.max(np.abs(
            np.broadcast_to(s.w2, s.full) * Sd)) + 1e-30)
        gerr = (1e-12 if f64 else 1e-4) * (1 + eta * csc_)
        mn = np.min(np.where(nv == 0, np.inf, nv))
        if zm and f64:
            mx = np.sum(D5, axis=sp)
            mon.close('zero-mean', mx, 0 * mx, rtol=0,
                      atol=1e-9 + 10 * gerr / min(mn, 1.0), tag=tag)
        amp = gerr / mn
        if np.all(np.sum(supp, axis=sp) > 1) or not zm:
            if amp < 1e-2:
                mon.close('gradient-step', D5, Dn, rtol=0, atol=max(
                    1e-9 if f64 else 1e-4, 10 * amp), sig=tag, tag=tag, t=t,
                    eta=eta, w=None if s.W is None else s.W.shape)
            else:
                mon.event('gradient-step-illconditioned')
        # direction of descent in the functional being minimised
        st = G[crop] * supp - Dp
        q = np.sum(gr[crop] * st)
        nrm = np.sqrt(np.sum(st**2))
        if nrm > 1e-12 and -q > 1e-9 * np.sum(np.abs(gr[crop] * st)) and f64:
            h = 1e-6 / (1 + nrm)
            fd = (fun(Dp + h * st) - fun(Dp - h * st)) / (2 * h)
            mon.le('descent', fd, 1e-6 * (abs(q) + fun(Dp) / h * 1e-8),
                   tag=tag)
        # ---- statistics ---------------------------------------------------
        it = obj.itstat[-1]
        mon.close('eta', float(it.Eta), eta, rtol=1e-12 if f64 else 1e-5,
                  atol=0, tag=tag)
        if amp < 1e-2:
            full = np.zeros(G.shape)
            full[crop] = D5
            cn = np.linalg.norm((full - G).ravel())
            mon.close('stats', float(it.Cnstr), cn, rtol=0, atol=(
                1e-7 if f64 else 1e-2) * (1 + cn) + 100 * gerr *
                np.sqrt(G.size), tag=tag, f='Cnstr')
        dd = np.linalg.norm((D5 - Dp).ravel())
        mon.close('stats', float(it.DeltaD), dd, rtol=0,
                  atol=1e-9 if f64 else 1e-3, tag=tag, f='DeltaD')
        want = dict(ObjFun=0.0, DFid=0.0, RegL1=0.0, PrimalRsdl=0.0,
                    DualRsdl=0.0, Rho=0.0)
        if not fast:
            want = {k: getattr(xs.itstat[-1], k) for k in want}
        for k, v in want.items():
            # relative to values that may cancel: residuals ~ 1
            sc = abs(v) + (1 if 'Rsdl' in k else np.sum(Sd**2))
            mon.close('stats-xstep', float(getattr(it, k)), float(v), rtol=0,
                      atol=tol * sc, tag=tag, f=k)
    mon.ok('optset-unchanged', repr(opt) == obs, tag=tag)
    tr = obj.getitstat()
    mon.ok('stats', len(tr.Iter) == T and all(
        tr.DeltaD[i] == obj.itstat[i].DeltaD for i in range(T)))
    # ---- equivalent histories ---------------------------------------------
    if rng.random() < .4:
        for nm, o in (('repeat-same', {}), ('verbose-same',
                                            {'Verbose': True})):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                ob2 = make(**o)[0]
                ob2.display_start()
                for s in sig:
                    call(ob2, s)
                ob2.display_end()
            mon.close(nm, np.asarray(ob2.getdict()), Ds[-1], rtol=0,
                      atol=1e-6 if f64 else 5e-2, tag=tag)
            if o and not fast:
                ln = [q for q in buf.getvalue().split('\n') if q.strip() and
                      not q.startswith('-')]
                mon.ok('verbose-rows', len(ln) == T + 1 and [
                    int(q.split()[0]) for q in ln[1:]] == list(range(T)),
                    tag=tag, n=len(ln))
            elif not o:
                mon.ok('verbose-rows', buf.getvalue() == '')
    # order of the signals within a batch is irrelevant
    if sig[0].K > 1 and 'L1Weight' not in bo and sig[0].dK and rng.random() < .7:
        p = rng.permutation(sig[0].K)
        s = sig[0]
        s2 = Sig()
        s2.__dict__.update(s.__dict__)
        s2.S = np.ascontiguousarray(s.S[..., p])
        if s.W is not None:
            ax = (dn + 1) if s.W.ndim == dn + 3 else s.W.ndim - 1
            if s.W.ndim > 1 and s.W.shape[ax] > 1:
                s2.W = np.take(s.W, p, axis=ax)
        ob2 = make()[0]
        call(ob2, s2)
        mon.close('batch-order', np.asarray(ob2.getdict()), Ds[0], rtol=0,
                  atol=1e-6 if f64 else 5e-2, tag=tag)
