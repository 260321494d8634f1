"""Total variation denoising/deconvolution, l1 spline, robust PCA."""
import numpy as np

from sporco.admm import tvl1, tvl2, spline, rpca
from rt import admm_mon as am
from rt import gen
from rt.csc import csoft
from rt.drive import drive, admm_opts, same_hist

RULE = ('A case draws a signal (1-3 axes, real/complex, single/double), the '
        'subset of axes to regularise, weights, an option set and initial '
        'values, runs one or two solve() calls and replays each recorded '
        'iteration on a reference model built from finite differences / '
        'explicit circular convolution / SVD. Non-trivial = distinct '
        '(problem, dtype, axes class, weights, option class).')
ASSUMPTIONS = ['regularised axes are given as non-negative indices and have '
               'at least two samples', 'blur kernels have non-zero sum',
               'weights are non-negative']
EXPECT = {'cnst_A', 'cnst_AT', 'xstep',
          'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual',
          'itstat-objfn', 'rho-update', 'init-honoured', 'optimality',
          'xslv-relres', 'gs-relres', 'gs-stop-rule', 'gs-contracts',
          'getmin', 'fastsolve-same', 'inputs-unchanged', 'default-lambda',
          'gs-solves'}


def grad_ops(shape, axes, circ):
    """(forward, adjoint) of the stacked difference operator, last axis
    enumerates directions"""
    def G(x):
        out = []
        for ax in axes:
            if circ:
                out.append(x - np.roll(x, 1, axis=ax))
            else:
                d = np.zeros_like(x)
                n = x.shape[ax]
                sl = [slice(None)] * x.ndim
                sl[ax] = slice(0, n - 1)
                d[tuple(sl)] = np.diff(x, axis=ax)
                out.append(d)
        return np.stack(out, axis=-1)

    def GT(y):
        r = 0
        for k, ax in enumerate(axes):
            v = y[..., k]
            if circ:
                r = r + v - np.roll(v, -1, axis=ax)
            else:
                n = v.shape[ax]
                sl = [slice(None)] * v.ndim
                sl[ax] = slice(0, n - 1)
                w = v[tuple(sl)]
                z = np.zeros_like(v)
                z[tuple(sl)] -= w
                sl[ax] = slice(1, n)
                z[tuple(sl)] += w
                r = r + z
        return r
    return G, GT


def l2prox(V, t, axes):
    n = np.sqrt(np.sum(np.abs(V)**2, axis=axes, keepdims=True))
    t = np.broadcast_to(t, n.shape)
    return V * np.where(n > t, 1 - t / np.maximum(n, 1e-300), 0.0)


def conv_op(K, shape, axes):
    """circular convolution along axes, as explicit sums of shifts"""
    K = K.reshape(K.shape + (1,) * (len(shape) - K.ndim))

    def mul(x, conj):
        r = np.zeros(x.shape, dtype=np.result_type(x, K))
        for idx in np.ndindex(*[K.shape[a] for a in axes]):
            sl = [slice(0, None)] * K.ndim
            for a, i in zip(axes, idx):
                sl[a] = slice(i, i + 1)
            k = K[tuple(sl)]
            if conj:
                r = r + np.conj(k) * np.roll(x, [-i for i in idx], axis=axes)
            else:
                r = r + k * np.roll(x, list(idx), axis=axes)
        return r
    return lambda x: mul(x, False), lambda x: mul(x, True)


def tv_model(kind, S, K, lm, Wdf, Wtv, axes, caxis, circ, dt):
    S = S.astype(dt)
    S = S.astype(np.complex128 if S.dtype.kind == 'c' else float)
    shp = S.shape
    nd = len(axes)
    G, GT = grad_ops(shp, axes, circ)
    sax = (-1,) if caxis is None else (caxis, -1)
    l1 = kind in ('tvl1', 'tvl1d')
    Wd = np.broadcast_to(np.asarray(Wdf, float), shp)
    Wt = np.asarray(Wtv, float)
    wt = Wt[..., None] if Wt.ndim else Wt
    if K is not None:
        C, CT = conv_op(K, shp, axes)
    else:
        C = CT = lambda x: x
    bs = shp + (nd + (1 if l1 else 0),)

    def Af(x):
        x = x.reshape(shp)
        g = G(x)
        if l1:
            g = np.concatenate((g, C(x)[..., None]), axis=-1)
        return g.ravel()

    def At(y):
        y = y.reshape(bs)
        r = GT(y[..., :nd])
        if l1:
            r = r + CT(y[..., -1])
        return r.ravel()

    def gprox(v, t):
        v = v.reshape(bs)
        g = l2prox(v[..., :nd], t * lm * wt, sax)
        if l1:
            g = np.concatenate((g, csoft(v[..., -1], t * Wd)[..., None]),
                               axis=-1)
        return g.ravel()

    def stats(obj, x, y, opt):
        X = x.reshape(shp)
        V = y.reshape(bs) if opt['gEvalY'] else Af(x).reshape(bs)
        nv = np.sqrt(np.sum(np.abs(V[..., :nd])**2, axis=sax))
        reg = np.sum(Wt * nv)
        if l1:
            E = V[..., -1] if opt['gEvalY'] else V[..., -1] - S
            dfd = np.sum(Wd * np.abs(E))
        else:
            dfd = 0.5 * np.sum(np.abs(Wd * (C(X) - S))**2)
        mag = np.sum(np.abs(S)**(1 if l1 else 2)) + dfd + 1e-9
        return {'DFid': (dfd, mag), 'RegTV': (reg, reg + 1e-9 + np.sum(
            np.abs(X))), 'ObjFun': (dfd + lm * reg, mag + lm * (
                reg + np.sum(np.abs(X))))}
    c = 0.0
    if l1:
        c = np.zeros(bs, S.dtype)
        c[..., -1] = S
        c = c.ravel()
        return am.Model(A=(Af, At), c=c, gprox=gprox, stats=stats,
                        rsdl='AtU')
    H = (lambda x: (CT(C(x.reshape(shp)) * Wd**2)).ravel())
    q = CT(Wd**2 * S).ravel()
    return am.Model(A=(Af, At), c=0.0, H=H, q=q, gprox=gprox, stats=stats)


def gs_hook(m, x0, n):
    """Monitor of the inexact x step of the denoising problems"""
    M = {}
    state = {'x': None}

    def dense(op, dtype):
        return np.stack([op(e) for e in np.eye(n).astype(dtype)], axis=1)

    def hook(mon, tag, obj, rec, prev, AX, st):
        rho = prev['rho']
        if 'L' not in M:
            M['L'] = dense(m.mulAHA, float).real
            M['W'] = (dense(m.H, float).real if m.H is not None else
                      np.zeros((n, n)))
        q = 0.0 if m.q is None else m.q
        X = rec['X']
        Xp = prev['X'] if prev['X'] is not None else x0
        B = M['W'] + rho * M['L']
        b = q - rho * m.mulAH(m.sB * prev['Y'] - m.c + prev['U'])
        dbl = am.eps_tol(obj.dtype) < 1e-6
        if m.H is None:
            B, b = B / rho, b / rho
        ax = B.dot(X)
        nn = max(np.linalg.norm(ax), np.linalg.norm(b))
        rr = np.linalg.norm(ax - b) / nn if nn > 0 else 1.0
        ex = np.linalg.lstsq(B, b, rcond=None)[0]
        sc = max(np.max(np.abs(X)), np.max(np.abs(Xp)), np.max(np.abs(ex)),
                 np.max(np.abs(b)) / max(np.max(np.diag(B)), 1e-30), 1e-12)
        if st is not None and nn > 1e-9:
            mon.close('gs-relres', st.GSRelRes, rr, rtol=1e-5 if dbl else
                      .05, atol=(1e-11 if dbl else 1e-4) * (
                          1 + np.max(np.abs(B)) * sc * np.sqrt(n) / nn),
                      tag=tag)
            tol, mx = float(obj.opt['GSTol']), int(obj.opt['MaxGSIter'])
            mon.le('gs-iter-limit', st.GSIter, mx)
            mon.ok('gs-stop-rule', st.GSIter >= 1 and (
                st.GSRelRes <= tol or st.GSIter == mx), it=st.GSIter,
                rr=st.GSRelRes, tag=tag)
            if mx > 1000 and np.linalg.cond(B) < 100 and tol > (
                    1e-10 if dbl else 1e-3):
                mon.le('gs-solves', st.GSRelRes, tol, tag=tag)
        e0, e1 = np.max(np.abs(Xp - ex)), np.max(np.abs(X - ex))
        if np.linalg.cond(B) < (1e8 if dbl else 1e3):
            mon.le('gs-contracts', e1, e0 * (1 + 1e-6) + (1e-8 if dbl else
                   1e-3) * sc, sig=tag, tag=tag, k=rec['k'])
    return hook


def spline_model(S, lm, Wdf, axes, dt):
    S = S.astype(dt).astype(float)
    shp = S.shape
    Wd = np.broadcast_to(np.asarray(Wdf, float), shp)

    def lap(x):
        r = np.zeros_like(x)
        for ax in axes:
            p = np.pad(x, [(1, 1) if a == ax else (0, 0)
                           for a in range(x.ndim)], mode='symmetric')
            n = x.shape[ax]
            r += (np.take(p, range(0, n), axis=ax) - 2 * x +
                  np.take(p, range(2, n + 2), axis=ax))
        return r

    def H(x):
        return lm * lap(lap(x.reshape(shp))).ravel()

    def gprox(v, t):
        return csoft(v.reshape(shp), t * Wd).ravel()

    def stats(obj, x, y, opt):
        X = x.reshape(shp)
        E = y.reshape(shp) if opt['gEvalY'] else X - S
        d = np.sum(np.abs(Wd * E))
        r = 0.5 * np.sum(lap(X)**2)
        md, mr = d + np.sum(np.abs(S)) + 1e-9, r + np.sum(X**2)
        return {'DFid': (d, md), 'Reg': (r, mr),
                'ObjFun': (d + lm * r, md + lm * mr)}
    return am.Model(H=H, q=np.zeros(S.size), c=S.ravel(), gprox=gprox,
                    stats=stats)


def rpca_model(S, lm, dt):
    S = S.astype(dt).astype(float)
    shp = S.shape

    def fprox(v, t):
        u, s, w = np.linalg.svd(v.reshape(shp), full_matrices=False)
        return (u * np.maximum(s - t, 0)).dot(w).ravel()

    def gprox(v, t):
        return csoft(v, t * lm)

    def stats(obj, x, y, opt):
        X, Y = x.reshape(shp), y.reshape(shp)
        F = X if opt['fEvalX'] else S - Y
        G = Y if opt['gEvalY'] else S - X
        nn = np.sum(np.linalg.svd(F, compute_uv=False))
        l1 = np.sum(np.abs(G))
        cn = np.linalg.norm(X + Y - S)
        mg = np.linalg.norm(S) + np.linalg.norm(X) + np.linalg.norm(Y)
        return {'NrmNuc': (nn, nn + mg), 'NrmL1': (l1, l1 + mg),
                'Cnstr': (cn, mg), 'ObjFun': (nn + lm * l1,
                                              nn + lm * l1 + mg)}
    return am.Model(sB=+1, c=S.ravel(), fprox=fprox, gprox=gprox,
                    stats=stats)


KINDS = ['tvl2', 'tvl1', 'tvl2d', 'tvl1d', 'spline', 'rpca']
CLS = {'tvl2': tvl2.TVL2Denoise, 'tvl1': tvl1.TVL1Denoise,
       'tvl2d': tvl2.TVL2Deconv, 'tvl1d': tvl1.TVL1Deconv,
       'spline': spline.SplineL1, 'rpca': rpca.RobustPCA}


def cases(tier):
    k = 240 if tier == 'quick' else 900
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


def weight(rng, shp):
    r = rng.random()
    if r < .5:
        return None
    if r < .65:
        return float(rng.choice([0.5, 2.0]))
    w = rng.uniform(0.2, 2, shp)
    if rng.random() < .4:
        w = w * (rng.random(shp) < .8)
    if rng.random() < .3:
        ax = int(rng.integers(len(shp)))
        w = np.mean(w, axis=ax, keepdims=True)
    return w


def run(case, mon, rng):
    kind = case['kind']
    cls = CLS[kind]
    cplx = kind.startswith('tv') and rng.random() < .2
    dbl = rng.random() < .8
    dt = np.dtype(np.complex128 if cplx and dbl else np.complex64 if cplx
                  else np.float64 if dbl else np.float32)
    sdt = dt
    o = admm_opts(rng)
    if rng.random() < .15 and not cplx:
        sdt = np.dtype(np.float32 if dbl else np.float64)
        o['DataType'] = dt
    if rng.random() < .6:
        o['gEvalY'] = bool(rng.random() < .5)
    lm = float(rng.choice([0.0, 1e-2, .1, 1.0, 3.0]))
    style = str(rng.choice(['gauss', 'sparse', 'int', 'scale', 'const']))
    want = extra = None
    m0 = None
    arrays = []
    kkt = case['n'] % 4 == 0
    kkt_iter = 1500
    if kind == 'rpca':
        shp = tuple(int(v) for v in rng.integers(1, 8, 2))
        S = gen.layout(rng, gen.rand(rng, shp, sdt, style))
        if rng.random() < .5:
            o['fEvalX'] = bool(rng.random() < .5)
        lm = float(rng.choice([1e-2, .1, .5, 1.0]))
        m = rpca_model(S, float(dt.type(lm)), dt)
        ysh = shp

        def fac(oo):
            return cls(S, lm, cls.Options(oo))

        def extra(mon, ob, m_):
            X, Y = ob.X, ob.Y
            mon.ok('coef-shape', X.shape == shp and Y.shape == shp and
                   X.dtype == dt and Y.dtype == dt)
        arrays = [S]
        axd = ''
    else:
        nd = int(rng.choice([1, 2, 2, 3]))
        shp = tuple(int(v) for v in rng.integers(2, 7 if nd < 3 else 5, nd))
        S = gen.layout(rng, gen.rand(rng, shp, sdt, style))
        ax = sorted(int(a) for a in rng.permutation(nd)[
            :int(rng.integers(1, nd + 1))])
        if len(ax) > 1 and rng.random() < .3:
            ax = [ax[i] for i in rng.permutation(len(ax))]
        axes = tuple(ax)
        axd = '%d/%d' % (len(axes), nd)
        kw = {}
        if axes != (0, 1) or rng.random() < .5:
            kw['axes'] = axes
        caxis = None
        if kind.startswith('tv') and len(axes) < nd and rng.random() < .5:
            caxis = int(rng.choice([a for a in range(nd) if a not in axes]))
            kw['caxis'] = caxis
        Wtv = Wdf = 1.0
        if kind.startswith('tv'):
            w = weight(rng, shp)
            if w is not None and not (np.ndim(w) and caxis is not None):
                Wtv = o['TVWeight'] = w
        if kind != 'tvl2d':
            w = weight(rng, shp)
            if w is not None:
                Wdf = o['DFidWeight'] = w
        if kind == 'spline':
            o['LinSolveCheck'] = bool(rng.random() < .5)
            m = spline_model(S, float(dt.type(lm)), Wdf, axes, dt)
            ysh = shp

            def fac(oo):
                return cls(S, lm, cls.Options(oo), **kw)
        else:
            K = None
            if kind.endswith('d'):
                o['LinSolveCheck'] = bool(rng.random() < .5)
                ks = tuple(int(rng.integers(1, min(shp[a], 3) + 1)) if a in
                           axes else 1 for a in range(nd))
                K = rng.uniform(.1, 1, ks)
                if rng.random() < .4:
                    K = K * rng.choice([1, 1, -1], ks)
                    if abs(np.sum(K)) < .2:
                        K = np.abs(K)
                if cplx and rng.random() < .5:
                    K = K * np.exp(1j * rng.uniform(0, 6))
                if rng.random() < .7:
                    K = K / np.sum(K)
                K = K.astype(sdt if not np.iscomplexobj(K) else dt)
                # trailing unit axes may be omitted
                if rng.random() < .5:
                    while K.ndim > 1 and K.shape[-1] == 1:
                        K = K[..., 0]
                if K.dtype.kind != dt.kind:
                    K = K.real.astype(sdt)
                arrays.append(K)
            rdt = np.zeros(1, dt).real.dtype
            Kd = None if K is None else K.astype(dt).astype(
                np.complex128 if cplx else float)
            m = tv_model(kind, S, Kd, float(rdt.type(lm)), Wdf, Wtv, axes,
                         caxis, K is not None, dt)
            ysh = shp + (len(axes) + (kind in ('tvl1', 'tvl1d')),)
            if K is None:
                r = rng.random()
                if r < .3:
                    o['MaxGSIter'] = int(rng.integers(1, 6))
                    o['GSTol'] = float(rng.choice([1e-2, 1e-4]))
                elif r < .7 or kkt:
                    o['MaxGSIter'] = 3000
                    o['GSTol'] = float(rng.choice([1e-4, 1e-8, 1e-12])) \
                        if not kkt else 1e-12
                    if not dbl:
                        o['GSTol'] = 5e-3
                m.xtol = gs_hook(m, S.astype(dt).ravel(), S.size)

                def fac(oo):
                    return cls(S, lm, cls.Options(oo), **kw)
                kkt_iter = 300
            else:
                def fac(oo):
                    return cls(K, S, lm, cls.Options(oo), **kw)

        def want(ob):
            return ob.X

        def extra(mon, ob, m_):
            mon.ok('coef-shape', ob.X.shape == shp and ob.X.dtype == dt,
                   got=(ob.X.shape, ob.X.dtype, dt))
        arrays.append(S)
    y0 = None
    if rng.random() < .5:
        y0 = {'Y0': gen.rand(rng, ysh, dt, 'gauss')}
        if rng.random() < .6:
            y0['U0'] = gen.rand(rng, ysh, dt, 'gauss')
    tag = '%s/%s/%s' % (kind, dt.name, axd)
    drive(mon, rng, tag, fac, m, o, want=want, arrays=arrays, extra=extra,
          y0=y0, dtype=dt, kkt=kkt, kkt_iter=kkt_iter,
          lsctol=1e-6 if dbl else 5e-2)
    if kind == 'rpca' and rng.random() < .5:
        # documented default parameter, and the returned pair
        hs = []
        for l in (None, S.shape[0]**-0.5):
            rr = []
            b = cls(S, l, cls.Options(dict(
                o, MaxMainIter=3, Callback=am.recorder(m, rr))))
            X, Y = b.solve()
            mon.ok('getmin', np.array_equal(X, b.X) and
                   np.array_equal(Y, b.Y))
            hs.append(rr)
        same_hist(mon, 'default-lambda', hs[0], hs[1], tag, tol=1e-12)
