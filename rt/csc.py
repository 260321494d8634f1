"""Reference models of convolutional sparse coding problems.

Everything is written with explicit array shapes (spatial axes, channel,
signal, filter), numpy's FFT in double precision, and no sporco code."""
import numpy as np

from rt import admm_mon as am


class Geo:
    """Random problem geometry together with the arrays a user would pass"""

    def __init__(self, rng, dtype=np.float64, cplx=False, dimN=None,
                 dimK_arg=None, Mmax=4, lo=3, hi=8, multichan_dict=None,
                 C=None, K=None, big=True):
        self.dimN = dimN or int(rng.choice([1, 2, 2, 2, 3]))
        if self.dimN == 3:
            hi = min(hi, 5)
        self.Nv = tuple(int(v) for v in rng.integers(lo, hi, self.dimN))
        self.dsz = tuple(int(rng.integers(1, min(n, 4) + 1))
                         for n in self.Nv)
        self.M = int(rng.integers(1, Mmax + 1))
        self.C = C or int(rng.choice([1, 1, 2, 3]))
        self.K = K or int(rng.choice([1, 1, 2, 3]))
        # now and then one extent is much larger than the others
        wh = rng.integers(5) if big and rng.random() < .15 else -1
        if wh == 0:
            self.M = int(rng.integers(6, 15))
        elif wh == 1 and K is None:
            self.K = int(rng.integers(4, 13))
        elif wh == 2 and C is None:
            self.C = int(rng.integers(4, 8))
        elif wh == 3:
            i = int(rng.integers(self.dimN))
            n = int(rng.integers(9, 24 if self.dimN < 3 else 12))
            self.Nv = self.Nv[:i] + (n,) + self.Nv[i + 1:]
        elif wh == 4:
            i = int(rng.integers(self.dimN))
            self.Nv = self.Nv[:i] + (12,) + self.Nv[i + 1:]
            n = int(rng.integers(5, 13))
            self.dsz = self.dsz[:i] + (n,) + self.dsz[i + 1:]
        elif big and rng.random() < .012:
            wh = int(rng.integers(3))
            if wh == 0:
                self.M = int(rng.integers(33, 80))
            elif wh == 1 and K is None:
                self.K = int(rng.integers(17, 40))
            elif wh == 2:
                self.Nv = (int(rng.integers(33, 90)),) + self.Nv[1:]
        self.Cd = 1
        if self.C > 1 and (rng.random() < .5 if multichan_dict is None
                           else multichan_dict):
            self.Cd = self.C
        self.Cx = self.C if self.Cd == 1 else 1
        self.dtype = np.dtype(dtype)
        self.axN = tuple(range(self.dimN))
        dn = self.dimN
        D = self._rand(rng, self.dsz + (self.Cd, 1, self.M), cplx)
        S = self._rand(rng, self.Nv + (self.C, self.K, 1), cplx)
        if rng.random() < .2:
            S *= 10.0**rng.integers(-2, 3)
        # normalise filters (as users do)
        n = np.sqrt(np.sum(np.abs(D)**2, axis=self.axN + (dn,),
                           keepdims=True))
        D = D / np.maximum(n, 1e-12)
        self.Di = D.astype(self.dtype)       # internal shape
        self.Si = S.astype(self.dtype)
        # external shapes
        dC = 1 if self.C > 1 or rng.random() < .15 else 0
        dK = 1 if self.K > 1 else 0
        if self.K == 1 and self.C > 1 and rng.random() < .3:
            dK = 1                            # explicit singleton signal axis
        self.D = self.Di.reshape(self.dsz + ((self.Cd,) if self.Cd > 1
                                             else ()) + (self.M,))
        self.S = self.Si.reshape(self.Nv + ((self.C,) if dC else ()) +
                                 ((self.K,) if dK else ()))
        self.dC, self.dK = dC, dK
        # is the inferred interpretation right?
        rd = self.S.ndim - dn
        if rd == 1:
            inf = (1, 0) if self.Cd > 1 else (0, 1)
        else:
            inf = (dC, dK)
        self.dimK = None
        if inf != (dC, dK) or rng.random() < .3:
            self.dimK = dK
        if dimK_arg:
            self.dimK = dK
        self.xshape = self.Nv + (self.Cx, self.K, self.M)
        self.sshape = self.Nv + (self.C, self.K, 1)
        self.kw = dict(dimN=dn, dimK=self.dimK)

    def _rand(self, rng, shp, cplx):
        x = rng.standard_normal(shp)
        if cplx:
            x = x + 1j * rng.standard_normal(shp)
        return x

    def desc(self):
        return 'N%d,C%d,Cd%d,K%d' % (self.dimN, min(self.C, 2),
                                     min(self.Cd, 2), min(self.K, 2))


class ConvOp:
    """X (Nv,Cx,K,M) -> sum_m d_m * x_m  (Nv,C,K,1), circular"""

    def __init__(self, g, Di=None):
        self.g = g
        Di = g.Di if Di is None else Di
        self.cplx = np.iscomplexobj(Di) or np.iscomplexobj(g.Si)
        Di = Di.astype(complex if np.iscomplexobj(Di) else float)
        self.axN = g.axN
        self.Df = np.fft.fftn(Di, g.Nv, axes=g.axN)
        self.Cd = Di.shape[g.dimN]
        self.axC = g.dimN
        self.axM = g.dimN + 2

    def re(self, x):
        return x if self.cplx else x.real

    def fwd(self, X):
        Xf = np.fft.fftn(X, axes=self.axN)
        return self.re(np.fft.ifftn(np.sum(self.Df * Xf, axis=self.axM,
                                           keepdims=True), axes=self.axN))

    def adj(self, Z):
        Zf = np.conj(self.Df) * np.fft.fftn(Z, axes=self.axN)
        if self.Cd > 1:
            Zf = np.sum(Zf, axis=self.axC, keepdims=True)
        return self.re(np.fft.ifftn(Zf, axes=self.axN))


class ProdOp(ConvOp):
    """X (Nv,Cb,K,M) -> B applied to channels of sum_m d_m * x_m"""

    def __init__(self, g, B, Di=None):
        super().__init__(g, Di)
        self.B = np.asarray(B, float)

    def _ch(self, M, x):
        return np.moveaxis(np.tensordot(M, x, axes=(1, self.axC)), 0,
                           self.axC)

    def fwd(self, X):
        return self._ch(self.B, super().fwd(X))

    def adj(self, Z):
        return super().adj(self._ch(self.B.T, Z))


def gtg(X, axN):
    """Sum over axes of G_i^T G_i X, circular first differences"""
    return sum(2 * X - np.roll(X, 1, axis=a) - np.roll(X, -1, axis=a)
               for a in axN)


def grad2(X, axN):
    """Sum over axes of |G_i X|^2, elementwise"""
    return sum(np.abs(X - np.roll(X, 1, axis=a))**2 for a in axN)


def csoft(v, t):
    a = np.abs(v)
    return np.where(a > t, (1 - t / np.where(a > 0, a, 1.0)) * v, 0 * v)


def projl1(v, g):
    if np.sum(np.abs(v)) <= g:
        return v
    lo, hi = 0.0, np.max(np.abs(v))
    for _ in range(100):
        t = 0.5 * (lo + hi)
        if np.sum(np.maximum(np.abs(v) - t, 0)) > g:
            lo = t
        else:
            hi = t
    return csoft(v, 0.5 * (lo + hi))


def bndry(Y, g, dsz=None):
    """Zero coefficients whose filter would cross the upper boundary"""
    Y = Y.copy()
    for n in range(g.dimN):
        sl = [slice(None)] * Y.ndim
        sl[n] = slice(g.Nv[n] - (dsz or g.dsz)[n] + 1, None)
        Y[tuple(sl)] = 0
    return Y


def postprox(g, o, dsz=None):
    def f(Y):
        if o.get('NonNegCoef'):
            Y = np.maximum(Y, 0)
        if o.get('NoBndryCross'):
            Y = bndry(Y, g, dsz)
        return Y
    return f


def rand_l1w(rng, g, M=None):
    """(external array, internal broadcast array) for option L1Weight"""
    M = M or g.M
    full = g.Nv + (g.Cx, g.K, M)
    w = rng.uniform(0.1, 2.0, full) * (rng.random(full) < .85)
    ch = rng.integers(4)
    if ch == 0:
        s = float(rng.uniform(.2, 2))
        return s, np.full(full, s)
    if ch == 1:                                 # per-filter, internal shape
        w = w[(slice(0, 1),) * (g.dimN + 2)]
        return w, np.broadcast_to(w, full)
    if ch == 2 and g.Cd == 1:                   # external shape S.shape + (M,)
        return w.reshape(g.S.shape + (M,)), w
    # singleton axes at random
    sl = tuple(slice(0, 1) if rng.random() < .5 else slice(None)
               for _ in full)
    w = w[sl]
    return w, np.broadcast_to(w, full)


def single_model(kind, g, par, o, w=1.0, wg=1.0, w21=1.0, Di=None, op=None):
    """Models with constraint x = y"""
    op = op or ConvOp(g, Di)
    S = g.Si.astype(complex if op.cplx else float)
    lm, mu = par
    xs = g.xshape
    axN, axC = g.axN, g.dimN
    post = postprox(g, o, None if Di is None else Di.shape[:g.dimN])
    q = op.adj(S)

    def R(x):
        return x.reshape(xs)

    def H(x):
        X = R(x)
        h = op.adj(op.fwd(X))
        if kind == 'enet':
            h = h + mu * X
        elif kind == 'grad':
            h = h + mu * wg * gtg(X, axN)
        return h.ravel()

    def gprox(v, t):
        V = R(v)
        if kind in ('bpdn', 'enet', 'grad'):
            Z = csoft(V, t * lm * w)
        elif kind == 'joint':
            Z = csoft(V, t * lm * w)
            n = np.sqrt(np.sum(np.abs(Z)**2, axis=axC, keepdims=True))
            Z = Z * np.maximum(0, 1 - t * mu * w21 / np.maximum(n, 1e-300))
        elif kind == 'proj':
            Z = np.empty_like(V)
            for k in range(xs[axC + 1]):
                sl = (slice(None),) * (axC + 1) + (k,)
                Z[sl] = projl1(V[sl], lm)
        return post(Z).ravel()

    def stats(obj, x, y, opt):
        F = R(x) if opt['fEvalX'] else R(y)
        G = R(y) if opt['gEvalY'] else R(x)
        d = 0.5 * np.sum(np.abs(op.fwd(F) - S)**2)
        md = d + 0.5 * np.sum(np.abs(S)**2) + 1e-12
        if kind == 'proj':
            P = np.empty_like(G)
            for k in range(xs[axC + 1]):
                sl = (slice(None),) * (axC + 1) + (k,)
                P[sl] = projl1(G[sl], lm)
            return {'ObjFun': (d, md), 'Cnstr': (
                np.linalg.norm(P - G), np.linalg.norm(G) + 1e-6)}
        r1 = np.sum(np.abs(w * G))
        out = {'DFid': (d, md), 'RegL1': (r1, r1)}
        ob = d + lm * r1
        if kind == 'enet':
            r2 = 0.5 * np.sum(np.abs(G)**2)
            out['RegL2'] = (r2, r2)
            ob += mu * r2
        elif kind == 'joint':
            r2 = np.sum(w21 * np.sqrt(np.sum(np.abs(G)**2, axis=axC,
                                             keepdims=True)))
            out['RegL21'] = (r2, r2)
            ob += mu * r2
        elif kind == 'grad':
            r2 = 0.5 * np.sum(wg * grad2(F, axN))
            out['RegGrad'] = (r2, np.sum(wg * np.abs(F)**2))
            ob += mu * r2
        out['ObjFun'] = (ob, md + ob)
        return out
    return am.Model(H=H, q=q.ravel(), gprox=gprox, stats=stats)


def two_model(kind, g, par, o, w=1.0, W=1.0, wg=1.0, Di=None, op=None,
              rsdl=None, w21=1.0):
    """Models with constraint [D; I] x - y = [s; 0]"""
    op = op or ConvOp(g, Di)
    S = g.Si.astype(float)
    lm, mu = par
    xs, ss = g.xshape, g.sshape
    n0 = int(np.prod(ss))
    axN = g.axN
    post = postprox(g, o, None if Di is None else Di.shape[:g.dimN])

    def fwd(x):
        return np.concatenate((op.fwd(x.reshape(xs)).ravel(), x))

    def adj(y):
        return op.adj(y[:n0].reshape(ss)).ravel() + y[n0:]
    c = np.concatenate((S.ravel(), np.zeros(int(np.prod(xs)))))

    def pl2(V):
        n = np.sqrt(np.sum(V**2, axis=axN, keepdims=True))
        return V * np.where(n > lm, lm / np.maximum(n, 1e-300), 1.0)

    def gprox(v, t):
        V0, V1 = v[:n0].reshape(ss), v[n0:].reshape(xs)
        if kind == 'l2ball':
            Z0, Z1 = pl2(V0), csoft(V1, t * w)
        elif kind == 'mask':
            Z0, Z1 = V0 / (1 + t * W**2), csoft(V1, t * lm * w)
        elif kind == 'l1l1j':
            Z0 = csoft(V0, t * W)
            n = np.sqrt(np.sum(V1**2, axis=g.dimN, keepdims=True))
            Z1 = V1 * np.maximum(0, 1 - t * lm * w21 / np.maximum(n, 1e-300))
        else:
            Z0, Z1 = csoft(V0, t * W), csoft(V1, t * lm * w)
        return np.concatenate((Z0.ravel(), post(Z1).ravel()))

    def stats(obj, x, y, opt):
        z = y if opt['AuxVarObj'] else fwd(x) - c
        Z0, Z1 = z[:n0].reshape(ss), z[n0:].reshape(xs)
        r1 = np.sum(np.abs(w * Z1))
        if kind == 'l1l1j':
            r1 = np.sum(w21 * np.sqrt(np.sum(Z1**2, axis=g.dimN,
                                             keepdims=True)))
        if kind == 'l2ball':
            cn = np.linalg.norm(pl2(Z0) - Z0)
            return {'ObjFun': (r1, r1 + 1e-9),
                    'Cnstr': (cn, np.linalg.norm(Z0) + np.linalg.norm(S))}
        if kind == 'mask':
            d = 0.5 * np.sum((W * Z0)**2)
        else:
            d = np.sum(np.abs(W * Z0))
        ob = d + lm * r1
        md = d + np.sum(np.abs(S)) + np.sum(S**2)
        out = {'DFid': (d, md), 'RegL21' if kind == 'l1l1j' else 'RegL1':
               (r1, r1 + 1e-9)}
        if kind.startswith('l1l1'):
            X = x.reshape(xs)
            rg = 0.5 * np.sum(wg * grad2(X, axN))
            out['RegGrad'] = (rg, np.sum(wg * np.abs(X)**2) + 1e-12)
            ob += mu * rg
        out['ObjFun'] = (ob, md + ob)
        return out
    H = q = None
    if kind.startswith('l1l1'):
        def H(x):
            return mu * (wg * gtg(x.reshape(xs), axN)).ravel()
        q = np.zeros(int(np.prod(xs)))
    return am.Model(A=(fwd, adj), c=c, H=H, q=q, gprox=gprox, stats=stats,
                    yflat=am.two_block,
                    rsdl=rsdl or ('std' if kind == 'l1l1' else 'AtU'))
