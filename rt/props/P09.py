"""Dense-dictionary sparse coding (sporco.admm.bpdn)."""
import numpy as np

from sporco.admm import bpdn
from rt import admm_mon as am
from rt import gen
from rt.drive import drive, admm_opts, eval_vars, same_hist

RULE = ('A case draws a dictionary, signals, regularisation parameters, an '
        'option set and initial values for one of the five problems, runs one '
        'or two solve() calls (possibly changing the dictionary in between) '
        'and replays every recorded iteration on a dense model. Non-trivial = '
        'distinct (problem, dtype, option class, penalty decision).')
ASSUMPTIONS = ['non-negativity combined with the joint-sparsity or l1-ball '
               'variants is only required to give non-negative coefficients']
EXPECT = {'cnst_A', 'cnst_AT', 'xstep',
          'ystep', 'ustep', 'rsdl-primal', 'rsdl-dual',
          'itstat-objfn', 'rho-update', 'init-honoured', 'optimality',
          'xslv-relres', 'nonneg', 'feasible', 'getmin', 'fastsolve-same',
          'inputs-unchanged', 'default-lambda'}


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def projl1(v, g):
    """Projection of a vector onto the l1 ball (bisection)"""
    if np.sum(np.abs(v)) <= g:
        return v
    lo, hi = 0.0, np.max(np.abs(v))
    for _ in range(200):
        t = 0.5 * (lo + hi)
        if np.sum(np.maximum(np.abs(v) - t, 0)) > g:
            lo = t
        else:
            hi = t
    return soft(v, 0.5 * (lo + hi))


def model(kind, D, S, par, o, dtype):
    D = D.astype(dtype).astype(float)
    S = S.astype(dtype).astype(float)
    Nr, Nc = D.shape
    Nm = S.shape[1]
    lm, mu = par
    w = np.broadcast_to(np.asarray(o.get('L1Weight', 1.0), float), (Nc, Nm))
    nn = o.get('NonNegCoef', False)

    def R(x):
        return x.reshape(Nc, Nm)

    def l1prox(V, t):
        Z = soft(V, t)
        return np.maximum(Z, 0) if nn else Z

    def dfd(X):
        return 0.5 * np.sum((D.dot(X) - S)**2)
    mag = 0.5 * np.sum(S**2) + 1e-12
    if kind == 'l2ball':
        A = np.concatenate((np.kron(np.eye(Nc), np.eye(Nm)),
                            np.kron(D, np.eye(Nm))))
        b = Nc * Nm

        def pl2(V):
            E = V - S
            n = np.sqrt(np.sum(E**2, axis=0, keepdims=True))
            return S + E * np.where(n > lm, lm / np.maximum(n, 1e-300), 1.0)

        def gprox(v, t):
            return np.concatenate((
                l1prox(R(v[:b]), t * w).ravel(),
                pl2(v[b:].reshape(Nr, Nm)).ravel()))

        def stats(obj, x, y, opt):
            z = y if opt['AuxVarObj'] else A.dot(x)
            ob = np.sum(w * np.abs(R(z[:b])))
            V = z[b:].reshape(Nr, Nm)
            cn = np.linalg.norm(pl2(V) - V)
            return {'ObjFun': (ob, ob + 1e-6), 'Cnstr': (
                cn, np.linalg.norm(S) + np.linalg.norm(V))}
        return am.Model(A=A, gprox=gprox, stats=stats, rsdl='AtU',
                        yflat=am.two_block)

    e = mu if kind == 'enet' else 0.0
    DTD, DTS = D.T.dot(D) + e * np.eye(Nc), D.T.dot(S)
    if kind in ('bpdn', 'enet'):
        def gp(V, t):
            return l1prox(V, t * lm * w)
    elif kind == 'joint':
        def gp(V, t):
            Z = soft(V, t * lm * w)
            n = np.sqrt(np.sum(Z**2, axis=1, keepdims=True))
            Z = Z * np.maximum(0, 1 - t * mu / np.maximum(n, 1e-300))
            return np.maximum(Z, 0) if nn else Z
    else:
        def gp(V, t):
            Z = np.stack([projl1(V[:, j], lm) for j in range(Nm)], axis=1)
            return np.maximum(Z, 0) if nn else Z

    def stats(obj, x, y, opt):
        F = R(x) if opt['fEvalX'] else R(y)
        G = R(y) if opt['gEvalY'] else R(x)
        d = dfd(F)
        md = mag + d
        if kind == 'proj':
            P = np.stack([projl1(G[:, j], lm) for j in range(Nm)], axis=1)
            return {'ObjFun': (d, md), 'Cnstr': (np.linalg.norm(P - G),
                                                 np.linalg.norm(G) + 1e-6)}
        r1 = np.sum(w * np.abs(G))
        out = {'DFid': (d, md), 'RegL1': (r1, r1)}
        ob = d + lm * r1
        if kind == 'enet':
            r2 = 0.5 * np.sum(G**2)
            out['RegL2'] = (r2, r2)
            ob += mu * r2
        elif kind == 'joint':
            r2 = np.sum(np.sqrt(np.sum(G**2, axis=1)))
            out['RegL21'] = (r2, r2)
            ob += mu * r2
        out['ObjFun'] = (ob, md + ob)
        return out
    return am.Model(H=lambda x: DTD.dot(R(x)).ravel(), q=DTS.ravel(),
                    gprox=lambda v, t: gp(R(v), t).ravel(), stats=stats)


CLS = {'bpdn': bpdn.BPDN, 'enet': bpdn.ElasticNet, 'joint': bpdn.BPDNJoint,
       'proj': bpdn.BPDNProjL1, 'l2ball': bpdn.MinL1InL2Ball}


def cases(tier):
    k = 500 if tier == 'quick' else 2500
    return [{'kind': kd, 'n': i} for kd in CLS for i in range(k)]


def run(case, mon, rng):
    kind = case['kind']
    cls = CLS[kind]
    Nr, Nc, Nm = (int(v) for v in rng.integers(1, 9, 3))
    dtype = np.float64 if rng.random() < .8 else np.float32
    sdt = dtype
    o = admm_opts(rng)
    if rng.random() < .15:          # data type override
        sdt = np.float32 if dtype == np.float64 else np.float64
        o['DataType'] = dtype
    D = gen.layout(rng, rng.standard_normal((Nr, Nc)).astype(sdt))
    S = gen.layout(rng, gen.rand(rng, (Nr, Nm), sdt,
                                 str(rng.choice(['gauss', 'sparse', 'int']))))
    if kind in ('proj',):
        par = (float(10**rng.uniform(-1, .7)), 0.0)
    elif kind == 'l2ball':
        par = (float(rng.choice([0.0, 0.1, 1.0, 5.0])), 0.0)
    else:
        par = (float(rng.choice([0.0, 1e-2, .1, 1.0, 3.0])),
               float(rng.choice([0.0, .05, .5, 2.0])))
    if rng.random() < .5:
        o['NonNegCoef'] = True
    if kind != 'l2ball':
        o['LinSolveCheck'] = bool(rng.random() < .5)
    if rng.random() < .6:
        o['AuxVarObj'] = bool(rng.random() < .5)
    eval_vars(rng, o)
    if rng.random() < .3 and kind != 'l2ball':
        o['ReturnX'] = bool(rng.random() < .5)
    if kind not in ('proj',) and rng.random() < .5:
        sh = [(Nc, Nm), (Nc, 1), (1, Nm)][rng.integers(3)]
        o['L1Weight'] = rng.uniform(0, 2, sh) * (rng.random(sh) < .8)
    y0 = None
    ysh = (Nc + Nr, Nm) if kind == 'l2ball' else (Nc, Nm)
    if rng.random() < .5:
        y0 = {'Y0': rng.standard_normal(ysh).astype(dtype)}
        if rng.random() < .6:
            y0['U0'] = rng.standard_normal(ysh).astype(dtype)

    pt = [dtype(p) for p in par]

    def args(p):
        return p[:1] if kind in ('bpdn', 'proj', 'l2ball') else p

    def fac(oo):
        return cls(D, S, *args(list(par)), cls.Options(oo)) if kind in (
            'bpdn', 'proj', 'l2ball') else cls(D, S, par[0], par[1],
                                               cls.Options(oo))
    m = model(kind, D, S, [float(p) for p in pt], o, dtype)
    D2 = rng.standard_normal((Nr, Nc)).astype(sdt)
    sd = None
    if rng.random() < .5:
        sd = (lambda ob: gen.put(rng, ob.setdict, D2),
              model(kind, D2, S, [float(p) for p in pt], o, dtype))

    def want(ob):
        if kind == 'l2ball':
            return ob.X
        return ob.X if ob.opt['ReturnX'] else ob.Y

    def extra(mon, ob, m_):
        c = np.asarray(ob.getcoef())
        mon.ok('coef-shape', c.shape == (Nc, Nm) and c.dtype == dtype,
               got=(c.shape, c.dtype))
        Y = ob.block_sep0(ob.Y) if kind == 'l2ball' else ob.Y
        if o.get('NonNegCoef'):
            mon.ok('nonneg', np.all(np.asarray(Y) >= 0))
        if kind == 'proj':
            # (rounding of the argument of the projection)
            big = np.finfo(dtype).eps * 20 * ob.Y.shape[0] * (
                np.max(np.abs(ob.X)) + np.max(np.abs(ob.U)))
            mon.le('feasible', np.max(np.sum(np.abs(ob.Y), axis=0)),
                   par[0] * (1 + 1e-5), slack=big)
        if kind == 'l2ball':
            E = np.asarray(ob.block_sep1(ob.Y)) - S
            mon.le('feasible', np.max(np.sqrt(np.sum(E**2, axis=0))),
                   par[0] * (1 + 1e-5) + 1e-4 * (1 + np.max(np.abs(S))))
    exact = not (o.get('NonNegCoef') and kind in ('joint', 'proj'))
    tag = '%s/%s%s%s' % (kind, np.dtype(dtype).name,
                         '/nn' if o.get('NonNegCoef') else '',
                         '/w' if 'L1Weight' in o else '')
    drive(mon, rng, tag, fac, m, o, want=want, arrays=(D, S), setdict=sd,
          extra=extra, y0=y0, dtype=dtype, kkt=exact and case['n'] % 4 == 0,
          lsctol=(1e-6 if dtype == np.float64 else 5e-2))
    # default regularisation parameter
    if kind == 'bpdn' and rng.random() < .4 and np.any(D.T.dot(S)):
        lam = 0.1 * np.max(np.abs(D.T.dot(S)))
        hs = []
        for l in (None, lam):
            rr = []
            bpdn.BPDN(D, S, l, bpdn.BPDN.Options(dict(
                o, MaxMainIter=3, Callback=am.recorder(m, rr)))).solve()
            hs.append(rr)
        same_hist(mon, 'default-lambda', hs[0], hs[1], tag, tol=1e-3 if
                  dtype == np.float32 or sdt == np.float32 else 1e-8)
