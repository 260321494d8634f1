"""Frequency-domain (diagonal block) and dense factored linear solvers
actually solve their linear system"""
import numpy as np
import sporco.linalg as sl
from rt import gen

RULE = ('random systems: 1-3 spatial axes, channel/signal/filter axes of size '
        '1-16 (broadcast where the solvers broadcast them), real and complex, '
        'single and double precision, rho over 6 decades, with and without '
        'cached components, with and without numexpr; distinct = (solver, '
        'dtype, broadcasting pattern, cached?, path)')
ASSUMPTIONS = ['rho > 0', 'condition number of the system bounded by '
               'construction; the limit on the solution error is scaled by it']
EXPECT = {'dbi.solution', 'dbi.cached', 'dbd.solution', 'dbd.cached',
          'ism.solution', 'rsm.solution', 'cg.solution', 'lu.ATAI', 'lu.AATI',
          'cho.ATAI', 'cho.AATI', 'sylvester', 'args.unchanged', 'rrs'}
KINDS = ['dbi', 'dbd', 'ism', 'rsm', 'cg', 'lu', 'cho', 'sylv', 'rrs']


def cases(tier):
    n = 6000 if tier == 'quick' else 60000
    return [{'kind': k, 'n': i} for k in KINDS for i in range(n)]


def eps(dt):
    return float(np.finfo(np.dtype(dt)).eps)


def dense_solve(A, b):
    """Reference: double precision"""
    cd = np.complex128 if np.iscomplexobj(A) or np.iscomplexobj(b) \
        else np.float64
    return np.linalg.solve(A.astype(cd), b.astype(cd))


def run(case, mon, rng):
    k = case['kind']
    saved = sl.have_numexpr if hasattr(sl, 'have_numexpr') else None
    path = 'default'
    if saved is not None and rng.random() < 0.4:
        sl.have_numexpr = False
        path = 'plain'
    try:
        globals()['go_' + k](mon, rng, path)
    finally:
        if saved is not None:
            sl.have_numexpr = saved


def _dims(rng):
    dimN = int(rng.integers(1, 4))
    Nv = tuple(int(i) for i in rng.integers(1, 5 if dimN < 3 else 4,
                                            size=dimN))
    if rng.random() < 0.1:
        Nv = (17,) + Nv[1:]
    return dimN, Nv


def _ckm(rng):
    v = [int(i) for i in rng.integers(1, 5, size=3)]
    if rng.random() < .15:
        v[int(rng.integers(3))] = int(rng.integers(6, 17))
    elif rng.random() < .01:
        v[int(rng.integers(3))] = int(rng.integers(33, 130))
    return v


def _dt(rng, cplx=True):
    return np.dtype([np.complex128, np.complex64, np.float64, np.float32][
        int(rng.integers(0, 4 if not cplx else 4))])


def _rho(rng):
    return float(10.0 ** rng.uniform(-2, 4))


def _arr(rng, shp, dt, sparse=True):
    st = rng.choice(['gauss', 'gauss', 'sparse', 'ties', 'zero'],
                    p=[.4, .3, .15, .13, .02])
    return gen.rand(rng, shp, dt, st)


def _full(a, shp):
    return np.broadcast_to(a, shp)


def go_dbi(mon, rng, path, dbd=False):
    dimN, Nv = _dims(rng)
    dt = _dt(rng)
    C, K, M = _ckm(rng)
    # ah has no signal axis extent (as for a dictionary) or full
    pat = rng.choice(['dict', 'coef', 'full', 'bfull'])
    if pat == 'dict':
        sa, sb = Nv + (1, 1, M), Nv + (C, K, M)
    elif pat == 'coef':
        sa, sb = Nv + (1, K, M), Nv + (C, K, M)
    elif pat == 'bfull':
        sa, sb = Nv + (C, 1, M), Nv + (C, K, M)
    else:
        sa, sb = Nv + (C, K, M), Nv + (C, K, M)
    axis = dimN + 2
    perm = list(range(dimN + 3))
    if rng.random() < 0.25:
        # solve along an axis other than the last
        axis = int(rng.integers(0, dimN + 3))
        perm[axis], perm[dimN + 2] = perm[dimN + 2], perm[axis]
    ah = gen.layout(rng, np.transpose(_arr(rng, sa, dt), perm))
    b = gen.layout(rng, np.transpose(_arr(rng, sb, dt), perm))
    rdt = np.dtype(dt.char.lower()) if dt.kind == 'c' else dt
    if dbd:
        ds = [n if rng.random() < 0.6 else 1 for n in sb]
        if rng.random() < 0.5:
            ds[-1] = M
        d = np.transpose(10.0 ** rng.uniform(-1, 2, size=ds), perm)
        d = d.astype(rdt)
        dmin = d.min()
    elif rng.random() < 0.2:
        # rho varying over the other axes (as used for gradient penalties)
        ds = [n if (rng.random() < 0.5) else 1 for n in sb]
        ds[-1] = 1
        d = np.transpose(10.0 ** rng.uniform(-1, 2, size=ds), perm)
        d = d.astype(rdt)
        dmin = d.min()
    else:
        d = _rho(rng)
        if rng.random() < 0.5:
            d = rdt.type(d)
        dmin = float(d)
    ah0, b0 = ah.copy(), b.copy()
    cached = rng.random() < 0.5
    nm = 'dbd' if dbd else 'dbi'
    solver = sl.solvedbd_sm if dbd else sl.solvedbi_sm
    cfn = sl.solvedbd_sm_c if dbd else sl.solvedbi_sm_c
    c = cfn(ah, np.conj(ah), d, axis) if cached else None
    x = solver(ah, d, b, c, axis=axis)
    mon.ok('args.unchanged', np.array_equal(ah, ah0) and
           np.array_equal(b, b0))
    if cached:
        y = solver(ah, d, b, axis=axis)
        sc = np.max(np.abs(y)) + 1e-30
        # cancellation in the Sherman-Morrison update is bounded by |b|/rho
        amp = np.max(np.abs(b)) / dmin
        mon.close('%s.cached' % nm, x, y, rtol=100 * eps(dt),
                  atol=200 * eps(dt) * (amp + sc) * M, sig=(dt, pat))
    # reference solution, one small dense system at a time
    bshp = b.shape
    A = np.moveaxis(_full(ah, bshp), axis, -1).reshape(-1, M)
    B = np.moveaxis(b, axis, -1).reshape(-1, M)
    Dg = np.moveaxis(np.broadcast_to(np.asarray(d, np.float64), bshp), axis,
                     -1).reshape(-1, M)
    a = A.astype(np.complex128)
    mats = np.einsum('ni,nj->nij', np.conj(a), a)
    mats[:, np.arange(M), np.arange(M)] += Dg
    ref = np.linalg.solve(mats, B.astype(np.complex128)[..., None])[..., 0]
    if not mon.ok('%s.shape' % nm, x.shape == bshp, got=x.shape, want=bshp):
        return
    X = np.moveaxis(x, axis, -1).reshape(-1, M)
    # per-system limit: forward error of Sherman-Morrison ~ eps*(|b|/rho)*
    # (1 + |a|^2/rho), never loose for well conditioned systems
    na2 = np.sum(np.abs(a) ** 2, axis=1)
    lim = 60 * eps(dt) * M * (np.max(np.abs(B), axis=1) / np.min(Dg, axis=1)
                              ) * (1 + np.minimum(na2 / np.min(Dg, axis=1),
                                                  1e4)) + 1e-30
    err = np.max(np.abs(X - ref), axis=1)
    mon.ok('%s.solution' % nm, np.all(err <= lim),
           sig=(dt, pat, cached, path, axis == dimN + 2),
           worst=float(np.max(err / lim)), pattern=pat, axis=axis, dtype=dt,
           shape=bshp, cached=cached) if np.all(np.isfinite(err)) else \
        mon.ok('%s.solution' % nm, False, nonfinite=True, dtype=dt)
    mon.worst['%s.solution' % nm] = max(
        mon.worst.get('%s.solution' % nm, 0), float(np.max(err / lim)))


def go_dbd(mon, rng, path):
    go_dbi(mon, rng, path, dbd=True)


def _mdb(rng, dt, role):
    """System component with K rank-1 terms.  Role 'K': the terms are indexed
    by the signal axis (dictionary update), 'C': by the channel axis (sparse
    coding with a multi-channel dictionary)"""
    dimN, Nv = _dims(rng)
    C, K, M = _ckm(rng)
    if role == 'K':
        sa = Nv + (1, K, M)
        sb = Nv + (C, 1, M)
        axK = dimN + 1
    else:
        sa = Nv + (C, 1, M)
        sb = Nv + (1, K, M)
        axK = dimN
    return dimN, _arr(rng, sa, dt), _arr(rng, sb, dt), dimN + 2, axK


def _mdb_ref(ah, rho, b, axM, axK):
    out = np.zeros(b.shape, np.complex128)
    shp = [b.shape[i] for i in range(b.ndim) if i != axM]
    oth = [i for i in range(b.ndim) if i != axM]
    for idx in np.ndindex(*shp):
        sb = [slice(None)] * b.ndim
        sa = [slice(None)] * b.ndim
        for i, j in zip(oth, idx):
            sb[i] = j
            sa[i] = min(j, ah.shape[i] - 1)
        sa[axK] = slice(None)
        rows = ah[tuple(sa)]
        # order of remaining axes: axK then axM (axK < axM)
        rows = rows.astype(np.complex128)
        A = rho * np.eye(rows.shape[1]) + np.conj(rows).T @ rows
        out[tuple(sb)] = np.linalg.solve(A, b[tuple(sb)].astype(
            np.complex128))
    return out


def _cmp(mon, nm, x, ref, ah, rho, b, dt, sig, extra=1.0):
    if not mon.ok(nm + '.shape', x.shape == ref.shape, got=x.shape,
                  want=ref.shape):
        return
    K = max(ah.shape)
    cond = 1 + min(np.sum(np.abs(ah) ** 2) / rho, 1e3)
    lim = 100 * eps(dt) * extra * K * cond * (np.max(np.abs(b)) / rho) + 1e-30
    mon.close(nm + '.solution', x, ref, atol=lim, sig=sig, rho=rho, dtype=dt,
              shape=ah.shape)


def go_ism(mon, rng, path):
    dt = _dt(rng)
    role = rng.choice(['K', 'C'])
    dimN, ah, b, axM, axK = _mdb(rng, dt, role)
    ah, b = gen.layout(rng, ah), gen.layout(rng, b)
    rho = _rho(rng)
    ah0, b0 = ah.copy(), b.copy()
    if rng.random() < 0.3:
        x = sl.solvemdbi_ism(ah, rho, b, axM - ah.ndim, axK - ah.ndim)
    else:
        x = sl.solvemdbi_ism(ah, rho, b, axM, axK)
    mon.ok('args.unchanged', np.array_equal(ah, ah0) and
           np.array_equal(b, b0))
    _cmp(mon, 'ism', x, _mdb_ref(ah, rho, b, axM, axK), ah, rho, b, dt,
         (dt, role, dimN, ah.shape[axK]))


def go_rsm(mon, rng, path):
    dt = _dt(rng)
    dimN, ah, b, axM, axK = _mdb(rng, dt, 'K')
    b = b[..., :1, :, :] if False else b[(slice(None),) * dimN +
                                         (slice(0, 1),)]
    rho = _rho(rng)
    ah0, b0 = ah.copy(), b.copy()
    x = sl.solvemdbi_rsm(ah, rho, b, axK, dimN=dimN)
    mon.ok('args.unchanged', np.array_equal(ah, ah0) and
           np.array_equal(b, b0))
    _cmp(mon, 'rsm', x, _mdb_ref(ah, rho, b, axM, axK), ah, rho, b, dt,
         (dt, dimN, ah.shape[axK]))


def go_cg(mon, rng, path):
    dt = np.dtype([np.complex128, np.float64][int(rng.integers(2))])
    role = rng.choice(['K', 'C'])
    dimN, ah, b, axM, axK = _mdb(rng, dt, role)
    rho = float(10.0 ** rng.uniform(-1, 2))
    isn = rng.choice(['none', 'zero', 'rand'])
    x0 = {'none': None, 'zero': np.zeros(b.shape, dt),
          'rand': gen.rand(rng, b.shape, dt, 'gauss')}[isn]
    tol = 10.0 ** rng.uniform(-11, -6)
    x, info = sl.solvemdbi_cg(ah, rho, b, axM, axK, tol=tol, mit=2000,
                              isn=x0)
    mon.ok('cg.converged', info == 0, info=info)
    ref = _mdb_ref(ah, rho, b, axM, axK)
    if not mon.ok('cg.shape', x.shape == ref.shape, got=x.shape):
        return
    # CG stops when ||Ax-b|| <= tol ||b||; A >= rho I bounds the error
    lim = (tol * np.linalg.norm(b) * 1.01 + 1e-12 * np.linalg.norm(b)) / rho
    mon.close('cg.solution', x, ref, atol=lim + 1e-300,
              sig=(dt, role, isn, dimN), rho=rho, tol=tol)


def _dense(rng):
    N, M = (int(i) for i in rng.integers(1, 9 if rng.random() < .9
                                           else 40, size=2))
    dt = np.dtype([np.float64, np.float32][int(rng.integers(2))])
    A = gen.layout(rng, _arr(rng, (N, M), dt))
    rho = float(10.0 ** rng.uniform(-1, 3))
    return N, M, dt, A, rho


def go_lu(mon, rng, path, cho=False):
    N, M, dt, A, rho = _dense(rng)
    P = int(rng.integers(1, 5))
    cf = bool(rng.integers(2))
    A0 = A.copy()
    nm = 'cho' if cho else 'lu'
    if cho:
        lower = bool(rng.integers(2))
        f = sl.cho_factor(A, rho, lower=lower, check_finite=cf)
        fa, fb = sl.cho_solve_ATAI, sl.cho_solve_AATI
    else:
        f = sl.lu_factor(A, rho, check_finite=cf)
        fa, fb = sl.lu_solve_ATAI, sl.lu_solve_AATI
    Ad = A.astype(np.float64)
    cond = 1 + np.linalg.norm(Ad) ** 2 / rho
    # (A^T A + rho I) x = b
    b = gen.layout(rng, gen.rand(rng, (M, P) if rng.random() < 0.8 else (M,),
                                 dt, 'gauss'))
    b0 = b.copy()
    x = fa(A, rho, b, *f, check_finite=cf)
    ref = np.linalg.solve(Ad.T @ Ad + rho * np.eye(M), b.astype(np.float64))
    lim = 100 * eps(dt) * max(N, M) * cond * np.max(np.abs(b)) / rho
    mon.close(nm + '.ATAI', x, ref, atol=lim, sig=(dt, np.sign(N - M), b.ndim),
              shape_A=(N, M))
    mon.ok('args.unchanged', np.array_equal(A, A0) and np.array_equal(b, b0))
    # x (A A^T + rho I) = b
    b = gen.layout(rng, gen.rand(rng, (P, N), dt, 'gauss'))
    b0 = b.copy()
    x = fb(A, rho, b, *f, check_finite=cf)
    ref = np.linalg.solve(Ad @ Ad.T + rho * np.eye(N),
                          b.astype(np.float64).T).T
    lim = 100 * eps(dt) * max(N, M) * cond * np.max(np.abs(b)) / rho
    mon.close(nm + '.AATI', x, ref, atol=lim, sig=(dt, np.sign(N - M)),
              shape_A=(N, M))
    mon.ok('args.unchanged', np.array_equal(A, A0) and np.array_equal(b, b0))


def go_cho(mon, rng, path):
    go_lu(mon, rng, path, cho=True)


def go_sylv(mon, rng, path):
    N, M = (int(i) for i in rng.integers(2, 7, size=2))
    dt = np.dtype([np.float64, np.float32][int(rng.integers(4) == 0)])
    psd = rng.random() < 0.5

    def mk(n, side):
        form = str(rng.choice(['diag1', 'diag2', 'sym', 'eig']))
        if form.startswith('diag'):
            d = rng.uniform(0.1, 3, size=n) if psd else \
                rng.uniform(-3, 3, size=n)
            full = np.diag(d)
            arg = d.astype(dt)
            if form == 'diag2':
                arg = arg.reshape((n, 1) if side == 'A' else (1, n))
        else:
            G = rng.standard_normal((n, n))
            full = G @ G.T / n if psd else (G + G.T) / 2
            if form == 'sym':
                arg = full.astype(dt)
            else:
                w, Q = np.linalg.eigh(full)
                arg = (w.astype(dt), Q.astype(dt))
        return full, arg, form
    A, Aa, fa = mk(N, 'A')
    B, Ba, fb = mk(M, 'B')
    lam = np.outer(np.linalg.eigvalsh(A), np.linalg.eigvalsh(B))
    alpha = 0.5 if psd else float(1.0 + np.max(np.abs(lam)))
    C = gen.rand(rng, (N, M), dt, 'gauss')
    C0 = C.copy()
    X = sl.solve_symmetric_sylvester(Aa, Ba, C, dt.type(alpha))
    R = A @ X.astype(np.float64) @ B + alpha * X
    mon.close('sylvester', R, C, atol=2000 * eps(dt) * np.max(np.abs(C)) *
              (1 + np.max(np.abs(lam))), sig=(fa, fb, psd, dt), formA=fa,
              formB=fb, psd=psd)
    mon.ok('args.unchanged', np.array_equal(C, C0))


def go_rrs(mon, rng, path):
    shp = gen.shape(rng)
    b = _arr(rng, shp, np.float64)
    st = rng.choice(['same', 'near', 'far', 'zero'])
    ax = {'same': b, 'near': b + 1e-3 * rng.standard_normal(shp),
          'far': rng.standard_normal(shp), 'zero': b * 0}[st]
    if rng.random() < 0.1:
        b = b * 0
    v = sl.rrs(ax, b)
    nr = max(np.linalg.norm(np.ravel(ax)), np.linalg.norm(np.ravel(b)))
    want = 0.0 if nr == 0 else np.linalg.norm(np.ravel(ax - b)) / nr
    mon.close('rrs', v, want, rtol=1e-10, atol=1e-14, sig=(st,))
