"""Structured products and decompositions"""
import numpy as np
import sporco.linalg as sl
from rt import gen

RULE = ('random arrays/matrices: broadcastable operand pairs for inner/dot '
        'over every axis, tuples of blocks, Kronecker-structured and generic '
        'matrices of every aspect ratio, PCA data with more/fewer observations '
        'than variables; distinct = (function, dtype, axis, regime)')
ASSUMPTIONS = ['Kronecker block sizes with both factors larger than 1x1 on '
               'each axis where the library requires it']
EXPECT = {'inner.ref', 'dot.ref', 'bcirc.ref', 'bcirc.dft', 'nkp.residual',
          'nkp.opt', 'kpsvd.exact', 'kpsvd.best', 'kpsvd.orth', 'pca.basis',
          'pca.energy', 'adjoint.accept', 'adjoint.reject'}
KINDS = ['inner', 'dot', 'bcirc', 'nkp', 'kpsvd', 'pca', 'adjoint']
DT = [np.float64, np.float32, np.complex128, np.complex64]


def cases(tier):
    n = 8000 if tier == 'quick' else 80000
    return [{'kind': k, 'n': i} for k in KINDS for i in range(n)]


def tol(dt):
    return 2e-5 if np.dtype(dt).char in 'fF' else 1e-10


def run(case, mon, rng):
    globals()['go_' + case['kind']](mon, rng)


def go_inner(mon, rng):
    nd = int(rng.integers(1, 6))
    shp = gen.shape(rng, nd, 1, 5)
    dt = np.dtype(DT[int(rng.integers(4))])
    ax = int(rng.integers(0, nd))
    sx = [n if (i == ax or rng.random() < .7) else 1
          for i, n in enumerate(shp)]
    sy = [n if (i == ax or rng.random() < .7) else 1
          for i, n in enumerate(shp)]
    x = gen.layout(rng, gen.rand(rng, sx, dt))
    y = gen.layout(rng, gen.rand(rng, sy, DT[int(rng.integers(4))]
                                 if rng.random() < .2 else dt))
    arg = ax if rng.random() < 0.6 else ax - nd
    r = sl.inner(x, y, axis=arg)
    X, Y = x.astype(np.complex128), y.astype(np.complex128)
    want = np.sum(X * Y, axis=ax, keepdims=True)
    mag = np.max(np.abs(X)) * np.max(np.abs(Y)) * shp[ax]
    mon.close('inner.ref', r, want, atol=tol(np.result_type(
        x, y) if 'f' not in (x.dtype.char + y.dtype.char).lower()
        else np.float32) * (mag + 1e-30), sig=(dt, nd, arg), axis=arg,
        shapes=(sx, sy))
    if arg == -1 or ax == nd - 1:
        mon.close('inner.default', sl.inner(x, y), r, atol=1e-30)


def go_dot(mon, rng):
    nd = int(rng.integers(2, 6))
    shp = gen.shape(rng, nd, 1, 5)
    dt = np.dtype(DT[int(rng.integers(4))])
    ax = int(rng.integers(0, nd))
    m0 = int(rng.integers(1, 5))
    a = gen.layout(rng, gen.rand(rng, (m0, shp[ax]), dt))
    b = gen.layout(rng, gen.rand(rng, shp, dt))
    arg = ax if rng.random() < 0.5 else ax - nd
    r = sl.dot(a, b, axis=arg)
    want = np.moveaxis(np.tensordot(a.astype(np.complex128),
                                    b.astype(np.complex128), axes=(1, ax)),
                       0, ax)
    mag = np.max(np.abs(a)) * np.max(np.abs(b)) * shp[ax]
    mon.close('dot.ref', r, want, atol=tol(dt) * (mag + 1e-30),
              sig=(dt, nd, arg), axis=arg, shape=shp)
    if nd == 2 and ax == 0:
        mon.close('dot.matrix', sl.dot(a, b), a.astype(np.complex128) @
                  b.astype(np.complex128), atol=tol(dt) * (mag + 1e-30))


def go_bcirc(mon, rng):
    n = int(rng.integers(1, 6))
    r, c = (int(i) for i in rng.integers(1, 4, size=2))
    dt = np.dtype(DT[int(rng.integers(4))])
    A = tuple(gen.rand(rng, (r, c), dt) for _ in range(n))
    B = sl.block_circulant(A)
    want = np.zeros((n * r, n * c), np.complex128)
    for i in range(n):
        for j in range(n):
            want[i*r:(i+1)*r, j*c:(j+1)*c] = A[(i - j) % n]
    mon.close('bcirc.ref', B, want, atol=1e-12 * (np.max(np.abs(want))),
              sig=(n, r, c, dt))
    # product with B is circular convolution of the block sequence
    x = gen.rand(rng, (n * c,), dt, 'gauss').astype(np.complex128)
    y = B.astype(np.complex128) @ x
    Af = np.fft.fft(np.stack(A).astype(np.complex128), axis=0)
    xf = np.fft.fft(x.reshape(n, c), axis=0)
    yf = np.einsum('kij,kj->ki', Af, xf)
    mon.close('bcirc.dft', y, np.fft.ifft(yf, axis=0).reshape(-1),
              atol=1e-6 * (np.max(np.abs(want)) + 1) * np.max(np.abs(x)) * n,
              sig=(n, dt))


def _kshape(rng):
    while True:
        mb, nb, mc, nc = (int(i) for i in rng.integers(1, 5, size=4))
        # the library's subsampling requires step < size on each axis
        if mb > 1 and nb > 1:
            return (mb, nb), (mc, nc)


def _rearr(A, bs, cs):
    """Van Loan rearrangement, independent implementation"""
    R = np.zeros((bs[0] * bs[1], cs[0] * cs[1]), A.dtype)
    for i in range(bs[0]):
        for j in range(bs[1]):
            R[i * bs[1] + j] = A[i*cs[0]:(i+1)*cs[0],
                                 j*cs[1]:(j+1)*cs[1]].ravel()
    return R


def go_nkp(mon, rng):
    bs, cs = _kshape(rng)
    dt = np.dtype(DT[int(rng.integers(2))])
    exact = rng.random() < 0.4
    if exact:
        A = np.kron(gen.rand(rng, bs, dt, 'gauss'),
                    gen.rand(rng, cs, dt, 'gauss'))
    else:
        A = gen.rand(rng, (bs[0] * cs[0], bs[1] * cs[1]), dt, 'gauss')
    A = gen.layout(rng, A)
    A0 = A.copy()
    B, C = sl.nkp(A, bs, cs)
    mon.ok('nkp.shape', B.shape == bs and C.shape == cs, got=(B.shape,
                                                             C.shape))
    Ad = A.astype(np.float64)
    res = np.linalg.norm(Ad - np.kron(B.astype(np.float64),
                                      C.astype(np.float64)))
    S = np.linalg.svd(_rearr(Ad, bs, cs), compute_uv=False)
    best = np.sqrt(np.sum(S[1:] ** 2))
    na = np.linalg.norm(Ad)
    mon.le('nkp.opt', res, best, slack=50 * tol(dt) * na,
           sig=(bs, cs, exact, dt))
    if exact:
        mon.le('nkp.residual', res, 0.0, slack=50 * tol(dt) * na)
    mon.ok('args.unchanged', np.array_equal(A, A0))
    bad = (bs[0] + 1, bs[1])
    mon.raises('nkp.badshape', ValueError, lambda: sl.nkp(A, bad, cs))


def go_kpsvd(mon, rng):
    bs, cs = _kshape(rng)
    dt = np.dtype(DT[int(rng.integers(2))])
    A = gen.layout(rng, gen.rand(rng, (bs[0] * cs[0], bs[1] * cs[1]), dt,
                                 rng.choice(['gauss', 'sparse', 'int'])))
    S, B, C = sl.kpsvd(A, bs, cs)
    Ad = A.astype(np.float64)
    na = np.linalg.norm(Ad) + 1e-30
    n = len(S)
    mon.ok('kpsvd.shape', B.shape == bs + (n,) and C.shape == cs + (n,),
           got=(B.shape, C.shape))
    sv = np.linalg.svd(_rearr(Ad, bs, cs), compute_uv=False)
    acc = np.zeros(Ad.shape)
    t = 100 * tol(dt)
    for i in range(n):
        acc = acc + S[i] * np.kron(B[..., i].astype(np.float64),
                                   C[..., i].astype(np.float64))
        best = np.sqrt(np.sum(sv[i + 1:] ** 2))
        mon.le('kpsvd.best', np.linalg.norm(Ad - acc), best, slack=t * na,
               sig=(bs, cs, dt), term=i)
    mon.close('kpsvd.exact', acc, Ad, atol=t * na)
    G = np.einsum('ijk,ijl->kl', B, B)
    H = np.einsum('ijk,ijl->kl', C, C)
    mon.close('kpsvd.orth', G, np.eye(n), atol=t)
    mon.close('kpsvd.orth', H, np.eye(n), atol=t)
    mon.ok('kpsvd.order', np.all(np.diff(S) <= t * na) and np.all(S >= 0))


def go_pca(mon, rng):
    N, P = (int(i) for i in rng.integers(2, 10, size=2))
    dt = np.dtype(DT[int(rng.integers(2))])
    ctr = bool(rng.integers(2))
    U = gen.layout(rng, gen.rand(rng, (N, P), dt, 'gauss')) \
        + dt.type(rng.choice([0, 3]))
    U0 = U.copy()
    B, S, C = sl.pca(U, centre=ctr)
    t = 200 * tol(dt)
    Ud = U.astype(np.float64)
    if ctr:
        m = Ud.mean(axis=1, keepdims=True)
        mon.close('pca.mean', C, m, atol=t * 5)
        Ud = Ud - m
    else:
        mon.ok('pca.nomean', C is None)
    r = B.shape[1]
    Bd = B.astype(np.float64)
    mon.close('pca.basis', Bd.T @ Bd, np.eye(r), atol=t, sig=(N > P, ctr, dt))
    # covariance is diagonalised with eigenvalues S
    sc = np.linalg.norm(Ud) ** 2 + 1e-30
    mon.close('pca.energy', Bd.T @ Ud @ Ud.T @ Bd, np.diag(S), atol=t * sc)
    mon.close('pca.synth', Bd @ (Bd.T @ Ud), Ud, atol=t * np.sqrt(sc))
    mon.ok('pca.order', np.all(np.diff(S) <= t * sc))
    mon.ok('args.unchanged', np.array_equal(U, U0))


def go_adjoint(mon, rng):
    si, so = gen.shape(rng, None, 1, 4), gen.shape(rng, None, 1, 4)
    ni, no = int(np.prod(si)), int(np.prod(so))
    Mx = rng.standard_normal((no, ni))
    A = lambda x: (Mx @ x.ravel()).reshape(so)
    AT = lambda y: (Mx.T @ y.ravel()).reshape(si)
    mon.ok('adjoint.accept', sl.valid_adjoint(A, AT, si, so) == True,
           sig=(len(si), len(so)))
    e = sl.valid_adjoint(A, AT, si, so, eps=None)
    # cancellation in random inner products: error is relative to them
    mon.ok('adjoint.err', 0 <= e <= 1e-6, err=e)
    # a wrong adjoint must be rejected: error is at least |<d y, x>| scale
    wrong = lambda y: 1.01 * AT(y)
    mon.ok('adjoint.reject', sl.valid_adjoint(A, wrong, si, so) == False)
    e2 = sl.valid_adjoint(A, wrong, si, so, eps=None)
    mon.close('adjoint.err', e2, 0.01 / 1.01, rtol=1e-3)
