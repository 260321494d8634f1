"""Signal processing, image quality metric and interpolation functions"""
import itertools

import numpy as np

from sporco import interp, metric
from sporco import signal as sig
from rt import gen

RULE = ('random arrays (1-5 dims, real/complex, single/double/integer types, '
        'strided and read-only, sizes including 1 and 2), axes including '
        'negative ones, parameters including limiting values; every function '
        'is compared with its definition evaluated by a different method '
        '(explicit sums, dense matrices, exhaustive enumeration of vertices '
        'for the linear programs); distinct = (function, dtype, dims, '
        'option)')
ASSUMPTIONS = ['arrays are not empty', 'metrics of equal images may be '
               'infinite']
KINDS = ['grad', 'gfilt', 'tik', 'lcn', 'gauss', 'rand', 'gray', 'err',
         'pamse', 'gmsd', 'lp', 'lanczos', 'demosaic']
EXPECT = {'grad', 'gradT', 'grad-adjoint', 'grad-filters', 'grad-hess',
          'tikhonov', 'tikhonov-sum', 'lcn', 'lcn-reconstruct', 'gaussian',
          'mask', 'spnoise', 'crandn', 'gray', 'mse', 'mae', 'snr', 'psnr',
          'isnr', 'bsnr', 'pamse', 'gmsd', 'gmsd-map', 'l1fit', 'linffit',
          'kernel', 'points', 'lanczos', 'demosaic', 'demosaic-linear', 'demosaic-between',
          'inputs-unchanged'}


def cases(tier):
    k = 600 if tier == 'quick' else 8000
    return [{'kind': kd, 'n': i} for kd in KINDS for i in range(k)]


def run(case, mon, rng):
    np.random.seed(int(rng.integers(0, 2**31)))
    globals()['go_' + case['kind']](mon, rng)


def tol(dt):
    return 2e-5 if np.dtype(dt).char in 'fF' else 1e-11


DT = [np.float64, np.float32, np.complex128, np.complex64]


def draw(rng, shp, dts=DT):
    dt = np.dtype(dts[int(rng.integers(len(dts)))])
    if dt.kind in 'iu':
        ii = np.iinfo(dt)
        x = rng.integers(ii.min, ii.max, shp, endpoint=True).astype(dt)
    else:
        x = gen.rand(rng, shp, dt)
    return gen.layout(rng, x)


def shape(rng, lo, hi, nd=None, mn=1):
    nd = int(rng.integers(lo, hi + 1)) if nd is None else nd
    return gen.stretch(rng, tuple(int(v) for v in rng.integers(mn, 8, nd)))


# --------------------------------------------------------------------------
def dmat(n, zp):
    """Forward difference matrices as documented"""
    if zp:
        m = np.zeros((n + 1, n))
        for i in range(n + 1):
            if i < n:
                m[i, i] += 1
            if i > 0:
                m[i, i - 1] -= 1
        return m
    m = np.zeros((n, n))
    for i in range(n - 1):
        m[i, i + 1] = 1
        m[i, i] = -1
    return m


def apply(m, x, ax):
    return np.moveaxis(np.tensordot(m, x, (1, ax)), 0, ax)


def go_grad(mon, rng):
    shp = shape(rng, 1, 4)
    x = draw(rng, shp)
    x0 = x.copy()
    ax = int(rng.integers(-len(shp), len(shp)))
    zp = bool(rng.random() < .5)
    m = dmat(shp[ax], zp)
    sg = (x.dtype, len(shp), ax, zp, shp[ax] == 1)
    g = sig.grad(x, ax, zero_pad=zp)
    at = tol(x.dtype) * np.abs(x).max()
    mon.close('grad', g, apply(m, x, ax), atol=at, sig=sg, at=sg)
    y = draw(rng, g.shape, [x.dtype])
    y0 = y.copy()
    gt = sig.gradT(y, ax, zero_pad=zp)
    mon.close('gradT', gt, apply(m.T, y, ax), atol=tol(x.dtype) *
              np.abs(y).max(), sig=sg, at=sg)
    s = np.linalg.norm(g) * np.linalg.norm(y) + np.linalg.norm(
        x) * np.linalg.norm(gt)
    mon.close('grad-adjoint', np.vdot(g, y), np.vdot(x, gt),
              atol=10 * tol(x.dtype) * (s + 1e-30), at=sg)
    mon.ok('inputs-unchanged', np.array_equal(x, x0) and
           np.array_equal(y, y0))


def go_gfilt(mon, rng):
    nd = int(rng.integers(1, 6))
    m = int(rng.integers(1, min(nd, 3) + 1))
    axes = tuple(sorted(int(v) for v in rng.permutation(nd)[:m]))
    shp = shape(rng, 0, 0, nd, mn=2)
    dt = [None] + DT
    dt = dt[int(rng.integers(len(dt)))]
    axshp = tuple(shp[a] for a in axes)
    arg = dt if dt is None or rng.random() < .5 else np.dtype(dt)
    Gf, GHG = sig.gradient_filters(nd, axes, axshp, dtype=arg)
    dt = np.dtype(np.float32 if dt is None else dt)
    cplx = dt.kind == 'c'
    x = gen.rand(rng, shp, np.complex128 if cplx else np.float64)
    xf = (np.fft.fftn if cplx else np.fft.rfftn)(x, axes=axes)
    sg = (nd, axes, dt, shp[axes[-1]] % 2)
    acc = np.zeros(xf.shape)
    mon.ok('grad-filters', Gf.shape[-1] == m and Gf.ndim == nd + 1 and
           GHG.ndim == nd and not np.iscomplexobj(GHG), got=Gf.shape)
    for n, a in enumerate(axes):
        gx = (np.fft.ifftn if cplx else np.fft.irfftn)(
            Gf[..., n] * xf, s=axshp, axes=axes)
        mon.close('grad-filters', gx, x - np.roll(x, 1, axis=a),
                  atol=10 * tol(dt) * np.abs(x).max(), sig=sg, at=sg)
        w = 2 - 2 * np.cos(2 * np.pi * np.arange(xf.shape[a]) / shp[a])
        acc = acc + w.reshape((-1,) + (1,) * (nd - 1 - a))
    mon.close('grad-hess', GHG * np.ones(xf.shape), acc,
              atol=20 * tol(dt), sig=sg)


def go_tik(mon, rng):
    shp = shape(rng, 2, 4, mn=2)
    x = draw(rng, shp)
    x0 = x.copy()
    lm = float(rng.choice([0., .1, 1., 5., 100.])) * float(
        rng.uniform(.5, 1.5))
    npd = int(rng.choice([0, 1, 3, 16]))
    kw = {} if npd == 16 and rng.random() < .5 else {'npd': npd}
    lp, hp = sig.tikhonov_filter(x, lm, **kw)
    sp = np.pad(x.astype(np.complex128), ((npd, npd),) * 2 + ((0, 0),) *
                (len(shp) - 2), 'symmetric')
    M = [1 + lm * 0]
    out = sp
    # dense solution of (I + lmbda (Gr'Gr x I + I x Gc'Gc)) x = s in the
    # eigenbases of the circular difference matrices
    ev, V = [], []
    for a in (0, 1):
        n = sp.shape[a]
        G = np.eye(n) - np.roll(np.eye(n), 1, axis=0)
        e, v = np.linalg.eigh(G.T @ G)
        ev.append(e)
        V.append(v)
        out = apply(v.T, out, a)
    out = out / (1 + lm * (ev[0][:, None] + ev[1][None])).reshape(
        sp.shape[:2] + (1,) * (len(shp) - 2))
    for a in (0, 1):
        out = apply(V[a], out, a)
    out = out[npd:npd + shp[0], npd:npd + shp[1]]
    sg = (x.dtype, len(shp), npd, shp[1] % 2)
    at = 10 * tol(x.dtype) * np.abs(x).max()
    mon.close('tikhonov', lp, out, atol=at, sig=sg, at=sg, lm=lm)
    mon.close('tikhonov-sum', lp + hp, x, atol=at, sig=sg)
    mon.ok('tikhonov', lp.dtype == x.dtype and hp.dtype == x.dtype)
    mon.ok('inputs-unchanged', np.array_equal(x, x0))


def gauss1(n, sd):
    x = np.linspace(-3, 3, n)
    g = np.exp(-x**2 / (2 * sd**2))
    return g / g.sum()


def cconv(g, x):
    """Circular convolution with the kernel centred on its middle"""
    n = g.shape[0] // 2
    y = np.zeros(x.shape)
    for i in range(g.shape[0]):
        for j in range(g.shape[1]):
            y += g[i, j] * np.roll(x, (i - n, j - n), (0, 1))
    return y


def go_lcn(mon, rng):
    n = int(rng.integers(1, 4))
    shp = tuple(int(v) for v in rng.integers(n + 1, 12, 2))
    if rng.random() < .5:
        shp += (int(rng.integers(1, 4)),)
    x = draw(rng, shp, [np.float64, np.float32, np.uint8])
    x0 = x.copy()
    if np.ptp(x) == 0:
        return
    c = None if rng.random() < .5 else float(np.abs(
        x.astype(float)).max() * 10**rng.uniform(-3, .5))
    a = {} if c is None else {'c': c}
    scn, smn, nrm = sig.local_contrast_normalise(x, n, **a)
    N = 2 * n + 1
    g = np.outer(gauss1(N, 1.), gauss1(N, 1.))
    sp = np.pad(x.astype(float), ((n, n),) * 2 + ((0, 0),) * (len(shp) - 2),
                mode='symmetric')
    mn = cconv(g, sp)
    s1 = sp - mn
    nm = np.sqrt(np.maximum(cconv(g, s1**2), 0))
    cc = nm.mean(axis=(0, 1), keepdims=True) if c is None else c
    nm = np.maximum(cc, nm)
    sl = (slice(n, -n),) * 2
    sg = (x.dtype, len(shp), n, c is None)
    sc = np.abs(x.astype(float)).max()
    t = 1e-4 if x.dtype.char == 'f' else 1e-8
    mon.close('lcn', smn, mn[sl], atol=t * sc, sig=sg, at=sg)
    if nm.min() < 1e-4 * sc:
        return
    mon.close('lcn', nrm, nm[sl], atol=t * sc, sig=sg, at=sg)
    mon.close('lcn', scn, (s1 / nm)[sl], atol=100 * t, rtol=t,
              sig=sg, at=sg)
    mon.close('lcn-reconstruct', nrm * scn + smn, x, atol=t * sc, at=sg)
    mon.ok('inputs-unchanged', np.array_equal(x, x0))


def go_gauss(mon, rng):
    shp = shape(rng, 1, 3, mn=3)
    sd = float(rng.uniform(.6, 4))
    arg = shp[0] if len(shp) == 1 and rng.random() < .5 else shp
    kw = {'sd': sd} if rng.random() < .8 else {}
    g = sig.gaussian(arg, **kw)
    w = np.ones((1,) * len(shp))
    for k, n in enumerate(shp):
        w = w * gauss1(n, kw.get('sd', 1.)).reshape(
            (1,) * k + (n,) + (1,) * (len(shp) - k - 1))
    mon.close('gaussian', g, w, rtol=1e-10, sig=(len(shp), shp[0] % 2))
    mon.close('gaussian', g.sum(), 1., rtol=1e-10)


# --------------------------------------------------------------------------
def frac_ok(n, p, k):
    """k of n outcomes of probability p are within 7 standard deviations"""
    return abs(k - n * p) <= 7 * np.sqrt(n * p * (1 - p)) + 1e-9


def go_rand(mon, rng):
    shp = shape(rng, 1, 4, mn=3)
    shp = (60,) + shp
    n = int(np.prod(shp))
    frc = float(rng.choice([0., 1., rng.random(), rng.random()]))
    dt = [None, np.float32, np.float64, np.uint8, int, bool][
        int(rng.integers(6))]
    m = sig.rndmask(shp, frc, dtype=dt) if dt is not None else \
        sig.rndmask(shp, frc)
    mon.ok('mask', m.shape == shp and m.dtype == np.dtype(
        np.float64 if dt is None else dt), got=m.dtype, dt=dt)
    z = int(np.sum(m == 0))
    mon.ok('mask', z + int(np.sum(m == 1)) == n, sig=(dt, len(shp)), dt=dt)
    mon.ok('mask', frac_ok(n, frc, z), frc=frc, n=n, z=z, dt=dt)
    x = draw(rng, shp, [np.float64, np.float32, np.uint8])
    x0 = x.copy()
    lo, hi = (0., 1.) if rng.random() < .5 else (
        (3., 200.) if x.dtype.kind == 'u' else (-2.5, 7.))
    kw = {} if (lo, hi) == (0., 1.) and rng.random() < .5 else \
        {'smn': lo, 'smx': hi}
    y = sig.spnoise(x, frc, **kw)
    mon.ok('spnoise', y.shape == shp and y.dtype == x.dtype)
    el, eh, eo = y == lo, y == hi, y == x0
    mon.ok('spnoise', np.all(el | eh | eo), sig=(x.dtype, frc in (0, 1)))
    # entries which happen to have one of the noise values already
    free = (x0 != lo) & (x0 != hi)
    nf = int(free.sum())
    if nf:
        mon.ok('spnoise', frac_ok(nf, frc / 2, int((el & free).sum())) and
               frac_ok(nf, frc / 2, int((eh & free).sum())), frc=frc, n=nf)
    mon.ok('inputs-unchanged', np.array_equal(x, x0))
    z = sig.complex_randn(*shp)
    mon.ok('crandn', z.shape == shp and np.iscomplexobj(z))
    for v in (z.real, z.imag):
        mon.le('crandn', abs(v.mean()), 7 / np.sqrt(n))
        mon.le('crandn', abs((v**2).mean() - 1), 8 * np.sqrt(2 / n) + 30 / n)
    mon.le('crandn', abs((z.real * z.imag).mean()), 8 / np.sqrt(n) + 30 / n)


def go_gray(mon, rng):
    shp = shape(rng, 2, 2) + (3,)
    if rng.random() < .5:
        shp += (int(rng.integers(1, 5)),)
    x = draw(rng, shp, [np.float64, np.float32, np.uint8, np.uint16,
                        np.int32])
    x0 = x.copy()
    y = sig.rgb2gray(x)
    w = np.zeros(shp[:2] + shp[3:])
    for k, c in enumerate((.299, .587, .114)):
        w = w + c * x0[:, :, k].astype(float)
    fl = x.dtype.kind == 'f'
    mon.close('gray', y, w, atol=tol(x.dtype) * np.abs(
        x.astype(float)).max() + (0 if fl else 1), sig=(x.dtype, len(shp)))
    if fl:
        mon.ok('gray', y.dtype == x.dtype)
    mon.ok('inputs-unchanged', np.array_equal(x, x0))


# --------------------------------------------------------------------------
def go_err(mon, rng):
    shp = shape(rng, 1, 4)
    dts = [np.float64, np.float32, np.uint8, np.int8, np.int16, np.uint16,
           np.complex128]
    a = draw(rng, shp, dts)
    b = draw(rng, shp, [a.dtype] if rng.random() < .6 else dts)
    if rng.random() < .1:
        b = a.copy()
    cp = (np.iscomplexobj(a), np.iscomplexobj(b))
    a0, b0 = a.copy(), b.copy()
    wide = np.complex128 if any(cp) else np.longdouble
    A, B = a.astype(wide).ravel(), b.astype(wide).ravel()
    n = A.size
    mse = sum(abs(u - v)**2 for u, v in zip(A, B)) / n
    mae = sum(abs(u - v) for u, v in zip(A, B)) / n
    sg = (a.dtype, b.dtype, len(shp))
    mon.close('mse', metric.mse(a, b), mse, rtol=1e-9, sig=sg)
    mon.close('mae', metric.mae(a, b), mae, rtol=1e-9, sig=sg)

    def var(v):
        return sum(abs(v - v.sum() / n)**2) / n

    def db(p, q):
        with np.errstate(all='ignore'):
            return 10 * np.log10(np.float64(p) / np.float64(q))

    rt = 1e-4 if 'f' in (a.dtype.char, b.dtype.char) else 1e-8

    def cmp(nm, got, p, q, **kw):
        if p == 0 and q == 0:
            return
        if p == 0 or q == 0:
            mon.ok(nm, got == (-np.inf if p == 0 else np.inf), got=got,
                   p=p, q=q, sg=sg, **kw)
        elif p > 1e-12 * np.max(np.abs(A))**2:
            mon.close(nm, got, db(p, q), atol=10 * rt, rtol=rt, sig=sg,
                      p=p, q=q, sg=sg, **kw)

    with np.errstate(all='ignore'):
        va = var(A)
        # variance of a constant array is a rounding error in general
        if max(np.ptp(A.real), np.ptp(A.imag)) > 0 or n == 1:
            cmp('snr', metric.snr(a, b), va, mse)
            cmp('bsnr', metric.bsnr(a, b), va, var(B - A)
                if max(np.ptp((B - A).real), np.ptp((B - A).imag)) >
                1e-6 * np.abs(A).max() or n == 1
                else 0.) if np.any(B != A) and var(B - A) > 1e-6 * va \
                else mon.event('bsnr')
        if not any(cp):
            r = A.max() - A.min()
            cmp('psnr', metric.psnr(a, b), r**2, mse)
        rg = int(rng.integers(1, 300))
        cmp('psnr', metric.psnr(a, b, rng=rg), rg**2, mse, rg=rg)
        c = draw(rng, shp, dts)
        C = c.astype(np.complex128).ravel()
        msc = sum(abs(u - v)**2 for u, v in zip(
            A.astype(np.complex128), C)) / n
        cmp('isnr', metric.isnr(a, b, c), mse, msc)
    mon.ok('inputs-unchanged', np.array_equal(a, a0) and
           np.array_equal(b, b0))


def refl(i, n):
    """Half-sample symmetric extension of an index"""
    i = i % (2 * n)
    return i if i < n else 2 * n - 1 - i


def images(rng, lo=4):
    shp = tuple(int(v) for v in rng.integers(lo, 12, 2))
    dt = np.dtype([np.float64, np.float32, np.uint8][int(rng.integers(3))])
    if dt.kind == 'u':
        a = rng.integers(1, 256, shp).astype(dt)
        b = rng.integers(0, 256, shp).astype(dt)
    else:
        sc = float(rng.choice([1., 255.]))
        a = (sc * rng.uniform(.05, 1, shp)).astype(dt)
        b = (sc * rng.uniform(0, 1, shp)).astype(dt)
    if rng.random() < .3:
        b = np.where(rng.random(shp) < .1, b, a)
    return gen.layout(rng, a), gen.layout(rng, b)


def go_pamse(mon, rng):
    a, b = images(rng)
    rs = bool(rng.random() < .6)
    A, B = a.astype(float), b.astype(float)
    e = A - B
    if rs:
        e = e * 255. / A.max()
    rad = int(4 * .8 + .5)
    g = np.exp(-.5 * (np.arange(-rad, rad + 1) / .8)**2)
    g = g / g.sum()
    for ax in (0, 1):
        n = e.shape[ax]
        m = np.zeros((n, n))
        for i in range(n):
            for j, v in zip(range(i - rad, i + rad + 1), g):
                m[i, refl(j, n)] += v
        e = apply(m, e, ax)
    kw = {} if rs and rng.random() < .5 else {'rescale': rs}
    sg = (a.dtype, rs)
    mon.close('pamse', metric.pamse(a, b, **kw), np.mean(e**2),
              rtol=1e-4 if a.dtype.char == 'f' else 1e-8, atol=1e-9, sig=sg,
              at=sg)


def conv_same(x, k):
    """Convolution with symmetric extension, central part"""
    x = np.asarray(x, float)
    r, c = k.shape
    out = np.zeros(x.shape)
    o0, o1 = (r - 1) // 2, (c - 1) // 2
    for i in range(x.shape[0]):
        for j in range(x.shape[1]):
            for p in range(r):
                for q in range(c):
                    out[i, j] += k[p, q] * x[refl(i + o0 - p, x.shape[0]),
                                             refl(j + o1 - q, x.shape[1])]
    return out


def go_gmsd(mon, rng):
    a, b = images(rng)
    rs = bool(rng.random() < .6)
    A, B = a.astype(float), b.astype(float)
    s = 255. / A.max() if rs else 1.
    k2 = np.ones((2, 2)) / 4
    dx = np.array([[1, 0, -1]] * 3) / 3.
    gm = []
    for v in (A, B):
        y = conv_same(s * v, k2)[::2, ::2]
        gm.append(np.hypot(conv_same(y, dx), conv_same(y, dx.T)))
    q = (2 * gm[0] * gm[1] + 170) / (gm[0]**2 + gm[1]**2 + 170)
    kw = {} if rs and rng.random() < .5 else {'rescale': rs}
    sg = (a.dtype, rs, a.shape[0] % 2, a.shape[1] % 2)
    t = 1e-3 if a.dtype.char == 'f' else 1e-8
    mon.close('gmsd', metric.gmsd(a, b, **kw), np.std(q), atol=t, sig=sg,
              at=sg)
    sc, mp = metric.gmsd(a, b, returnMap=True, **kw)
    mon.close('gmsd', sc, np.std(q), atol=t)
    mon.close('gmsd-map', mp, q, atol=t, sig=sg, at=sg)
    mon.le('gmsd', abs(metric.gmsd(a, a, **kw)), 1e-6)


# --------------------------------------------------------------------------
def go_lp(mon, rng):
    M, N = int(rng.integers(3, 8)), int(rng.integers(1, 4))
    if M <= N:
        M = N + 2
    A = rng.normal(size=(M, N))
    b = rng.normal(size=M) * 10**rng.uniform(-1, 2)
    if rng.random() < .3:
        A[:, -1] = 1.
    if rng.random() < .3:
        b = A @ rng.normal(size=N)
        b[int(rng.integers(M))] += 3.
    if rng.random() < .3:
        A, b = A.astype(np.float32), b.astype(np.float32)
    A0, b0 = A.copy(), b.copy()
    A64, b64 = A.astype(float), b.astype(float)
    sc = 1e-6 * (np.abs(b64).max() + 1)
    x = interp.lstabsdev(A, b)
    best = min(np.abs(A64 @ np.linalg.lstsq(A64[list(s)], b64[list(s)],
                                            rcond=None)[0] - b64).sum()
               for s in itertools.combinations(range(M), N))
    mon.ok('l1fit', x.shape == (N,))
    mon.le('l1fit', np.abs(A64 @ x - b64).sum(), best, slack=sc * M,
           sig=(M, N))
    x = interp.lstmaxdev(A, b)
    # exchange theorem: the optimum is that of some subset of N+1 rows, and
    # the largest among them
    lb = 0.
    for s in itertools.combinations(range(M), N + 1):
        u, sv, vt = np.linalg.svd(A64[list(s)])
        null = u[:, -1]
        lb = max(lb, abs(null @ b64[list(s)]) / np.abs(null).sum())
    mon.ok('linffit', x.shape == (N,))
    mon.le('linffit', np.abs(A64 @ x - b64).max(), lb, slack=sc, sig=(M, N))
    mon.ok('inputs-unchanged', np.array_equal(A, A0) and
           np.array_equal(b, b0))


def lz(x, a):
    if abs(x) >= a:
        return 0.
    if x == 0:
        return 1.
    return a * np.sin(np.pi * x) * np.sin(np.pi * x / a) / (np.pi * x)**2


def go_lanczos(mon, rng):
    a = int(rng.integers(1, 6))
    x = np.concatenate([rng.uniform(-a - 1, a + 1, 20),
                        np.arange(-a - 1, a + 2)])
    x = x.reshape((-1, 1)) if rng.random() < .3 else x
    kw = {} if a == 3 and rng.random() < .5 else {'a': a}
    mon.close('kernel', interp.lanczos_kernel(x, **kw),
              np.vectorize(lambda v: lz(v, a))(x), atol=1e-12, sig=a)
    N = int(rng.integers(1, 12))
    for iz in (True, False):
        p = interp.interpolation_points(N, iz)
        mon.ok('points', p.shape == (N,) and np.all(np.abs(p) <= .5) and
               np.all(np.diff(p) > 0) and np.any(p == 0) == iz, sig=(N, iz),
               p=p)
        # evenly spaced (other than the missing zero) and, repeated on the
        # integer grid, without gaps
        per = np.sort(np.concatenate([p, p + 1] + (
            [] if iz else [np.array([0., 1.])])))
        d = np.diff(per)
        mon.close('points', d, np.full(d.shape, 1. / (N if iz else N + 1)),
                  atol=1e-12, N=N, iz=iz)
    nd = int(rng.integers(1, 4))
    sz, pts = [], []
    for _ in range(nd):
        if rng.random() < .5:
            n = int(rng.integers(1, 5))
            sz.append(n)
            pts.append(interp.interpolation_points(n))
        else:
            v = rng.uniform(-1, 1, int(rng.integers(1, 5)))
            v[0] = rng.choice([v[0], 0., 1., -1.])
            sz.append(v if rng.random() < .5 else list(v))
            pts.append(v)
    arg = sz[0] if nd == 1 and isinstance(sz[0], int) and \
        rng.random() < .5 else tuple(sz)
    col = bool(rng.random() < .6)
    kw = {} if a == 3 and rng.random() < .5 else {'a': a}
    if not col or rng.random() < .5:
        kw['collapse_axes'] = col
    h = interp.lanczos_filters(arg, **kw)
    w = np.ones((1,) * (2 * nd))
    for k, p in enumerate(pts):
        f = np.array([[lz(i + v, a) for v in p] for i in range(-a, a + 1)])
        f = f / f.sum(axis=0, keepdims=True)
        shp = [1] * (2 * nd)
        shp[k], shp[nd + k] = f.shape
        w = w * f.reshape(shp)
    if col:
        w = w.reshape(w.shape[:nd] + (-1,))
    mon.close('lanczos', h, w, atol=1e-9, rtol=1e-9, sig=(nd, a, col),
              sz=sz)
    mon.raises('lanczos', ValueError, lambda: interp.lanczos_filters(
        (np.array([0., 1.2]),)))


def go_demosaic(mon, rng):
    shp = tuple(2 * int(v) for v in rng.integers(4, 9, 2))
    if rng.random() < .3:
        shp = tuple(v + int(rng.integers(0, 2)) for v in shp)
    full = rng.uniform(0, 1, shp + (3,))
    lin = bool(rng.random() < .4)
    if lin:
        r, c = np.mgrid[0:shp[0], 0:shp[1]]
        full = np.stack([u + v * r + w * c for u, v, w in
                         rng.normal(size=(3, 3))], axis=-1)
    img = full[..., 1].copy()
    img[1::2, 1::2] = full[1::2, 1::2, 0]
    img[0::2, 0::2] = full[0::2, 0::2, 2]
    i0 = img.copy()
    y = interp.bilinear_demosaic(img)
    ok = mon.ok('demosaic', y.shape == shp + (3,), got=y.shape)
    if not ok:
        return
    sc = 1e-8 * np.abs(full).max()
    for k, sl in ((0, (slice(1, None, 2), slice(1, None, 2))),
                  (2, (slice(0, None, 2), slice(0, None, 2))),
                  (1, (slice(0, None, 2), slice(1, None, 2))),
                  (1, (slice(1, None, 2), slice(0, None, 2)))):
        mon.close('demosaic', y[..., k][sl], full[..., k][sl], atol=sc,
                  sig=(k, shp[0] % 2, shp[1] % 2))
    mon.finite('demosaic', y)
    # green values between those of the neighbouring green samples
    g = full[..., 1]
    lo, hi = [np.stack([np.roll(np.pad(g, 1, constant_values=v), d, a)[
        1:-1, 1:-1] for a in (0, 1) for d in (-1, 1)]) for v in
        (np.inf, -np.inf)]
    r, c = np.mgrid[0:shp[0], 0:shp[1]]
    sel = (r + c) % 2 == 0
    lo, hi = lo.min(axis=0)[sel], hi.max(axis=0)[sel]
    bad = np.maximum(lo - y[..., 1][sel], y[..., 1][sel] - hi)
    mon.le('demosaic-between', np.max(bad), 0, slack=sc, sig=(
        shp[0] % 2, shp[1] % 2))
    if lin:
        inn = (slice(1, 2 * ((shp[0] - 1) // 2)),
               slice(1, 2 * ((shp[1] - 1) // 2)))
        mon.close('demosaic-linear', y[inn], full[inn], atol=10 * sc)
    mon.ok('inputs-unchanged', np.array_equal(img, i0))
