"""DFT/DCT layer"""
import numpy as np
import scipy.fft
import importlib.util
import sys
import warnings
import sporco.fft as sf
from rt import gen

RULE = ('random real/complex, single/double arrays of 1-4 dims with sizes '
        'including 1, 2, primes and powers of two; every axes form; padded, '
        'cropped and default transform sizes; unaligned/strided/read-only '
        'inputs; with and without pyfftw; sequences of transforms of one shape; 1-4 FFT threads and three planner efforts; distinct = '
        '(function, dtype, size parity pattern, axes form, size regime)')
ASSUMPTIONS = ['reference transform is an explicit DFT matrix (double)']
EXPECT = {'fftn', 'ifftn', 'rfftn', 'irfftn', 'roundtrip.c', 'roundtrip.r',
          'parseval.c', 'parseval.r', 'conv.real', 'conv.cplx', 'dct.ref',
          'dct.roundtrip', 'dct.energy', 'input.unchanged', 'result.stable',
          'dtype', 'alloc', 'dispatch', 'cached-plan', 'backend'}
KINDS = ['cfft', 'rfft', 'norm', 'conv', 'dct', 'alloc', 'hist']


def cases(tier):
    n = 2500 if tier == 'quick' else 30000
    return [{'kind': k, 'n': i} for k in KINDS for i in range(n)]


def no_accel():
    """Second copy of the module, imported as if pyfftw was not installed"""
    spec = importlib.util.spec_from_file_location('sporco_fft_noaccel',
                                                  sf.__file__)
    mod = importlib.util.module_from_spec(spec)
    old = {k: v for k, v in sys.modules.items()
           if k == 'pyfftw' or k.startswith('pyfftw.')}
    for k in old:
        del sys.modules[k]
    sys.modules['pyfftw'] = None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            spec.loader.exec_module(mod)
    finally:
        del sys.modules['pyfftw']
        sys.modules.update(old)
    assert not mod.have_pyfftw
    return mod


ACCEL = sf
NOACCEL = no_accel()


def tol(dt):
    return 3e-6 if np.dtype(dt).char in 'fF' else 1e-13


def dft(x, n, ax, inv=False, crop=True):
    """Explicit DFT along one axis with zero padding / cropping to n"""
    x = np.moveaxis(np.asarray(x, np.complex128), ax, -1)
    if n < x.shape[-1]:
        x = x[..., :n]
    elif n > x.shape[-1]:
        x = np.concatenate((x, np.zeros(x.shape[:-1] + (n - x.shape[-1],))),
                           axis=-1)
    k = np.arange(n)
    # reduce the exponent mod n to keep the reference accurate
    W = np.exp((2j if inv else -2j) * np.pi * (np.outer(k, k) % n) / n)
    y = x @ W
    if inv:
        y = y / n
    return np.moveaxis(y, -1, ax)


def dftn(x, s, axes, inv=False):
    for n, ax in zip(s, axes):
        x = dft(x, n, ax, inv)
    return x


def _sizes(rng, nd):
    pool = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13]
    if nd <= 2:
        pool = pool + [16, 17, 32, 33]
    return gen.stretch(rng, tuple(int(rng.choice(
        pool[:8] if nd > 3 else pool)) for _ in range(nd)), .01)


def _axes(rng, nd):
    k = rng.choice(['none', 'lead', 'perm', 'neg', 'one'])
    if k == 'none':
        return None, tuple(range(nd)), 'none'
    if k == 'lead':
        m = int(rng.integers(1, nd + 1))
        a = tuple(range(m))
    elif k == 'one':
        a = (int(rng.integers(nd)),)
    else:
        m = int(rng.integers(1, nd + 1))
        a = tuple(int(i) for i in rng.permutation(nd)[:m])
    if k == 'neg':
        return tuple(i - nd for i in a), a, 'neg'
    return a, a, str(k)


def _s(rng, shp, ax):
    r = rng.choice(['none', 'pad', 'crop', 'mix'])
    base = [shp[a] for a in ax]
    if r == 'none':
        return None, tuple(base), 'none'
    s = []
    for n in base:
        d = int(rng.integers(0, 4))
        if r == 'pad' or (r == 'mix' and rng.random() < .5):
            s.append(n + d)
        else:
            s.append(max(1, n - d))
    return tuple(s), tuple(s), str(r)


class threads:
    def __init__(self, rng):
        self.t = int(rng.choice([1, 1, 2, 4]))
        self.e = str(rng.choice(['FFTW_ESTIMATE', 'FFTW_ESTIMATE',
                                 'FFTW_MEASURE']))

    def __enter__(self):
        self.o = (sf.pyfftw_threads, sf.pyfftw_planner_effort)
        sf.pyfftw_threads, sf.pyfftw_planner_effort = self.t, self.e

    def __exit__(self, *a):
        sf.pyfftw_threads, sf.pyfftw_planner_effort = self.o


def run(case, mon, rng):
    global sf
    # alternate between the two back ends
    sf = NOACCEL if case['n'] % 3 == 2 else ACCEL
    mon.event('backend', sig=sf.have_pyfftw)
    with threads(rng):
        globals()['go_' + case['kind']](mon, rng)


def _nrm(x):
    return np.max(np.abs(x)) + 1e-30


def go_cfft(mon, rng):
    nd = int(rng.integers(1, 5))
    shp = _sizes(rng, nd)
    dt = np.dtype([np.complex128, np.complex64, np.float64, np.float32][
        int(rng.integers(4))])
    x = gen.layout(rng, gen.rand(rng, shp, dt))
    x0 = x.copy()
    arg, ax, ak = _axes(rng, nd)
    sarg, s, sk = _s(rng, shp, ax)
    if arg is None and sarg is not None and len(sarg) != nd:
        sarg = None
    cd = np.complex64 if dt.char in 'fF' else np.complex128
    ne = float(np.prod(s))
    y = sf.fftn(x, sarg, arg)
    y1 = y.copy()
    mon.close('fftn', y, dftn(x, s, ax), atol=tol(dt) * ne * _nrm(x) * 2,
              sig=(dt, ak, sk, nd), axes=arg, s=sarg, shape=shp)
    mon.ok('dtype', y.dtype == cd, got=y.dtype, want=cd, fn='fftn')
    z = sf.ifftn(x, sarg, arg)
    mon.close('ifftn', z, dftn(x, s, ax, inv=True),
              atol=tol(dt) * 4 * _nrm(x), sig=(dt, ak, sk, nd), axes=arg,
              s=sarg, shape=shp)
    mon.ok('result.stable', np.array_equal(y, y1))
    back = sf.ifftn(sf.fftn(x, None, arg), None, arg)
    mon.close('roundtrip.c', back, x, atol=tol(dt) * 8 * _nrm(x), axes=arg)
    mon.ok('input.unchanged', np.array_equal(x, x0))


def go_rfft(mon, rng):
    nd = int(rng.integers(1, 5))
    shp = _sizes(rng, nd)
    dt = np.dtype([np.float64, np.float32][int(rng.integers(2))])
    x = gen.layout(rng, gen.rand(rng, shp, dt))
    x0 = x.copy()
    arg, ax, ak = _axes(rng, nd)
    sarg, s, sk = _s(rng, shp, ax)
    ne = float(np.prod(s))
    cd = np.complex64 if dt.char == 'f' else np.complex128
    y = sf.rfftn(x, sarg, arg)
    full = dftn(x, s, ax)
    sl = [slice(None)] * nd
    sl[ax[-1]] = slice(0, s[-1] // 2 + 1)
    mon.close('rfftn', y, full[tuple(sl)], atol=tol(dt) * ne * _nrm(x) * 2,
              sig=(dt, ak, sk, s[-1] % 2), axes=arg, s=sarg, shape=shp)
    mon.ok('dtype', y.dtype == cd, got=y.dtype, want=cd, fn='rfftn')
    mon.ok('input.unchanged', np.array_equal(x, x0))
    y0 = y.copy()
    z = sf.irfftn(y, s, arg)
    z0 = z.copy()
    mon.ok('input.unchanged', np.array_equal(y, y0), fn='irfftn')
    mon.ok('dtype', z.dtype == dt, got=z.dtype, want=dt, fn='irfftn')
    # expected: x zero padded / cropped on the transform axes
    w = x0
    for n, a in zip(s, ax):
        if n <= w.shape[a]:
            w = np.take(w, range(n), axis=a)
        else:
            pd = [(0, 0)] * nd
            pd[a] = (0, n - w.shape[a])
            w = np.pad(w, pd)
    mon.close('roundtrip.r', z, w, atol=tol(dt) * 8 * _nrm(x),
              sig=(dt, ak, sk, s[-1] % 2), axes=arg, s=sarg, shape=shp)
    # irfftn as the inverse of the conjugate symmetric spectrum
    mon.close('irfftn', z, np.real(dftn(full, s, ax, inv=True)),
              atol=tol(dt) * 8 * _nrm(x), sig=(dt, ak, s[-1] % 2))
    sf.irfftn(2 * y, s, arg)
    mon.ok('result.stable', np.array_equal(z, z0))


def go_hist(mon, rng):
    """Sequences of transforms of arrays of one shape: plans are cached, and
    a transform may not be affected by the ones made before."""
    nd = int(rng.integers(2, 5))
    shp = (int(rng.integers(1, 6)),) * nd
    dts = [np.complex128, np.complex64, np.float64, np.float32]
    for _ in range(16):
        m = int(rng.integers(1, nd + 1))
        ax = [int(a) for a in rng.permutation(nd)[:m]]
        if rng.random() < .3:
            ax = [int(rng.integers(nd - 2, nd))]
        arg = tuple(a - nd if rng.random() < .6 else a for a in ax)
        s = None if rng.random() < .5 else tuple(
            shp[0] + int(rng.integers(0, 2)) for _ in ax)
        f = ('fftn', 'ifftn', 'rfftn', 'irfftn')[int(rng.integers(4))]
        dt = np.dtype(dts[int(rng.integers({'rfftn': 2, 'irfftn': 0}.get(
            f, 0), {'irfftn': 2}.get(f, 4)))])
        x = gen.rand(rng, shp, dt)
        if f == 'irfftn':
            # imaginary parts at zero and Nyquist frequency are not used
            # consistently by FFT implementations
            s = tuple(shp[a] for a in ax)
            y = np.fft.rfftn(x.real, None, arg).astype(
                np.complex64 if dt.char == 'F' else dt)
            got, want = sf.irfftn(y, s, arg), x.real
        else:
            got = getattr(sf, f)(x, s, arg)
            want = getattr(np.fft, f)(x, s, arg)
        mon.close('cached-plan', got, want, atol=tol(dt) * 4 * _nrm(x) *
                  float(np.prod(s or [shp[0]] * m)), sig=(f, dt, arg, s is None),
                  f=f, axes=arg, s=s, shape=shp)


def go_norm(mon, rng):
    nd = int(rng.integers(1, 6))
    shp = _sizes(rng, nd)
    m = int(rng.integers(1, nd + 1))
    axis = tuple(range(m)) if rng.random() < .6 else tuple(
        int(i) for i in rng.permutation(nd)[:m])
    if rng.random() < .3:
        axis = tuple(i - nd for i in axis)
    dt = np.dtype([np.float64, np.float32][int(rng.integers(2))])
    x = gen.rand(rng, shp, dt)
    want = np.sum(x.astype(np.float64) ** 2)
    xf = sf.rfftn(x, None, axis)
    mon.close('parseval.r', sf.rfl2norm2(xf, shp, axis=axis), want,
              rtol=1e-4 if dt.char == 'f' else 1e-10, atol=1e-30,
              sig=(dt, nd, shp[axis[-1]] % 2, axis == tuple(range(m)), axis[0] < 0),
              axis=axis, shape=shp)
    cd = np.dtype([np.complex128, np.complex64][int(rng.integers(2))])
    z = gen.rand(rng, shp, cd)
    zf = sf.fftn(z, None, axis)
    want = np.sum(np.abs(z.astype(np.complex128)) ** 2)
    mon.close('parseval.c', sf.fl2norm2(zf, axis=axis), want,
              rtol=1e-4 if cd.char == 'F' else 1e-10, atol=1e-30,
              sig=(cd, nd), axis=axis, shape=shp)
    real = bool(rng.integers(2))
    v, vf = (x, xf) if real else (z, zf)
    mon.close('dispatch', sf.fl2norm2_func(real)(vf, shp, axis=axis),
              np.sum(np.abs(v.astype(np.complex128)) ** 2), rtol=1e-4,
              atol=1e-30, real=real)
    mon.close('dispatch', sf.fftn_func(real)(v, None, axis), vf,
              rtol=1e-5, atol=1e-30)
    mon.close('dispatch', sf.ifftn_func(real)(
        vf, tuple(shp[a] for a in axis), axis), v, rtol=1e-5, atol=1e-6)
    e = sf.empty_aligned_func(real)(shp, axis, v.dtype)
    mon.ok('dispatch', e.shape == vf.shape and e.dtype == vf.dtype,
           got=(e.shape, e.dtype), want=(vf.shape, vf.dtype))


def cconv_ref(a, b, dims, axes, nd):
    """Direct circular convolution (no FFT)"""
    A = np.asarray(a, np.complex128)
    B = np.asarray(b, np.complex128)
    for ax, n in zip(axes, dims):
        for_ = [(0, 0)] * nd
        for_[ax] = (0, n - A.shape[ax])
        A = np.pad(A, for_)
    out = None
    for idx in np.ndindex(*[b.shape[ax] for ax in axes]):
        sl = [slice(None)] * nd
        for ax, i in zip(axes, idx):
            sl[ax] = slice(i, i + 1)
        t = np.roll(A, idx, axis=axes) * B[tuple(sl)]
        out = t if out is None else out + t
    return out


def go_conv(mon, rng):
    nd = int(rng.integers(1, 4))
    sa = gen.shape(rng, nd, 1, 8)
    m = int(rng.integers(1, nd + 1))
    axes = tuple(range(m)) if rng.random() < .6 else tuple(
        int(i) for i in rng.permutation(nd)[:m])
    if rng.random() < 0.2:
        axes = tuple(range(nd))
        aarg = None
    else:
        aarg = axes
    sb = list(sa)
    for i in range(nd):
        if i in axes:
            sb[i] = int(rng.integers(1, 8))
        elif rng.random() < .3:
            sb[i] = 1
    dts = [np.float64, np.float32, np.complex128, np.complex64]
    da, db = (np.dtype(dts[int(rng.integers(4))]) for _ in range(2))
    if rng.random() < .6:
        da = db = np.dtype(dts[int(rng.integers(2))])
    a = gen.layout(rng, gen.rand(rng, sa, da))
    b = gen.layout(rng, gen.rand(rng, sb, db))
    a0, b0 = a.copy(), b.copy()
    dims = tuple(max(sa[i], sb[i]) for i in axes)
    org = None
    if rng.random() < .5:
        org = tuple(int(rng.integers(0, sa[i])) for i in axes)
    y = sf.fftconv(a, b, aarg, origin=org)
    ref = cconv_ref(a, b, dims, axes, nd)
    if org is not None:
        ref = np.roll(ref, tuple(-o for o in org), axis=axes)
    cplx = np.iscomplexobj(a) or np.iscomplexobj(b)
    lowp = da.char in 'fF' or db.char in 'fF'
    mon.close('conv.cplx' if cplx else 'conv.real', y, ref,
              atol=(5e-5 if lowp else 1e-11) * _nrm(a) * _nrm(b) *
              np.prod(dims), sig=(da, db, len(axes), org is None,
                                  sa > tuple(sb)),
              axes=aarg, origin=org, sa=sa, sb=sb)
    mon.ok('input.unchanged', np.array_equal(a, a0) and np.array_equal(b, b0))


def dctm(n):
    k = np.arange(n)
    W = np.sqrt(2.0 / n) * np.cos(np.pi * np.outer(k, 2 * k + 1) / (2 * n))
    W[0] /= np.sqrt(2.0)
    return W


def go_dct(mon, rng):
    nd = int(rng.integers(1, 5))
    shp = _sizes(rng, nd)
    dt = np.dtype([np.float64, np.float32][int(rng.integers(2))])
    x = gen.layout(rng, gen.rand(rng, shp, dt))
    x0 = x.copy()
    arg, ax, ak = _axes(rng, nd)
    y = sf.dctii(x, arg)
    ref = x.astype(np.float64)
    for a in ax:
        ref = np.moveaxis(np.tensordot(dctm(shp[a]), ref, axes=(1, a)), 0, a)
    t = 1e-5 if dt.char == 'f' else 1e-11
    sc = _nrm(x) * np.sqrt(x.size)
    mon.close('dct.ref', y, ref, atol=t * sc, sig=(dt, ak, nd), axes=arg)
    mon.close('dct.roundtrip', sf.idctii(y, arg), x, atol=t * sc,
              sig=(dt, ak), axes=arg)
    mon.close('dct.roundtrip', sf.dctii(sf.idctii(x, arg), arg), x,
              atol=t * sc, axes=arg)
    mon.close('dct.energy', np.sum(y.astype(np.float64) ** 2),
              np.sum(x.astype(np.float64) ** 2), rtol=100 * t, atol=1e-30)
    mon.ok('input.unchanged', np.array_equal(x, x0))


def go_alloc(mon, rng):
    nd = int(rng.integers(1, 5))
    shp = _sizes(rng, nd)
    dt = np.dtype([np.float64, np.float32, np.complex128, np.complex64][
        int(rng.integers(4))])
    e = sf.empty_aligned(shp, dt)
    mon.ok('alloc', e.shape == shp and e.dtype == dt and
           e.flags.writeable, sig=(dt, nd))
    e[...] = 1
    x = gen.layout(rng, gen.rand(rng, shp, dt))
    b = sf.byte_aligned(x)
    mon.ok('alloc', b.shape == shp and np.array_equal(b, x), sig=(dt, nd))
    rdt = np.dtype(dt.char.lower())
    m = int(rng.integers(1, nd + 1))
    axes = tuple(range(m))
    f = sf.rfftn_empty_aligned(shp, axes, rdt)
    r = sf.rfftn(np.zeros(shp, rdt), None, axes)
    mon.ok('alloc', f.shape == r.shape and f.dtype == r.dtype,
           got=(f.shape, f.dtype), want=(r.shape, r.dtype))
    mon.ok('dtype', sf.complex_dtype(dt) == np.result_type(dt, np.complex64)
           and sf.real_dtype(dt) == rdt, dt=dt)
    mon.ok('dtype', sf.is_complex_dtype(dt) == (dt.kind == 'c'))
