"""Hostile input generators shared by the workloads."""
import numpy as np


def eps_of(dtype):
    dt = np.dtype(dtype)
    return np.finfo(dt).eps


def rand(rng, shape, dtype=np.float64, style=None):
    """Array of the given shape and dtype.  Style controls the values."""
    dt = np.dtype(dtype)
    if style is None:
        style = rng.choice(['gauss', 'sparse', 'ties', 'scale', 'gauss',
                            'int'])
    x = rng.standard_normal(shape)
    if dt.kind == 'c':
        x = x + 1j * rng.standard_normal(shape)
    if style == 'sparse':
        x = x * (rng.random(shape) < 0.4)
    elif style == 'ties':
        x = np.round(x * 2.0) / 2.0
    elif style == 'int':
        x = np.round(x * 3.0)
    elif style == 'zero':
        x = x * 0.0
    elif style == 'scale':
        x = x * 10.0 ** rng.integers(-3, 4)
    elif style == 'const':
        x = x * 0.0 + 1.5
    return np.asarray(x, dtype=dt)


def layout(rng, x, which=None):
    """Same values, different memory layout / flags."""
    if which is None:
        which = rng.choice(['C', 'F', 'strided', 'rev', 'ro', 'C'])
    if which == 'F':
        return np.asfortranarray(x)
    if which == 'strided' and x.ndim > 0:
        y = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype) + 7
        sl = tuple(slice(0, None, 2) for _ in x.shape)
        y[sl] = x
        return y[sl]
    if which == 'rev' and x.ndim > 0:
        return x[::-1].copy()[::-1]
    if which == 'ro':
        y = x.copy()
        y.setflags(write=False)
        return y
    return np.ascontiguousarray(x).reshape(x.shape)


def mtype(rng, W, p=.25):
    """The same weights or mask in another data type (the type of a mask need
    not be that of the signal)"""
    if W is None or rng.random() >= p:
        return W
    if np.all((W == 0) | (W == 1)):
        return W.astype([bool, np.uint8, np.int64, np.float32, np.float64][
            rng.integers(5)])
    return W.astype(np.float64)


def shape(rng, ndim=None, lo=1, hi=7):
    if ndim is None:
        ndim = int(rng.integers(1, 5))
    return stretch(rng, tuple(int(k) for k in rng.integers(lo, hi,
                                                           size=ndim)))


def stretch(rng, shp, p=.02, lo=17, hi=300, cap=20000):
    """Now and then one axis much longer than the others (code may treat
    large arrays in another way than small ones)"""
    if len(shp) == 0 or rng.random() >= p:
        return tuple(shp)
    i = int(rng.integers(len(shp)))
    rest = max(1, int(np.prod(shp)) // max(1, shp[i]))
    n = int(rng.integers(lo, hi))
    n = max(shp[i], min(n, cap // rest))
    return tuple(shp[:i]) + (n,) + tuple(shp[i + 1:])


def axes(rng, ndim, kind=None):
    """A random axis specification: None, int (maybe negative), tuple"""
    if kind is None:
        kind = rng.choice(['none', 'int', 'neg', 'tuple', 'all'])
    if kind == 'none':
        return None
    if kind == 'int':
        return int(rng.integers(0, ndim))
    if kind == 'neg':
        return int(rng.integers(-ndim, 0))
    if kind == 'all':
        return tuple(range(ndim))
    k = int(rng.integers(1, ndim + 1))
    ax = rng.permutation(ndim)[:k]
    return tuple(int(a) if rng.random() < 0.7 else int(a) - ndim
                 for a in ax)


def groups(x, axis):
    """Iterate over index masks of the groups defined by axis (independent of
    sporco): yields (view-of-values flattened, setter)"""
    nd = x.ndim
    if axis is None:
        ax = tuple(range(nd))
    elif isinstance(axis, tuple):
        ax = tuple(a % nd for a in axis)
    else:
        ax = (axis % nd,)
    rest = [k for k in range(nd) if k not in ax]
    for idx in np.ndindex(*[x.shape[k] for k in rest]):
        sl = [slice(None)] * nd
        for k, i in zip(rest, idx):
            sl[k] = i
        yield tuple(sl)


def hist_same(a, b, keys='XY', par='rho', tol=1e-9):
    """Compare two recorded histories of runs that should be the same.

    Transforms planned at run time and SIMD code paths selected by memory
    alignment make repeated runs differ by rounding, so that differences of
    that order, and their growth by a bounded factor from one iteration to
    the next, are accepted. When a decision (penalty parameter, step size)
    flips after such a difference, comparison ends there.
    Returns (same, worst relative difference)."""
    if len(a) != len(b):
        return False, np.inf
    prv = worst = 0.0
    for x, y in zip(a, b):
        if x.get('k') != y.get('k'):
            return False, np.inf
        d = sc = 0.0
        for f in keys:
            p, q = np.asarray(x[f]), np.asarray(y[f])
            if p.shape != q.shape or p.dtype != q.dtype:
                return False, np.inf
            if p.dtype in (np.float32, np.complex64):
                tol = max(tol, 1e-3)
            fin = np.isfinite(p) & np.isfinite(q)
            if not np.all(fin):
                return bool(np.all(np.isfinite(p) == np.isfinite(q)) or
                            prv > 0), worst
            sc = max(sc, float(np.max(np.abs(p), initial=0)))
            d = max(d, float(np.max(np.abs(p - q), initial=0)))
        d = d / max(sc, 1e-300)
        flip = par in x and x[par] != y[par] and not (
            x[par] != x[par] and y[par] != y[par])
        if flip and (prv > 0 or d > 0) and abs(x[par] - y[par]) > 1e-6 * abs(
                x[par]):
            return prv > 0 or d <= tol, worst
        if flip and prv == 0 and d == 0 and not abs(
                x[par] - y[par]) <= 1e-12 * abs(x[par]):
            return False, np.inf
        worst = max(worst, d)
        if d > max(tol, 1e4 * prv):
            return False, d
        prv = max(d, prv)
    return True, worst


def put(rng, fn, new):
    """Replace an array of a solver by calling fn(array), either once or by
    handing over the same buffer twice with changed contents"""
    if new.dtype.char in 'fF' and rng.random() < .5:
        # the data type of the solver does not change
        new = new.astype('d' if new.dtype.char == 'f' else 'D')
    if rng.random() < .6:
        return fn(new)
    b = np.array(new)
    b[...] = 1 - .5 * b[::-1]
    fn(b)
    b[...] = new
    return fn(b)
