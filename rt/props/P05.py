"""Array restructuring: blocks, windows, subsampling, padding, splitting"""
import collections
import io
import numpy as np
import sporco.array as sa
from rt import gen

RULE = ('arrays of 1-4 axes (sizes 1-12), several dtypes and memory layouts, '
        'embedded in a poisoned (NaN / sentinel) buffer; block, window, step '
        'and shift sizes over their whole admissible range; distinct = '
        '(function, ndim, layout, size class of every argument)')
ASSUMPTIONS = ['block size <= array size on every blocked axis',
               'step < array size for subsampling (documented precondition)']
EXPECT = {'extract.values', 'extract.tuple', 'extract.oversize', 'average.values',
          'average.roundtrip', 'combine.values', 'combine.roundtrip',
          'rolling.values', 'subsample.values', 'subsample.reject', 'zpad',
          'zdivide', 'split', 'atleast_nd', 'promote16', 'ntpl.roundtrip',
          'ntpl.transpose', 'args.unchanged', 'poison'}
KINDS = ['extract', 'average', 'combine', 'rolling', 'subsample', 'misc',
         'ntpl']


def cases(tier):
    n = {'quick': 8000, 'thorough': 80000}[tier]
    return [{'kind': k, 'n': i} for k in KINDS for i in range(n)]


def run(case, mon, rng):
    globals()['go_' + case['kind']](mon, rng)


def poisoned(rng, shp, dt):
    """Array which is a window of a larger poisoned buffer"""
    dt = np.dtype(dt)
    x = gen.rand(rng, shp, dt if dt.kind in 'fc' else np.float64)
    if dt.kind in 'iu':
        x = (np.abs(np.round(x * 5)) % 100).astype(dt)
    pv = np.nan if dt.kind in 'fc' else 111
    how = rng.choice(['inner', 'strided', 'F', 'rev', 'plain', 'T'])
    pad = [(int(rng.integers(1, 3)), int(rng.integers(1, 3))) for _ in shp]
    if how == 'strided':
        st = [int(rng.integers(1, 3)) for _ in shp]
        big = np.full([a + n * s + b for n, (a, b), s in zip(shp, pad, st)],
                      pv, dtype=dt)
        sl = tuple(slice(a, a + n * s, s)
                   for n, (a, b), s in zip(shp, pad, st))
        big[sl] = x
        return big[sl], x, how
    if how in ('inner', 'F', 'rev'):
        big = np.full([a + n + b for n, (a, b) in zip(shp, pad)], pv,
                      dtype=dt, order='F' if how == 'F' else 'C')
        sl = tuple(slice(a, a + n) for n, (a, b) in zip(shp, pad))
        if how == 'rev':
            big[sl] = x[::-1]
            return big[sl][::-1], x, how
        big[sl] = x
        return big[sl], x, how
    if how == 'T':
        return np.ascontiguousarray(x.T).T, x, how
    return x.copy(), x, how


DT = [np.float64, np.float32, np.int32, np.uint8, np.complex128, np.float16,
      np.int64]


def _cfg(rng, nimg=None):
    nb = int(rng.integers(1, 4))
    if nimg is None:
        nimg = int(rng.integers(0, 2))
    hi = {1: 13, 2: 9, 3: 6}[nb]
    bs = tuple(int(i) for i in rng.integers(1, hi, size=nb))
    ext = [int(rng.integers(b, b + 5)) for b in bs]
    full = tuple(ext) + tuple(int(i) for i in rng.integers(1, 4, size=nimg))
    if rng.random() < 0.3:
        st = None
    else:
        st = tuple(int(i) for i in rng.integers(1, 5, size=nb))
    return full, bs, st


def _positions(full, bs, st):
    nb = len(bs)
    s = st if st is not None else (1,) * nb
    rngs = [range(0, full[i] - bs[i] + 1, s[i]) for i in range(nb)] + \
        [range(full[i]) for i in range(nb, len(full))]
    return [list(r) for r in rngs]


def ref_extract(x, bs, st):
    nb = len(bs)
    pos = _positions(x.shape, bs, st)
    cnt = [len(p) for p in pos]
    out = np.empty(bs + (int(np.prod(cnt)),), dtype=x.dtype)
    for j, idx in enumerate(np.ndindex(*cnt)):
        p = [pos[i][k] for i, k in enumerate(idx)]
        sl = tuple(slice(p[i], p[i] + bs[i]) for i in range(nb)) + \
            tuple(p[nb:])
        out[..., j] = x[sl]
    return out


def _sig(x, how, bs, st):
    return (x.ndim, str(x.dtype), how, tuple(min(b, 3) for b in bs),
            None if st is None else tuple(min(s, 3) for s in st))


def go_extract(mon, rng):
    full, bs, st = _cfg(rng)
    dt = DT[int(rng.integers(0, len(DT)))]
    v, x, how = poisoned(rng, full, dt)
    sig = _sig(x, how, bs, st)
    b = sa.extract_blocks(v, bs, st) if st is not None or rng.random() < .5 \
        else sa.extract_blocks(v, bs)
    mon.close('extract.values', b, ref_extract(x, bs, st), rtol=0, sig=sig,
              how=how, full=full, bs=bs, st=st)
    mon.ok('poison', not np.any(np.isnan(b)), how=how)
    mon.ok('args.unchanged', np.array_equal(v, x))
    mon.ok('extract.values', b.dtype == x.dtype, got=b.dtype)
    # a block larger than the image does not fit anywhere
    k = int(rng.integers(len(bs)))
    b2 = bs[:k] + (full[k] + int(rng.integers(1, 4)),) + bs[k + 1:]
    try:
        b = sa.extract_blocks(v, b2, st)
    except ValueError:
        b = np.zeros(0)
    mon.ok('extract.oversize', b.size == 0, sig=(k, len(full)), full=full,
           bs=b2, st=st, got=b.shape)
    # tuple of images
    full, bs, st = _cfg(rng, nimg=0)
    n = int(rng.integers(1, 4))
    vs = [poisoned(rng, full, dt) for _ in range(n)]
    b = sa.extract_blocks(tuple(a[0] for a in vs), bs, st)
    mon.close('extract.tuple', b,
              ref_extract(np.stack([a[1] for a in vs], axis=-1), bs, st),
              rtol=0, sig=(n, len(bs)))


def go_average(mon, rng):
    full, bs, st = _cfg(rng)
    dt = [np.float64, np.float32][int(rng.integers(0, 2))]
    pos = _positions(full, bs, st)
    cnt = [len(p) for p in pos]
    v, x, how = poisoned(rng, bs + (int(np.prod(cnt)),), dt)
    out = sa.average_blocks(v, full, st)
    acc = np.zeros(full)
    num = np.zeros(full)
    nb = len(bs)
    for j, idx in enumerate(np.ndindex(*cnt)):
        p = [pos[i][k] for i, k in enumerate(idx)]
        sl = tuple(slice(p[i], p[i] + bs[i]) for i in range(nb)) + \
            tuple(p[nb:])
        acc[sl] += x[..., j]
        num[sl] += 1
    sig = _sig(x, how, bs, st)
    unk = num == 0
    if mon.ok('average.values', out.shape == full, got=out.shape, sig=sig):
        mon.ok('average.values', np.array_equal(np.isnan(out), unk),
               full=full, bs=bs, st=st)
        want = acc[~unk] / num[~unk]
        e = np.finfo(dt).eps
        tol = 1e2 * e * max(1e-300, float(np.abs(x).max()))
        mon.close('average.values', out[~unk], want, rtol=0, atol=tol)
    mon.ok('args.unchanged', np.array_equal(v, x))
    # blocks of a signal average back to the signal
    s = gen.rand(rng, full, dt)
    r = sa.average_blocks(sa.extract_blocks(s, bs, st), full, st)
    tol = 1e2 * np.finfo(dt).eps * max(1e-300, float(np.abs(s).max()))
    mon.close('average.roundtrip', r[~unk], s[~unk], rtol=0, atol=tol,
              sig=sig)


def go_combine(mon, rng):
    full, bs, st = _cfg(rng)
    if np.prod(full) > 200:
        full, bs, st = _cfg(rng)
    dt = [np.float64, np.float32][int(rng.integers(0, 2))]
    fn, fnm = [(np.median, 'median'), (np.max, 'max'), (np.min, 'min'),
               (len, 'len'), (np.mean, 'mean')][int(rng.integers(0, 5))]
    covered = np.zeros(full, bool)
    pos = _positions(full, bs, st)
    cnt = [len(p) for p in pos]
    v, x, how = poisoned(rng, bs + (int(np.prod(cnt)),), dt)
    nb = len(bs)
    lst = {}
    for j, idx in enumerate(np.ndindex(*cnt)):
        p = [pos[i][k] for i, k in enumerate(idx)]
        for off in np.ndindex(*bs):
            key = tuple(p[i] + off[i] for i in range(nb)) + tuple(p[nb:])
            lst.setdefault(key, []).append(x[off + (j,)])
            covered[key] = True
    if not covered.all():
        # function values at pixels covered by no block are not specified
        fn0 = fn

        def fn(a, f=fn0):
            return f(a) if len(a) else 0
    if fnm == 'median' and covered.all():
        out = sa.combine_blocks(v, full, st)
    else:
        out = sa.combine_blocks(v, full, st, fn)
    want = np.zeros(full)
    for key in lst:
        want[key] = fn(lst[key])
    sig = (fnm,) + _sig(x, how, bs, st)
    tol = 1e2 * np.finfo(dt).eps * max(1e-300, float(np.abs(x).max()),
                                       float(np.abs(want).max()))
    mon.close('combine.values', out, want, rtol=0, atol=tol, sig=sig,
              full=full, bs=bs, st=st)
    mon.ok('args.unchanged', np.array_equal(v, x))
    s = gen.rand(rng, full, dt)
    f2 = (lambda a: np.median(a) if len(a) else 0)
    r = sa.combine_blocks(sa.extract_blocks(s, bs, st), full, st, f2)
    mon.close('combine.roundtrip', r[covered], s[covered], rtol=1e-6,
              sig=sig)


def go_rolling(mon, rng):
    nd = int(rng.integers(1, 4))
    hi = {1: 12, 2: 8, 3: 6}[nd]
    shp = tuple(int(i) for i in rng.integers(1, hi, size=nd))
    dt = DT[int(rng.integers(0, len(DT)))]
    v, x, how = poisoned(rng, shp, dt)
    w = tuple(int(rng.integers(1, n + 1)) for n in shp)
    mode = 'wrap'
    if rng.random() < 0.4:
        wn = None
        nn = tuple(n - k + 1 for n, k in zip(shp, w))
        y = sa.rolling_window(v, w)
    else:
        nn = wn = tuple(int(rng.integers(1, n + 3)) for n in shp)
        mode = str(rng.choice(['wrap', 'wrap', 'edge', 'constant', 'reflect',
                               'symmetric']))
        if mode == 'reflect' and min(shp) < 2:
            mode = 'edge'
        if mode == 'wrap' and rng.random() < 0.5:
            y = sa.rolling_window(v, w, wn)
        else:
            y = sa.rolling_window(v, w, wn, pad=mode)
    over = [max(0, k + m - 1 - n) for k, m, n in zip(w, nn, shp)]
    xp = np.pad(x, [(0, o) for o in over], mode=mode)
    want = np.empty(w + nn, dtype=x.dtype)
    for p in np.ndindex(*nn):
        want[(Ellipsis,) + p] = xp[tuple(slice(a, a + k)
                                         for a, k in zip(p, w))]
    mon.close('rolling.values', y, want, rtol=0,
              sig=(nd, how, str(x.dtype), mode, wn is None,
                   tuple(min(o, 2) for o in over)),
              shp=shp, w=w, wn=wn, mode=mode)
    mon.ok('poison', not np.any(np.isnan(y)), how=how)
    mon.ok('args.unchanged', np.array_equal(v, x))


def go_subsample(mon, rng):
    nd = int(rng.integers(1, 4))
    hi = {1: 14, 2: 9, 3: 7}[nd]
    shp = tuple(int(i) for i in rng.integers(2, hi, size=nd))
    dt = DT[int(rng.integers(0, len(DT)))]
    v, x, how = poisoned(rng, shp, dt)
    step = tuple(int(rng.integers(1, n)) for n in shp)
    pad = bool(rng.random() < 0.6)
    mode = 'reflect'
    if pad and rng.random() < 0.5:
        mode = str(rng.choice(['wrap', 'edge', 'constant', 'symmetric']))
        y = sa.subsample_array(v, step, pad=True, mode=mode)
    elif pad:
        y = sa.subsample_array(v, step, pad=True)
    else:
        y = sa.subsample_array(v, step)
    if pad:
        psz = [(0, -n % s) for n, s in zip(shp, step)]
        xp = np.pad(x, psz, mode=mode)
    else:
        xp = x
    cnt = tuple(n // s for n, s in zip(xp.shape, step))
    want = np.empty(step + cnt, dtype=x.dtype)
    for o in np.ndindex(*step):
        want[o] = xp[tuple(slice(a, a + c * s, s)
                           for a, c, s in zip(o, cnt, step))]
    mon.close('subsample.values', y, want, rtol=0,
              sig=(nd, how, str(x.dtype), pad, mode,
                   tuple(bool(n % s) for n, s in zip(shp, step))),
              shp=shp, step=step, pad=pad, mode=mode)
    mon.ok('poison', not np.any(np.isnan(y)), how=how)
    mon.ok('args.unchanged', np.array_equal(v, x))
    k = int(rng.integers(0, nd))
    bad = tuple(s if i != k else shp[i] + int(rng.integers(0, 3))
                for i, s in enumerate(step))
    mon.raises('subsample.reject', ValueError,
               lambda: sa.subsample_array(v, bad), sig=nd)


def go_misc(mon, rng):
    shp = gen.shape(rng)
    nd = len(shp)
    v, x, how = poisoned(rng, shp, DT[int(rng.integers(0, len(DT)))])
    ax = int(rng.integers(0, nd))
    pd = (int(rng.integers(0, 4)), int(rng.integers(0, 4)))
    y = sa.zpad(v, pd, ax)
    s2 = list(shp)
    s2[ax] += pd[0] + pd[1]
    want = np.zeros(s2, dtype=x.dtype)
    sl = [slice(None)] * nd
    sl[ax] = slice(pd[0], pd[0] + shp[ax])
    want[tuple(sl)] = x
    mon.close('zpad', y, want, rtol=0, sig=(nd, ax, pd))
    mon.ok('zpad', y.dtype == x.dtype)
    # split
    ax = int(rng.integers(-nd, nd))
    p = sa.split(v, axis=ax)
    good = len(p) == shp[ax % nd] and all(
        np.array_equal(p[k], np.take(x, k, axis=ax)) for k in range(len(p)))
    mon.ok('split', good, sig=(nd, ax, how), shp=shp, ax=ax)
    if rng.random() < 0.3:
        mon.ok('split', all(np.array_equal(a, b)
                            for a, b in zip(sa.split(v), x)))
    # atleast_nd
    n = int(rng.integers(0, 7))
    z = sa.atleast_nd(n, v)
    mon.ok('atleast_nd', z.shape == shp + (1,) * max(0, n - nd) and
           np.array_equal(z.reshape(shp), x), sig=(nd, n, how))
    # promote16
    f = gen.rand(rng, shp, np.float64)
    for dt in (np.float16, np.float32, np.float64):
        u = f.astype(dt)
        q = sa.promote16(u)
        mon.ok('promote16', q.dtype == (np.float32 if dt == np.float16
                                        else dt) and np.array_equal(q, u))
        if dt != np.float16:
            mon.ok('promote16', q is u)

        def fn(a, k, m=1):
            seen.append(a.dtype)
            return a * k + m
        seen = []
        r = sa.promote16(u, fn, 2, m=3)
        wd = (u.astype(np.float32) if dt == np.float16 else u) * 2 + 3
        mon.ok('promote16', seen[0] == q.dtype and r.dtype == dt and
               np.array_equal(r, wd.astype(dt)), sig=str(dt))
        r = sa.promote16(u, lambda a: (a, a + 1))
        mon.ok('promote16', isinstance(r, tuple) and len(r) == 2 and
               all(a.dtype == dt for a in r))
    # zdivide
    dt = [np.float64, np.float32, np.complex128, np.complex64][
        int(rng.integers(0, 4))]
    a = gen.rand(rng, shp, dt)
    b = gen.rand(rng, shp, dt, 'sparse')
    if rng.random() < 0.3:
        b = b.real.astype(np.float64 if dt in (np.float64, np.complex128)
                          else np.float32)
    a0, b0 = a.copy(), b.copy()
    z = sa.zdivide(a, b)
    want = np.zeros(shp, dtype=np.complex128)
    nz = b != 0
    want[nz] = a[nz].astype(np.complex128) / b[nz].astype(np.complex128)
    mon.close('zdivide', z[nz], want[nz], rtol=1e-5 if dt in (
        np.float32, np.complex64) else 1e-12, sig=(str(np.dtype(dt)),
                                                   b.dtype.kind))
    mon.ok('zdivide', np.all(z[~nz] == 0) and z.dtype == np.dtype(dt))
    mon.ok('args.unchanged', np.array_equal(a, a0) and
           np.array_equal(b, b0) and np.array_equal(v, x))


_T = {}


def go_ntpl(mon, rng):
    nf = int(rng.integers(1, 7))
    name = 'T%d' % nf
    cls = collections.namedtuple(name, ['f%d' % i for i in range(nf)])
    t = cls(*[float(v) for v in rng.standard_normal(nf)])
    a = sa.ntpl2array(t)
    r = sa.array2ntpl(a)
    mon.ok('ntpl.roundtrip', tuple(r) == tuple(t) and
           r._fields == t._fields and type(r).__name__ == name, sig=nf)
    f = io.BytesIO()
    np.savez(f, a=a)
    f.seek(0)
    r = sa.array2ntpl(np.load(f, allow_pickle=True, encoding='latin1')['a'])
    mon.ok('ntpl.roundtrip', tuple(r) == tuple(t) and
           r._fields == t._fields and type(r).__name__ == name,
           sig=('saved', nf))
    n = int(rng.integers(1, 9))
    lst = [cls(*[float(v) for v in rng.standard_normal(nf)])
           for _ in range(n)]
    tr = sa.transpose_ntpl_list(lst)
    mon.ok('ntpl.transpose', tr._fields == cls._fields and
           type(tr).__name__ == name and
           all(list(tr[j]) == [lst[i][j] for i in range(n)]
               for j in range(nf)), sig=(nf, n))
    mon.ok('ntpl.transpose', sa.transpose_ntpl_list([]) is None)
