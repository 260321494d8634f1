"""Convolutional representation: axis assignment, weight/mask shapes, and
projection onto the dictionary constraint set"""
import numpy as np
import sporco.cnvrep as cr
from sporco.admm import cmod as acmod
from sporco.pgm import cmod as pcmod
from rt import gen

RULE = ('random problem geometries: 1-3 spatial axes, channel counts 1-3, '
        'signal counts 1-3, explicit and inferred multi-signal axis, single- '
        'and multi-scale (per-filter-group, per-channel) dictionary size '
        'specifications; distinct = (geometry class, specification form, '
        'options)')
ASSUMPTIONS = ['filter support not larger than the signal on any axis']
EXPECT = {'csc.geometry', 'csc.reject', 'cdu.geometry', 'stdformD',
          'l1W.broadcast', 'l1W.reject', 'mskW.broadcast', 'mskW.single', 'bcrop', 'zpad',
          'zeromean', 'normalise', 'pcn.value', 'pcn.feasible',
          'pcn.idempotent', 'pcn.nearest', 'pcn.agree', 'dsz',
          'args.unchanged', 'dense.value', 'dense.feasible'}
KINDS = ['geom', 'weights', 'pcn', 'crop', 'dense']


def cases(tier):
    n = {'quick': 20000, 'thorough': 200000}[tier]
    return [{'kind': k, 'n': i} for k in KINDS
            for i in range(n if k != 'dense' else n // 4)]


def run(case, mon, rng):
    globals()['go_' + case['kind']](mon, rng)


def geom(rng):
    dimN = int(rng.integers(1, 4))
    hi = {1: 14, 2: 9, 3: 6}[dimN]
    Nv = tuple(int(i) for i in rng.integers(1, hi, size=dimN))
    L = tuple(int(rng.integers(1, n + 1)) for n in Nv)
    M = int(rng.integers(1, 5) if rng.random() < .99 else
            rng.integers(20, 150))
    # (multichannel dictionary?, channel axis in S?, signal axis in S?)
    form = [(0, 0, 0), (0, 1, 0), (0, 0, 1), (0, 1, 1), (1, 1, 0),
            (1, 1, 1)][int(rng.integers(0, 6))]
    mc, c, k = form
    C = int(rng.integers(1, 4)) if c else 1
    K = int(rng.integers(1, 4) if rng.random() < .99 else
            rng.integers(20, 150)) if k else 1
    Cd = C if mc else 1
    D = gen.rand(rng, L + ((Cd,) if mc else ()) + (M,))
    S = gen.rand(rng, Nv + ((C,) if c else ()) + ((K,) if k else ()))
    # when may dimK be left for inference?
    infer = form in ((0, 0, 0), (0, 0, 1), (0, 1, 1), (1, 1, 0), (1, 1, 1))
    dimK = None if infer and rng.random() < 0.5 else k
    return dimN, Nv, L, M, form, C, K, Cd, D, S, dimK


def go_geom(mon, rng):
    dimN, Nv, L, M, form, C, K, Cd, D, S, dimK = geom(rng)
    Cx = 1 if form[0] else C
    sig = (dimN, form, dimK, C > 1, K > 1, M > 1)
    want = dict(C=C, K=K, M=M, Nv=Nv, axisN=tuple(range(dimN)), axisC=dimN,
                axisK=dimN + 1, axisM=dimN + 2, Cd=Cd,
                shpS=Nv + (C, K, 1), shpX=Nv + (Cx, K, M))
    cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
    for key, v in want.items():
        mon.ok('csc.geometry', getattr(cri, key) == v, sig=sig, key=key,
               got=getattr(cri, key), want=v, D=D.shape, S=S.shape, dimK=dimK)
    mon.ok('csc.geometry', cri.shpD == L + (Cd, 1, M) and
           int(cri.N) == int(np.prod(Nv)))
    Ds = cr.stdformD(D, Cd, M, dimN)
    mon.ok('stdformD', Ds.shape == L + (Cd, 1, M) and
           np.array_equal(Ds.ravel(), D.ravel()), sig=sig)
    # S reshaped to its internal shape keeps (spatial, channel, signal) order
    Si = S.reshape(cri.shpS)
    mon.ok('csc.geometry', Si.size == S.size and Si.ndim == dimN + 3)
    # dictionary update indexing
    dsz = D.shape
    cdu = cr.CDU_ConvRepIndexing(dsz, S, dimK=dimK, dimN=dimN)
    want['shpD'] = Nv + (Cd, 1, M)
    for key, v in want.items():
        mon.ok('cdu.geometry', getattr(cdu, key) == v, sig=sig, key=key,
               got=getattr(cdu, key), want=v, dsz=dsz, S=S.shape, dimK=dimK)
    # mismatched channels must be rejected
    Cb = int(rng.integers(2, 5))
    Sb = gen.rand(rng, Nv + (Cb + int(rng.integers(1, 3)), 2))
    Db = gen.rand(rng, L + (Cb, M))
    mon.raises('csc.reject', ValueError,
               lambda: cr.CSC_ConvRepIndexing(Db, Sb, dimN=dimN), sig=dimN)
    mon.raises('csc.reject', ValueError,
               lambda: cr.CDU_ConvRepIndexing(Db.shape, Sb, dimN=dimN))


def go_weights(mon, rng):
    dimN, Nv, L, M, form, C, K, Cd, D, S, dimK = geom(rng)
    if form[0] and C > 1 and rng.random() < 0.5:
        pass
    cri = cr.CSC_ConvRepIndexing(D, S, dimK=dimK, dimN=dimN)
    mc, c, k = form
    shpX = cri.shpX
    # external weight: S.shape (+ filters), axes possibly made singleton
    base = list(Nv)
    if c:
        base.append(1 if mc else C)
    if k:
        base.append(K)
    hasM = bool(rng.random() < 0.7)
    if hasM:
        base.append(M)
    shp = tuple(1 if rng.random() < 0.25 else b for b in base)
    W = rng.random(shp)
    intr = list(shp[:dimN])
    i = dimN
    intr.append(shp[i] if c else 1)
    i += c
    intr.append(shp[i] if k else 1)
    i += k
    intr.append(shp[i] if hasM else 1)
    sig = (dimN, form, dimK, hasM, tuple(b == 1 for b in shp))
    got = cr.l1Wshape(W, cri)
    mon.ok('l1W.broadcast', tuple(got) == tuple(intr), sig=sig, W=shp,
           S=S.shape, got=got, want=tuple(intr))
    # already-internal and scalar weights
    mon.ok('l1W.broadcast', tuple(cr.l1Wshape(np.ones(shpX), cri)) == shpX)
    mon.ok('l1W.broadcast', tuple(cr.l1Wshape(np.ones((1,)), cri)) ==
           (1,) * (dimN + 3) if S.ndim > 1 else True)
    mon.ok('l1W.broadcast', tuple(cr.l1Wshape(np.array(2.0), cri)) ==
           (1,) * (dimN + 3))
    if S.ndim > 1:
        mon.raises('l1W.reject', ValueError,
                   lambda: cr.l1Wshape(np.ones((2,) * (S.ndim - 1)), cri))
    # mask
    base = list(Nv) + ([C] if c else []) + ([K] if k else [])
    shp = tuple(1 if rng.random() < 0.25 else b for b in base)
    W = rng.random(shp)
    intr = shp[:dimN] + ((shp[dimN] if c else 1),
                         (shp[dimN + c] if k else 1), 1)
    for cc in (cri, cr.CDU_ConvRepIndexing(D.shape, S, dimK=dimK,
                                           dimN=dimN)):
        got = tuple(cr.mskWshape(W, cc))
        good = got == intr
        if not good and sum(1 for v in shp[dimN:]) == 1 and \
                W.reshape(got).shape == got:
            # single non-spatial axis of length one: either placement
            good = shp[dimN] == 1 and got == shp[:dimN] + (1, 1, 1)
        mon.ok('mskW.broadcast', good, sig=sig, W=shp, S=S.shape, got=got,
               want=intr)
    # a single non-spatial axis: that of the non-singleton one of the
    # channel and signal axes, or the channel axis if neither is
    if c and k:
        onk = C == 1 and K > 1
        shp = tuple(1 if rng.random() < 0.25 else b for b in Nv) + (
            int(rng.choice([1, K if onk else C])),)
        intr = shp[:dimN] + ((1, shp[dimN], 1) if onk else
                             (shp[dimN], 1, 1))
        W = rng.random(shp)
        for cc in (cri, cr.CDU_ConvRepIndexing(D.shape, S, dimK=dimK,
                                               dimN=dimN)):
            got = tuple(cr.mskWshape(W, cc))
            mon.ok('mskW.single', got == intr, sig=sig + (onk,), W=shp,
                   S=S.shape, got=got, want=intr)
    # spatial-only mask
    got = tuple(cr.mskWshape(rng.random(Nv), cri))
    mon.ok('mskW.broadcast', got == Nv + (1, 1, 1))


def dszspec(rng, dimN, Nv, mc):
    """A dictionary size specification with its reference support mask.
    Returns dsz, C (number of channels), M, mask of shape Nv+(C,1,M), max
    support"""
    form = rng.choice(['single', 'multi', 'chan']) if mc else \
        rng.choice(['single', 'multi'])
    C = int(rng.integers(1, 4)) if mc else 1

    def sup():
        return tuple(int(rng.integers(1, n + 1)) for n in Nv)
    sups = []          # [(support, c0, c1, m0, m1)]
    if form == 'single':
        M = int(rng.integers(1, 5))
        s = sup()
        dsz = s + ((C,) if mc else ()) + (M,)
        sups.append((s, 0, C, 0, M))
    else:
        nb = int(rng.integers(1, 4))
        dsz = []
        m0 = 0
        if form == 'chan':
            cuts = sorted(set(rng.integers(1, C + 1, size=2).tolist() + [C]))
        for b in range(nb):
            m = int(rng.integers(1, 4))
            if form == 'multi':
                s = sup()
                dsz.append(s + ((C,) if mc else ()) + (m,))
                sups.append((s, 0, C, m0, m0 + m))
            else:
                blk = []
                c0 = 0
                for c1 in cuts:
                    s = sup()
                    blk.append(s + (c1 - c0, m))
                    sups.append((s, c0, c1, m0, m0 + m))
                    c0 = c1
                dsz.append(tuple(blk))
            m0 += m
        dsz = tuple(dsz)
        M = m0
    mask = np.zeros(Nv + (C, 1, M), bool)
    for s, c0, c1, m0, m1 in sups:
        mask[tuple(slice(0, a) for a in s) +
             (slice(c0, c1), slice(None), slice(m0, m1))] = True
    mx = tuple(max(s[0][i] for s in sups) for i in range(dimN))
    return str(form), dsz, C, M, mask, mx


def _ref_zm(y, mask, dimN):
    ax = tuple(range(dimN))
    cnt = mask.sum(axis=ax, keepdims=True)
    mu = np.where(mask, y, 0).sum(axis=ax, keepdims=True) / cnt
    return np.where(mask, y - mu, y)


def _ref_nrm(y, dimN, dimC=1):
    ax = tuple(range(dimN + dimC))
    nrm = np.sqrt((np.abs(y) ** 2).sum(axis=ax, keepdims=True))
    return y / np.where(nrm == 0, 1, nrm), nrm


def go_pcn(mon, rng):
    dimN = int(rng.integers(1, 4))
    hi = {1: 14, 2: 8, 3: 5}[dimN]
    Nv = tuple(int(i) for i in rng.integers(1, hi, size=dimN))
    mc = bool(rng.random() < 0.5)
    form, dsz, C, M, mask, mx = dszspec(rng, dimN, Nv, mc)
    dt = [np.float64, np.float32][int(rng.random() < 0.3)]
    x = gen.rand(rng, Nv + (C, 1, M), dt, 'gauss')
    st = rng.choice(['gauss', 'scaled', 'zeroflt', 'outside'])
    if st == 'scaled':
        # one scale, or one for every filter
        x = (x * 10.0 ** rng.uniform(*((-12, 12) if rng.random() < .5 else
                                       (-4, 4)), size=(
            M if rng.random() < .5 else 1))).astype(dt)
    elif st == 'zeroflt':
        x[..., 0] = 0
    elif st == 'outside':
        x[..., 0] = np.where(mask[..., 0], 0, x[..., 0])
    zm = bool(rng.random() < 0.5)
    crp = bool(rng.random() < 0.4)
    dimC = int(rng.random() < .8)
    sig = (dimN, dimC, form, C > 1, zm, crp, str(st), str(np.dtype(dt)))
    y = np.where(mask, x, 0).astype(np.float64)
    if zm:
        y = _ref_zm(y, mask, dimN)
    ref, nrm = _ref_nrm(y, dimN, dimC)
    # filters for which the projection is not defined (nothing but rounding
    # noise left after mean subtraction)
    scale = np.sqrt((np.where(mask, x, 0).astype(float) ** 2).sum(
        axis=tuple(range(dimN + dimC)), keepdims=True))
    e = float(np.finfo(dt).eps)
    good = (nrm > 1e3 * e * scale) | (scale == 0)
    goodm = np.broadcast_to(good, y.shape)
    x0 = x.copy()
    # (projections of another kind for the same sizes in between)
    for _ in range(int(rng.integers(0, 4))):
        cr.getPcn(dsz, Nv, dimN, int(rng.integers(2)), crp=bool(
            rng.random() < .5), zm=bool(rng.random() < .5))(x)
    p1 = cr.Pcn(x, dsz, Nv, dimN, dimC, crp=crp, zm=zm)
    fn = cr.getPcn(dsz, Nv, dimN, dimC, crp=crp, zm=zm)
    p2 = fn(x)
    mon.ok('args.unchanged', np.array_equal(x, x0))
    sl = tuple(slice(0, a) for a in mx)
    rf = ref[sl] if crp else ref
    gm = goodm[sl] if crp else goodm
    mk = mask[sl] if crp else mask
    for nm, p in (('Pcn', p1), ('getPcn', p2)):
        if not mon.ok('pcn.value', p.shape == rf.shape and p.dtype == x.dtype,
                      got=(p.shape, p.dtype), fn=nm, sig=sig, dsz=dsz):
            return
        # error amplification of the mean subtraction
        amp = float(np.max(np.where((scale > 0) & good,
                                    scale / np.where(nrm == 0, 1, nrm), 1)))
        tol = 50 * e * max(1, amp) * np.sqrt(np.prod(Nv))
        mon.close('pcn.value', np.where(gm, p, 0), np.where(gm, rf, 0),
                  rtol=0, atol=tol, fn=nm, dsz=dsz, Nv=Nv, C=C, zm=zm,
                  crp=crp)
        mon.ok('pcn.feasible', np.all(p[~mk] == 0), sig=sig, fn=nm, dsz=dsz)
        nn = np.sqrt((p.astype(float) ** 2).sum(axis=tuple(range(dimN + dimC))))
        gg = good.reshape(nn.shape)
        one = np.where(scale.reshape(nn.shape) > 0, 1.0, 0.0)
        mon.close('pcn.feasible', nn[gg], one[gg], rtol=0, atol=50 * e *
                  np.sqrt(mask[..., 0].size), fn=nm)
        if zm:
            mu = np.where(gm, p, 0).astype(float).sum(axis=tuple(range(dimN)))
            mon.close('pcn.feasible', mu, np.zeros_like(mu), rtol=0,
                      atol=tol * np.sqrt(np.prod(Nv)), fn=nm)
    mon.close('pcn.agree', p2, p1, rtol=0, atol=20 * e, sig=sig)
    # projecting a feasible dictionary changes nothing
    if np.all(good):
        q = (cr.getPcn(dsz, Nv, dimN, dimC, crp=crp, zm=zm))(
            p2 if not crp else cr.zpad(p2, Nv))
        mon.close('pcn.idempotent', q, p2, rtol=0, atol=tol, sig=sig)
        # no other feasible point is nearer
        z = gen.rand(rng, x.shape, np.float64, 'gauss')
        z = np.where(mask, z, 0)
        if zm:
            z = _ref_zm(z, mask, dimN)
        full = cr.zpad(p2, Nv) if crp else p2
        z = full.astype(float) + float(10.0 ** rng.uniform(-3, 0.5)) * z
        z, zn = _ref_nrm(z, dimN, dimC)
        xd = x.astype(float)
        for m in range(M):
            if scale[..., m].min() == 0 or zn[..., m].min() < 1e-8:
                continue
            d1 = np.linalg.norm(xd[..., m] - full[..., m])
            d2 = np.linalg.norm(xd[..., m] - z[..., m])
            mon.le('pcn.nearest', d1, d2, slack=tol * (1 + d2) * 10, sig=sig)


def go_crop(mon, rng):
    dimN = int(rng.integers(1, 4))
    hi = {1: 14, 2: 8, 3: 5}[dimN]
    Nv = tuple(int(i) for i in rng.integers(1, hi, size=dimN))
    mc = bool(rng.random() < 0.5)
    form, dsz, C, M, mask, mx = dszspec(rng, dimN, Nv, mc)
    cplx = rng.random() < 0.2
    x = gen.rand(rng, Nv + (C, 1, M), np.complex128 if cplx else np.float64,
                 'gauss')
    x0 = x.copy()
    sig = (dimN, form, C > 1, cplx)
    ds = cr.DictionarySize(dsz, dimN)
    mon.ok('dsz', ds.nchn == C and ds.nflt == M and tuple(ds.mxsz) == mx and
           ds.ndim == dimN + 1 + int(mc), sig=sig, dsz=dsz, got=str(ds))
    y = cr.bcrop(x, dsz, dimN)
    sl = tuple(slice(0, a) for a in mx)
    mon.close('bcrop', y, np.where(mask, x, 0)[sl], rtol=0, sig=sig, dsz=dsz)
    if not mc and rng.random() < 0.5:
        # dictionary without channel and signal axes
        y = cr.bcrop(x[..., 0, 0, :], dsz, dimN)
        mon.close('bcrop', y, np.where(mask, x, 0)[sl][..., 0, 0, :], rtol=0,
                  sig=sig + (1,))
    z = cr.zpad(cr.bcrop(x, dsz, dimN), Nv)
    mon.close('zpad', z, np.where(mask, x, 0), rtol=0, sig=sig)
    v = cr.zeromean(x, dsz, dimN)
    mon.close('zeromean', v, _ref_zm(x, mask, dimN), rtol=1e-12, sig=sig)
    k = int(rng.integers(1, x.ndim + 1))
    if rng.random() < 0.3:
        x[(slice(None),) * k + (0,) * (x.ndim - k)] = 0
        x0 = x.copy()
    if rng.random() < .3:
        x = x * 10.0 ** rng.uniform(-12, 12)
        x0 = x.copy()
    w = cr.normalise(x, k)
    nrm = np.sqrt((np.abs(x) ** 2).sum(axis=tuple(range(k)), keepdims=True))
    mon.close('normalise', w, x / np.where(nrm == 0, 1, nrm), rtol=1e-12,
              sig=(sig, k))
    mon.ok('args.unchanged', np.array_equal(x, x0))


def go_dense(mon, rng):
    """Projection of dense dictionaries: columns of unit norm"""
    mod = (acmod, pcmod)[int(rng.integers(2))]
    n, m = int(rng.integers(2, 12)), int(rng.integers(1, 12))
    dt = [np.float64, np.float32][int(rng.random() < .3)]
    e = float(np.finfo(dt).eps)
    v = gen.rand(rng, (n, m), dt, 'gauss')
    if rng.random() < .6:
        v = (v * 10.0 ** rng.uniform(-12, 12, m)).astype(dt)
    if rng.random() < .3:
        v[:, int(rng.integers(m))] = 0
    if rng.random() < .2:
        v = -np.abs(v)
    zm = bool(rng.random() < .4)
    nn = mod is pcmod and not zm and bool(rng.random() < .5)
    v = gen.layout(rng, v)
    v0 = v.copy()
    f = mod.getPcn(zm, nn) if mod is pcmod else mod.getPcn(zm)
    sig = (mod is pcmod, zm, nn, str(np.dtype(dt)))
    p = f(v)
    w = v.astype(float)
    if zm:
        w = w - np.mean(w, 0)
    if nn:
        w = np.maximum(w, 0)
    nrm = np.sqrt((w ** 2).sum(0))
    scale = np.sqrt((v.astype(float) ** 2).sum(0))
    good = (nrm > 1e3 * e * scale) | (nrm == 0)
    amp = np.where(good & (nrm > 0), scale / np.where(nrm == 0, 1, nrm), 1)
    tol = 50 * e * np.max(amp) * n
    mon.ok('args.unchanged', np.array_equal(v, v0))
    mon.ok('dense.value', p.shape == v.shape and p.dtype == v.dtype, sig=sig,
           got=(p.shape, p.dtype))
    mon.close('dense.value', p[:, good],
              (w / np.where(nrm == 0, 1, nrm))[:, good], rtol=0, atol=tol,
              sig=sig)
    mon.close('dense.feasible', np.sqrt((p.astype(float) ** 2).sum(0))[good],
              (nrm > 0)[good] * 1.0, rtol=0, atol=50 * e * n, sig=sig)
    if zm:
        mon.close('dense.feasible', p.astype(float)[:, good].sum(0),
                  np.zeros(good.sum()), rtol=0, atol=tol * n, sig=sig)
        mon.close('zeromean', mod.zeromean(v), w, rtol=0,
                  atol=20 * e * n * np.max(np.abs(v)), sig=sig)
    if nn:
        mon.ok('dense.feasible', np.all(p >= 0), sig=sig)
    else:
        mon.close('normalise', mod.normalise(v), v.astype(float) / np.where(
            scale == 0, 1, scale), rtol=0, atol=50 * e * n, sig=sig)
    q = f(p)
    mon.close('dense.value', q[:, good], p[:, good], rtol=0, atol=tol,
              sig=sig + ('idempotent',))
