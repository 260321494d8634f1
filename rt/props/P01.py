"""Proximal operators and projections are exact minimisers; norms are norms"""
import numpy as np
import sporco.prox as sp
from rt import gen

RULE = ('random arrays (1-4 dims, singleton axes, float32/64/complex64/128, '
        'C/Fortran/strided/reversed/read-only layouts, exact ties and zeros) x '
        'every axis form x parameters placed below/at/above the data scale; '
        'distinct = (operator, dtype, axis form, parameter regime, '
        'numexpr path)')
ASSUMPTIONS = ['alpha, beta, gamma >= 0', 'dl1l2 prox: real input, single '
               'axis or all axes, beta in [0, 1] (documented domain)']
EXPECT = {'l1.ref', 'l1.opt', 'l2.ref', 'l2.opt', 'l0.opt', 'sl1l2.opt',
          'projl1.feasible', 'projl1.vi', 'projl2.feasible', 'projl2.vi',
          'dl1l2.opt', 'nuclear.opt', 'norm.ref', 'input.unchanged',
          'nd2d.roundtrip', 'projl1.ref'}

OPS = ['l1', 'l2', 'l0', 'sl1l2', 'projl1', 'projl2', 'dl1l2', 'nuclear',
       'norm', 'nd2d']


def cases(tier):
    n = 5000 if tier == 'quick' else 60000
    return [{'kind': op, 'n': i} for op in OPS for i in range(n)]


def _tol(dt):
    return 4e-5 if np.dtype(dt).itemsize // (2 if np.dtype(dt).kind == 'c'
                                            else 1) == 4 else 1e-10


def _par(rng, scale, arrshape=None):
    r = rng.choice(['zero', 'tiny', 'mid', 'mid', 'exact', 'huge'])
    p = {'zero': 0.0, 'tiny': 1e-6 * scale,
         'mid': scale * rng.uniform(0.05, 1.2), 'exact': scale,
         'huge': 10 * scale + 1}[r]
    return float(p), str(r)


def soft(v, a):
    m = np.abs(v)
    out = np.zeros(v.shape, dtype=np.complex128)
    nz = m > 0
    out[nz] = (v[nz] / m[nz]) * np.maximum(m - a, 0)[nz]
    return out if np.iscomplexobj(v) else out.real


def shrink2(v, b):
    n = np.sqrt(np.sum(np.abs(v) ** 2))
    return v * 0 if n <= b or n == 0 else v * (1 - b / n)


def projl1_ref(v, g):
    a = np.abs(v).ravel()
    if a.sum() <= g:
        return v
    lo, hi = 0.0, a.max()
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if np.maximum(a - m, 0).sum() > g:
            lo = m
        else:
            hi = m
    return soft(v, 0.5 * (lo + hi))


def _perturb(rng, x, v, n=12):
    """Candidate competitors around x and v"""
    sc = np.max(np.abs(v)) + 1e-12
    cplx = np.iscomplexobj(v)
    out = [v, v * 0, 0.5 * (x + v), x * 0.99, x * 1.01, 0.5 * x]
    for _ in range(n):
        d = rng.standard_normal(v.shape)
        if cplx:
            d = d + 1j * rng.standard_normal(v.shape)
        if rng.random() < 0.5:
            d = d * (rng.random(v.shape) < 0.3)
        out.append(x + sc * 10.0 ** rng.uniform(-4, 0) * d)
    return out


def run(case, mon, rng):
    kind = case['kind']
    dts = [np.float64, np.float64, np.float32, np.complex128, np.complex64]
    if kind in ('dl1l2', 'l0', 'nd2d'):
        dts = [np.float64, np.float32]
    if kind == 'nuclear':
        dts = [np.float64, np.float32, np.complex128]
    dt = np.dtype(dts[int(rng.integers(len(dts)))])
    nd = 2 if kind == 'nuclear' else int(rng.integers(1, 5))
    shp = gen.shape(rng, nd, 1, 6)
    if kind not in ('nuclear', 'dl1l2', 'l0') and rng.random() < .004:
        shp = gen.stretch(rng, shp, 1.0, 3000, 60000, 60000)
    style = rng.choice(['gauss', 'sparse', 'ties', 'scale', 'int', 'zero'],
                       p=[.3, .2, .2, .15, .1, .05])
    v = gen.layout(rng, gen.rand(rng, shp, dt, style))
    v0 = v.copy()
    V = v.astype(np.complex128 if dt.kind == 'c' else np.float64)
    sc = float(np.max(np.abs(V))) if V.size else 0.0
    tol = _tol(dt)
    # both code paths of the element-wise soft threshold
    import sporco.prox._lp as lp
    path = 'default'
    saved = getattr(lp, 'have_numexpr', None)
    if saved is not None and rng.random() < 0.35:
        lp.have_numexpr = False
        path = 'nonumexpr'
    try:
        _go(kind, rng, v, V, dt, sc, tol, mon, path, shp)
    finally:
        if saved is not None:
            lp.have_numexpr = saved
    mon.ok('input.unchanged', np.array_equal(v, v0), op=kind, shape=shp)


def _sh(mon, name, x, v):
    return mon.ok('out.shape', np.shape(x) == v.shape, op=name,
                  got=np.shape(x), want=v.shape)


def _go(kind, rng, v, V, dt, sc, tol, mon, path, shp):
    if kind == 'l1':
        a, rg = _par(rng, sc)
        form = rng.choice(['py', 'np', 'array', 'bcast'])
        al = a
        if form == 'np':
            al = np.dtype(dt.char.lower() if dt.kind == 'c' else dt).type(a)
        elif form == 'array':
            al = a * rng.random(shp)
        elif form == 'bcast':
            al = a * rng.random((shp[-1],))
        x = sp.prox_l1(v, al)
        if not _sh(mon, kind, x, v):
            return
        sg = (dt, form, rg, path)
        mon.close('l1.ref', x, soft(V, np.asarray(al, np.float64)),
                  rtol=tol, atol=tol * (sc + 1e-30), sig=sg, alpha=al,
                  dtype=dt)
        # optimality, element by element
        J = lambda z: np.sum(al * np.abs(z)) + 0.5 * np.sum(np.abs(z - V)**2)
        jx = J(x)
        for z in _perturb(rng, np.asarray(x, V.dtype), V):
            mon.le('l1.opt', jx, J(z), slack=10 * tol * (jx + sc * sc),
                   alpha=al)
    elif kind == 'l2':
        ax = gen.axes(rng, v.ndim)
        b, rg = _par(rng, sc * 2)
        x = sp.prox_l2(v, b, axis=ax)
        if not _sh(mon, kind, x, v):
            return
        mon.ok('dtype.kept', x.dtype == dt, got=x.dtype, want=dt, op=kind)
        ref = V.copy()
        for sl in gen.groups(V, ax):
            ref[sl] = shrink2(V[sl], b)
        mon.close('l2.ref', x, ref, rtol=tol, atol=4 * tol * sc,
                  sig=(dt, type(ax).__name__, rg), axis=ax, alpha=b)
        J = lambda z: sum(b * np.linalg.norm(np.ravel(z[s])) for s in
                          gen.groups(V, ax)) + 0.5*np.sum(np.abs(z - V)**2)
        X = np.asarray(x, V.dtype)
        jx = J(X)
        for z in _perturb(rng, X, V, 6):
            mon.le('l2.opt', jx, J(z), slack=20 * tol * (jx + sc * sc),
                   axis=ax, alpha=b)
    elif kind == 'l0':
        a, rg = _par(rng, sc * sc)
        x = sp.prox_l0(v, a)
        if not _sh(mon, kind, x, v):
            return
        J = lambda z: a * (np.abs(z) > 0) + 0.5 * np.abs(z - V) ** 2
        X = np.asarray(x, V.dtype)
        jx = J(X)
        best = np.minimum(J(V), J(V * 0))
        mon.ok('l0.opt', np.all(jx <= best + 20 * tol * (sc*sc + a)),
               sig=(dt, rg), alpha=a)
        mon.ok('l0.values', np.all((X == 0) | (np.abs(X - V) <= tol * sc)))
    elif kind == 'sl1l2':
        ax = gen.axes(rng, v.ndim)
        a, ra = _par(rng, sc)
        b, rb = _par(rng, sc * 2)
        if rng.random() < 0.3:
            a_arg = a * rng.random(shp)
        else:
            a_arg = a
        x = sp.prox_sl1l2(v, a_arg, b, axis=ax)
        if not _sh(mon, kind, x, v):
            return
        s = soft(V, np.asarray(a_arg, np.float64))
        ref = s.copy()
        for sl in gen.groups(V, ax):
            ref[sl] = shrink2(s[sl], b)
        mon.close('sl1l2.ref', x, ref, rtol=tol, atol=4 * tol * sc,
                  sig=(dt, type(ax).__name__, ra, rb), axis=ax)
        J = lambda z: np.sum(a_arg * np.abs(z)) + sum(
            b * np.linalg.norm(np.ravel(z[q])) for q in gen.groups(V, ax)) \
            + 0.5 * np.sum(np.abs(z - V) ** 2)
        X = np.asarray(x, V.dtype)
        jx = J(X)
        for z in _perturb(rng, X, V, 6):
            mon.le('sl1l2.opt', jx, J(z), slack=20 * tol * (jx + sc * sc),
                   axis=ax, alpha=a, beta=b)
    elif kind in ('projl1', 'projl2'):
        ax = gen.axes(rng, v.ndim)
        gs = max([1e-300] + [np.sum(np.abs(V[s])) if kind == 'projl1' else
                             np.sqrt(np.sum(np.abs(V[s]) ** 2))
                             for s in gen.groups(V, ax)])
        g, rg = _par(rng, gs)
        if kind == 'projl1':
            meth = None
            if ax is None:
                meth = [None, 'scalarroot', 'sortcumsum'][
                    int(rng.integers(3))]
            else:
                meth = [None, 'sortcumsum'][int(rng.integers(2))]
            x = sp.proj_l1(v, g, axis=ax, method=meth)
            f = lambda z: np.sum(np.abs(z))
            refp = projl1_ref
        else:
            meth = '-'
            x = sp.proj_l2(v, g, axis=ax)
            f = lambda z: np.sqrt(np.sum(np.abs(z) ** 2))

            def refp(z, r):
                n = np.sqrt(np.sum(np.abs(z) ** 2))
                return z if n <= r else z * (r / n)
        if not _sh(mon, kind, x, v):
            return
        X = np.asarray(x, V.dtype)
        t = tol * 50
        n = 0
        for s in gen.groups(V, ax):
            xs, vs = X[s], V[s]
            n += 1
            mon.le(kind + '.feasible', f(xs), g, slack=t * (gs + 1e-30),
                   sig=(dt, type(ax).__name__, rg, meth), axis=ax,
                   method=meth)
            r = refp(vs, g)
            mon.close(kind + '.ref', xs, r, atol=t * (sc + 1e-30),
                      axis=ax, method=meth, gamma=g)
            if f(vs) <= g:
                mon.close(kind + '.identity', xs, vs,
                          atol=t * sc * 1e-2 + 1e-300)
            # variational inequality against feasible points
            for z in _perturb(rng, xs, vs, 3):
                fz = f(z)
                if fz > g:
                    z = z * (g / fz)
                ip = np.real(np.sum(np.conj(vs - xs) * (z - xs)))
                mon.le(kind + '.vi', ip, 0.0,
                       slack=t * vs.size * (sc * sc + 1e-30), axis=ax)
            if n > 40:
                break
    elif kind == 'dl1l2':
        ax = gen.axes(rng, v.ndim, rng.choice(['none', 'int', 'neg']))
        a, ra = _par(rng, sc)
        be = float(rng.choice([0.0, 0.3, 1.0, rng.random()]))
        x = sp.prox_dl1l2(v, a, be, axis=ax)
        if not _sh(mon, kind, x, v):
            return
        X = np.asarray(x, V.dtype)
        for s in gen.groups(V, ax):
            vs, xs = V[s].ravel(), X[s].ravel()
            J = lambda z: a * (np.sum(np.abs(z)) - be * np.linalg.norm(z)) \
                + 0.5 * np.sum((z - vs) ** 2)
            jx = J(xs)
            cand = _perturb(rng, xs, vs, 6)
            w = soft(vs, a)
            nw = np.linalg.norm(w)
            if nw > 0:
                cand.append(w * (1 + a * be / nw))
            for k in range(vs.size):
                c = vs * 0
                m = max(abs(vs[k]) + (be - 1) * a, 0)
                c[k] = m * (1 if vs[k] >= 0 else -1)
                cand.append(c)
            for z in cand:
                mon.le('dl1l2.opt', jx, J(z), slack=50 * tol *
                       (abs(jx) + sc * sc + a * sc),
                       sig=(dt, type(ax).__name__, ra, be in (0., 1.)),
                       alpha=a, beta=be, axis=ax)
    elif kind == 'nuclear':
        b, rg = _par(rng, sc * 2)
        x, ss = sp.prox_nuclear(v, b)
        if not _sh(mon, kind, x, v):
            return
        nn = lambda z: np.sum(np.linalg.svd(z, compute_uv=False))
        J = lambda z: b * nn(z) + 0.5 * np.sum(np.abs(z - V) ** 2)
        X = np.asarray(x, V.dtype)
        jx = J(X)
        U, S, Vh = np.linalg.svd(V, full_matrices=False)
        ref = (U * np.maximum(S - b, 0)) @ Vh
        mon.close('nuclear.ref', x, ref, atol=50 * tol * (sc + 1e-30),
                  sig=(dt, shp[0] > shp[1], rg), alpha=b)
        mon.close('nuclear.singvals', np.sort(ss)[::-1],
                  np.maximum(S - b, 0), atol=50 * tol * (sc + 1e-30))
        for z in _perturb(rng, X, V, 6):
            mon.le('nuclear.opt', jx, J(z), slack=50 * tol *
                   (jx + sc * sc), alpha=b)
        mon.close('norm.ref', sp.norm_nuclear(v), np.sum(S),
                  atol=50 * tol * (sc + 1e-30))
    elif kind == 'norm':
        ax = gen.axes(rng, v.ndim)

        def red(fn):
            out = np.array([fn(V[s]) for s in gen.groups(V, ax)])
            return out
        l1 = red(lambda z: np.sum(np.abs(z)))
        l2 = red(lambda z: np.sqrt(np.sum(np.abs(z) ** 2)))
        for nm, fn, want in (
                ('l0', lambda: sp.norm_l0(v, axis=ax),
                 red(lambda z: np.sum(np.abs(z) > 0))),
                ('l1', lambda: sp.norm_l1(v, axis=ax), l1),
                ('2l2', lambda: sp.norm_2l2(v, axis=ax), l2 ** 2),
                ('l2', lambda: sp.norm_l2(v, axis=ax), l2),
                ('dl1l2', lambda: sp.norm_dl1l2(v, 0.7, axis=ax),
                 l1 - 0.7 * l2)):
            got = np.ravel(np.asarray(fn()))
            mon.close('norm.ref', got, want, rtol=20 * tol,
                      atol=20 * tol * (np.max(l1) + 1e-30),
                      sig=(nm, dt, type(ax).__name__), norm=nm, axis=ax)
        e = float(np.median(np.abs(V)))
        mon.close('norm.ref', np.ravel(sp.norm_l0(v, axis=ax, eps=e)),
                  red(lambda z: np.sum(np.abs(z) > e))
                  if dt.itemsize >= 8 and dt.kind == 'f' else
                  np.ravel(sp.norm_l0(v, axis=ax, eps=e)))
        mon.close('norm.ref', sp.norm_l21(v, axis=ax), np.sum(l2),
                  rtol=20 * tol, atol=1e-300, sig=('l21', dt), axis=ax)
    elif kind == 'nd2d':
        ax = gen.axes(rng, v.ndim, rng.choice(['int', 'neg', 'tuple', 'all']))
        m, info = sp.ndto2d(v, ax)
        mon.ok('nd2d.shape', m.ndim == 2 and m.size == v.size, axis=ax)
        y = sp.ndfrom2d(m, info)
        mon.ok('nd2d.roundtrip', y.shape == v.shape and
               np.array_equal(y, v), sig=(v.ndim, ax), axis=ax)
        # every row is one group
        rows = sorted(tuple(np.sort(np.ravel(V[s]))) for s in
                      gen.groups(V, ax))
        got = sorted(tuple(np.sort(r)) for r in
                     np.asarray(m, V.dtype))
        mon.ok('nd2d.groups', rows == got, axis=ax)
