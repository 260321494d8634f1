"""Online monitor for proximal gradient solvers (sporco.pgm).

Only the public callback mechanism and the iteration statistics are used.
Every recorded iteration is replayed on a dense / numpy-FFT model

    min f(x) + g(x),   f(x) = 1/2 sum_i w_i |A x - s|_i^2

with arrays in the solver's own shape."""
import contextlib
import io

import numpy as np

from sporco.pgm import momentum as spm
from sporco.pgm import backtrack as spb
from sporco.pgm import stepsize as sps
from sporco.pgm.ppp import GenericPPP as PPP
from rt import gen


class Model:
    """fwd/adj: linear operator, s: data, w2: weights of squared residual,
    prox(v, L), stats(x) -> {field: (value, magnitude)}, dft: axes of the
    half-spectrum inner product used by the solver (None: plain),
    objval(x): value minimised by the monotone variant"""

    def __init__(self, fwd, adj, s, w2, prox, stats, objval, dft=None,
                 rsdl2=False, fdft=None, cond=None):
        self.fwd, self.adj, self.s, self.w2 = fwd, adj, s, w2
        self.prox, self.stats, self.objval = prox, stats, objval
        self.dft, self.rsdl2 = dft, rsdl2
        self.cond = cond or (lambda v, L: 1.0)
        self.fdft = dft if fdft is None else (fdft or None)

    def f(self, x):
        return 0.5 * np.sum(self.w2 * np.abs(self.fwd(x) - self.s)**2)

    def grad(self, x):
        return self.adj(self.w2 * (self.fwd(x) - self.s))

    def hess(self, x):
        return self.adj(self.w2 * self.fwd(x))

    @staticmethod
    def tr(x, ax):
        return x if ax is None else np.fft.rfftn(x, axes=ax)

    def inner(self, a, b, ax):
        return float(np.sum(np.real(np.conj(self.tr(a, ax)) *
                                    self.tr(b, ax))))

    def ft(self, x, ax):
        r = self.fwd(x) - self.s
        if ax is None:
            return 0.5 * np.sum(self.w2 * np.abs(r)**2)
        return 0.5 * np.sum(np.abs(np.fft.rfftn(r, axes=ax))**2)


def snap(obj, m):
    Y = obj.var_y()
    if m.dft is not None:
        Y = np.fft.irfftn(np.asarray(Y), [obj.X.shape[a] for a in m.dft],
                          axes=m.dft)
    L = float(np.real(obj.L))
    return {'k': obj.k, 'X': np.array(obj.X, dtype=float),
            'Y': np.array(Y, dtype=float), 'L': L,
            'F': obj.F, 'Q': obj.Q, 'it': obj.iterBTrack}


def recorder(m, recs, stop_at=None):
    def cb(obj):
        recs.append(snap(obj, m))
        if stop_at is not None and obj.k >= stop_at:
            return 1
        return None if len(recs) % 2 else False
    return cb


def tol_of(dtype):
    return 3e-9 if np.dtype(dtype).itemsize == 8 else 3e-4


class State:
    """What the replay carries from one iteration to the next"""

    def __init__(self, first):
        self.rec = first
        self.t = 1.0
        self.T = 0.0
        self.Z = first['X'].copy()
        self.bb = None                # (x, grad) of previous x step
        self.objs = []
        self.zs = 0.0


def momentum_next(mo, t, k):
    if isinstance(mo, spm.MomentumNesterov):
        return 0.5 * (1 + np.sqrt(1 + 4 * t**2))
    if isinstance(mo, spm.MomentumGenLinear):
        return (k + mo.a) / mo.b
    return (k + mo.b) / mo.b


def check(mon, tag, obj, m, st, recs, itstat, o, maxiter=None, stop_at=None,
          robust_first=False):
    """Replay of one solve() call; o: option dict.  Returns False when the
    history became numerically extreme."""
    tol = tol_of(obj.dtype)
    bt = o.get('Backtrack')
    pol = o.get('StepSizePolicy') if bt is None else None
    mono = bool(o.get('Monotone'))
    mo = obj.opt['Momentum']
    n = len(recs)
    for j, rec in enumerate(recs):
        p = st.rec
        k, L = rec['k'], rec['L']
        X, Y = rec['X'], rec['Y']
        big = max(np.max(np.abs(p['X'])), np.max(np.abs(p['Y'])))
        if not (np.isfinite(L) and 1e-6 < L < 1e12) or big > 1e8 or \
                not np.isfinite(big):
            mon.event('history-extreme')
            return False
        mon.finite('iterates-finite', X, Y, tag=tag)
        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(Y))):
            return False
        g0 = m.grad(p['Y'])
        sc = max(big, np.max(np.abs(g0)) / L, np.max(np.abs(X)), 1e-12)
        # ---- step size --------------------------------------------------
        if bt is None:
            want = p['L']
            how = 'const'
            if pol is not None and k > 1:
                if isinstance(pol, sps.StepSizePolicyCauchy):
                    num, den = (m.inner(g0, m.hess(g0), m.dft),
                                m.inner(g0, g0, m.dft))
                    how = 'cauchy'
                else:
                    dx = p['X'] - st.bb[0]
                    dg = g0 - st.bb[1]
                    num, den = (m.inner(dg, dg, m.dft),
                                m.inner(dx, dg, m.dft))
                    how = 'bb'
                gs = (m.inner(g0, g0, m.dft) + m.inner(
                    m.adj(m.w2 * m.s), m.adj(m.w2 * m.s), m.dft))
                if how == 'bb':
                    ok = (abs(den) > 1e-5 * np.sqrt(m.inner(
                        dx, dx, m.dft) * num) and num > 1e-7 * gs)
                else:
                    ok = den > 1e-7 * gs
                if not ok:
                    mon.event('stepsize-degenerate')
                    return False
                want = num / den
                if how == 'bb' and want < 0:
                    want = p['L']
                    how = 'bb-neg'
                mon.close('stepsize', L, want, rtol=1e-4 if tol < 1e-6 else
                          .1, sig='%s/%s' % (how, tag), how=how, tag=tag)
            else:
                mon.close('stepsize', L, want, rtol=1e-6, sig='const')
            st.bb = (p['X'], g0)
        elif isinstance(bt, spb.BacktrackStandard):
            it = rec['it']
            mon.ok('bt-iter', 1 <= it <= bt.maxiter, it=it)
            # the last trial is not followed by an increase if it succeeds
            ex = it - 1 if rec['F'] <= rec['Q'] else it
            mon.close('bt-L', L, p['L'] * bt.gamma_u**ex, rtol=1e-5,
                      it=it, tag=tag)
        else:
            it = rec['it']
            mon.ok('bt-iter', 1 <= it <= bt.maxiter, it=it)
            ex = it - 1 if rec['F'] <= rec['Q'] else it
            mon.close('bt-L', L, p['L'] * bt.gamma_d * bt.gamma_u**ex,
                      rtol=1e-5, it=it, tag=tag)
        Lx = L                        # value used in the step
        if bt is not None and not rec['F'] <= rec['Q']:
            Lx = L / bt.gamma_u
        # ---- x step -----------------------------------------------------
        if isinstance(bt, spb.BacktrackRobust):
            t = (1 + np.sqrt(1 + 4 * Lx * st.T)) / (2 * Lx)
            T = st.T + t
            y = (st.T * p['X'] + t * st.Z) / T
            mon.close('ystep', Y, y, rtol=0, atol=30 * tol * max(
                sc, np.max(np.abs(st.Z)), st.zs), sig=tag, tag=tag, k=k)
            base = Y
            if bt is not None and not rec['F'] <= rec['Q']:
                # t was computed with the value before the last increase
                pass
        else:
            base = p['Y']
        gb = m.grad(base)
        v = base - gb / Lx
        ref = m.prox(v, Lx)
        xt = 30 * tol * max(np.max(np.abs(base)), np.max(np.abs(gb)) / Lx,
                            np.max(np.abs(v)), 1e-12)
        cf = min(max(1.0, m.cond(v, Lx)), 1e20)
        xt *= cf
        cand = ref
        rejected = None
        if mono and k > 0 and bt is None:
            fo, fp = m.objval(ref), m.objval(p['X'])
            near = abs(fo - fp) <= 1e4 * tol * cf * max(
                abs(fo), abs(fp), m.f(0 * X), 1e-12)
            dn = np.max(np.abs(X - ref))
            dp = np.max(np.abs(X - p['X']))
            if near:
                mon.ok('monotone-choice', min(dn, dp) <= xt, tag=tag, k=k)
                rejected = dp < dn
                mon.event('monotone-tie')
            else:
                rejected = fo > fp
                mon.close('monotone-choice', X, p['X'] if rejected else ref,
                          rtol=0, atol=xt, sig='%s/%s' % (
                              'rej' if rejected else 'acc', tag), tag=tag,
                          k=k, fo=fo, fp=fp)
            mon.le('monotone', m.objval(X), fp + 1e4 * tol * max(
                abs(fp), m.f(0 * X), 1e-9), tag=tag, k=k)
        else:
            mon.close('xstep', X, ref, rtol=0, atol=xt, sig=tag, tag=tag,
                      k=k, L=L)
        # ---- y step -----------------------------------------------------
        if isinstance(bt, spb.BacktrackRobust):
            st.T = T
            st.Z = st.Z + t * L * (X - Y)
            st.zs = max(st.zs, t * L * max(np.max(np.abs(X)),
                                           np.max(np.abs(Y))),
                        np.max(np.abs(st.Z)))
        else:
            tp = st.t
            tn = momentum_next(mo, tp, k)
            if rejected is not None:
                yr = X + (tp / tn) * (cand - X) + ((tp - 1) / tn) * (
                    X - p['X'])
            else:
                yr = X + ((tp - 1) / tn) * (X - p['X'])
            mon.close('ystep', Y, yr, rtol=0, atol=60 * tol * max(sc, abs(
                (tp - 1) / tn) * sc) + (2 * xt * (1 + abs(tp / tn))
                                        if rejected is not None else 0.0),
                      sig='%s/%s' % (
                    type(mo).__name__, tag), tag=tag, k=k)
            st.t = tn
        # ---- backtracking condition -------------------------------------
        if bt is not None:
            vals = []
            for ax in {m.fdft, None}:
                D = X - base
                f1 = m.ft(X, ax)
                q1 = (m.ft(base, ax) + m.inner(D, gb, ax) +
                      Lx / 2 * m.inner(D, D, ax))
                vals.append((f1, q1, ax))
            sel = [w for w in vals if abs(w[0] - rec['F']) <= 1e5 * tol * (
                abs(w[0]) + m.ft(0 * X, w[2])) + 1e-25]
            mon.ok('bt-F', bool(sel), F=rec['F'], want=[w[0] for w in vals],
                   tag=tag)
            if sel:
                f1, q1, ax = sel[0]
                mag = (abs(f1) + abs(m.ft(base, ax)) + m.ft(0 * X, ax) +
                       abs(q1))
                mon.close('bt-Q', rec['Q'], q1, rtol=0, atol=1e4 * tol * mag + 1e-25,
                          tag=tag)
                if rec['it'] < bt.maxiter:
                    mon.ok('bt-accept', rec['F'] <= rec['Q'], tag=tag)
                # with the previous trial the condition must have failed
                if rec['it'] > 1 and isinstance(bt, spb.BacktrackStandard) \
                        and Lx == L:
                    Lp = L / bt.gamma_u
                    Xp = m.prox(base - gb / Lp, Lp)
                    D = Xp - base
                    f2 = m.ft(Xp, ax)
                    q2 = (m.ft(base, ax) + m.inner(D, gb, ax) +
                          Lp / 2 * m.inner(D, D, ax))
                    cp = min(max(1.0, m.cond(base - gb / Lp, Lp)), 1e9)
                    mon.le('bt-needed', q2, f2 + 1e4 * tol * cp * (mag + f2),
                           tag=tag)
        # ---- statistics -------------------------------------------------
        if itstat is not None:
            s = itstat[j]
            mon.ok('itstat-iter', s.Iter == k)
            mon.close('itstat-L', float(np.real(s.L)), L, rtol=1e-6)
            for fld, (val, mag) in m.stats(X).items():
                mon.close('itstat-objfn', getattr(s, fld), val, rtol=0,
                          atol=1e3 * tol * max(abs(val), abs(mag)) + 1e-13,
                          sig='%s/%s' % (tag, fld), field=fld, tag=tag, k=k)
            pY = p['Y']
            d = X - pY
            if mono and k > 0 and not m.rsdl2:
                d = X - Y
            r = float(np.sqrt(np.sum(d**2)))
            rs = r * r if m.rsdl2 else r
            mon.close('rsdl', s.Rsdl, rs, rtol=1e4 * tol,
                      atol=(1e2 * tol * sc)**2 * X.size if m.rsdl2 else
                      1e2 * tol * sc * np.sqrt(X.size), sig=tag, tag=tag,
                      k=k)
            au = o.get('AutoStop', {})
            thr = o.get('RelStopTol', 1e-3)
            if au.get('Enabled'):
                thr = au.get('Tau0', 1e-2) / (1.0 + k)
            done = s.Rsdl < thr
            if j < n - 1:
                mon.ok('no-late-stop', not done, tag=tag, k=k, rsdl=s.Rsdl)
            elif (maxiter is None or n < maxiter) and not (
                    stop_at is not None and k >= stop_at):
                mon.ok('no-early-stop', done, tag=tag, k=k, rsdl=s.Rsdl)
        st.rec = rec
    if maxiter is not None:
        mon.le('iteration-limit', n, maxiter)
    return True


def rand_opts(rng, maxit=12, Lok=10.0, mono=True):
    """Random solver options; Lok: a value not less than the Lipschitz
    constant"""
    o = {'MaxMainIter': int(rng.integers(60, 240)) if rng.random() < .012
         else int(rng.integers(1, maxit)),
         'RelStopTol': float(rng.choice([0.0, 1e-3, 1e-1])),
         'L': float(Lok * rng.choice([1.0, 1.3, 5.0]))}
    r = rng.random()
    if r < .25:
        o['Backtrack'] = spb.BacktrackStandard(**(
            {} if rng.random() < .5 else {
                'gamma_u': float(rng.choice([1.1, 1.5, 2.0])),
                'maxiter': int(rng.choice([2, 5, 50]))}))
        o['L'] = float(Lok * 10**rng.uniform(-2, .5))
    elif r < .45:
        o['Backtrack'] = spb.BacktrackRobust(**(
            {} if rng.random() < .5 else {
                'gamma_d': float(rng.choice([.5, .8, 1.0])),
                'gamma_u': float(rng.choice([1.3, 2.0, 3.0])),
                'maxiter': int(rng.choice([3, 50]))}))
        o['L'] = float(Lok * 10**rng.uniform(-2, 1))
    elif r < .6:
        o['StepSizePolicy'] = (sps.StepSizePolicyCauchy() if
                               rng.random() < .5 else sps.StepSizePolicyBB())
    elif r < .7:
        o['L'] = float(Lok * rng.uniform(.2, .9))
    if 'Backtrack' in o and rng.random() < .2:
        # has no effect when backtracking
        o['StepSizePolicy'] = (sps.StepSizePolicyCauchy() if
                               rng.random() < .5 else sps.StepSizePolicyBB())
    if mono and 'Backtrack' not in o and rng.random() < .35:
        o['Monotone'] = True
        if rng.random() < .4:
            o['L'] = float(Lok * rng.uniform(.3, .9))
    if not isinstance(o.get('Backtrack'), spb.BacktrackRobust):
        o['Momentum'] = [spm.MomentumNesterov(), spm.MomentumLinear(),
                         spm.MomentumLinear(b=3.0),
                         spm.MomentumGenLinear(),
                         spm.MomentumGenLinear(a=4.0, b=3.0)][
                             rng.integers(5)]
        if rng.random() < .3:
            del o['Momentum']
    if rng.random() < .2:
        o['AutoStop'] = {'Enabled': True,
                         'Tau0': float(rng.choice([1e-2, 1.0]))}
    return o


def functions(mon, rng, tag, obj, m):
    """Smooth term, gradient and Hessian at points other than iterates"""
    V = np.asarray(rng.standard_normal(obj.X.shape), obj.dtype)
    H = np.asarray(rng.standard_normal(obj.X.shape), obj.dtype)
    tol = 10 * tol_of(obj.dtype)
    ax = m.dft

    def to(a):
        return a if ax is None else np.fft.rfftn(a, axes=ax).astype(
            np.result_type(obj.dtype, np.complex64))

    def fro(a):
        return a if ax is None else np.fft.irfftn(
            a, [V.shape[i] for i in ax], axes=ax)

    W = V.astype(float)
    bk = m.adj(m.w2 * m.s)
    for nm, g, w, e in (
            ('grad_f', fro(obj.grad_f(to(V))), m.grad(W), np.max(np.abs(bk))),
            ('hessian_f', fro(obj.hessian_f(to(H))),
             m.hess(H.astype(float)), 0.)):
        if np.max(np.abs(w)) < 1e-6 * e:
            continue
        mon.close('functions', g, w, rtol=0, atol=tol * (
            np.max(np.abs(w)) + e), sig=nm + '/' + tag, f=nm)
    fv = m.ft(W, m.fdft)
    rs = np.sum(np.abs(m.s)**2) * (
        1 if m.fdft is None else np.prod([V.shape[i] for i in ax]))
    mon.close('functions', obj.obfn_f(to(V)), fv, rtol=0,
              atol=tol * (fv + rs), sig='obfn_f/' + tag, f='obfn_f')


def drive(mon, rng, tag, fac, m, o, arrays=(), setdict=None, extra=None,
          dtype=np.float64, x0=None, want=None, solves=None):
    """Run one or two solve() calls of a solver under the monitor"""
    recs = []
    o = dict(o)
    if x0 is not None:
        o['X0'] = x0
        x0c = x0.copy()
    cp = [np.array(a) for a in arrays]
    stop_at = int(rng.integers(0, 6)) if rng.random() < .15 else None
    obj = fac(dict(o, Callback=recorder(m, recs, stop_at)))
    first = snap(obj, m)
    if x0 is not None:
        mon.close('init-honoured', first['X'], x0c.astype(obj.dtype), rtol=0,
                  atol=0)
    mon.close('init-y', first['Y'], first['X'], rtol=0, atol=1e-9 * (
        1 + np.max(np.abs(first['X']))) if np.dtype(dtype).itemsize == 8
        else 1e-4 * (1 + np.max(np.abs(first['X']))))
    if o.get('L') is not None:
        mon.close('init-L', first['L'], o['L'], rtol=1e-6)
    st = State(first)
    m0 = m
    alive = True
    for h in range(solves or int(rng.integers(1, 3))):
        if h == 1 and setdict is not None and not o.get('Monotone'):
            fn, m = setdict
            fn(obj)
            obj.opt['Callback'] = recorder(m, recs, stop_at)
        n0, i0, k0 = len(recs), len(obj.itstat), obj.k
        with np.errstate(all='ignore'):
            ret = obj.solve()
        new = recs[n0:]
        mon.ok('iter-count', len(new) >= 1 and [r['k'] for r in new] ==
               list(range(k0, k0 + len(new))) and
               len(obj.itstat) == i0 + len(new))
        alive = alive and check(mon, tag, obj, m, st, new, obj.itstat[i0:],
                                o, maxiter=o['MaxMainIter'],
                                stop_at=stop_at)
        if not alive:
            return None
        mon.close('getmin', ret, obj.X if want is None else want(obj),
                  rtol=0, atol=0)
    if not isinstance(obj, PPP):
        functions(mon, rng, tag, obj, m)
    if extra is not None:
        extra(mon, obj, m)
    for a, c in zip(arrays, cp):
        mon.ok('inputs-unchanged', np.array_equal(a, c), tag=tag)
    if x0 is not None:
        mon.ok('init-unchanged', np.array_equal(x0, x0c), tag=tag)
    if rng.random() < .35:
        N = int(rng.integers(2, 6))
        hs = []
        for kw in ({}, {'FastSolve': True}, {'Verbose': True}, 'split'):
            rr = []
            oo = dict(o, RelStopTol=0.0, MaxMainIter=N,
                      Callback=recorder(m0, rr))
            oo.pop('AutoStop', None)
            if kw != 'split':
                oo.update(kw)
            else:
                oo['MaxMainIter'] = 1
            with contextlib.redirect_stdout(io.StringIO()), \
                    np.errstate(all='ignore'):
                b = fac(oo)
                for _ in range(N if kw == 'split' else 1):
                    b.solve()
            hs.append(rr)
        for nm, h in zip(('fastsolve-same', 'verbose-same', 'split-same'),
                         hs[1:]):
            ok, w = gen.hist_same(hs[0], h, 'XY', 'L')
            mon.ok(nm, ok, tag=tag, n=[len(h), len(hs[0])], worst=w)
    return obj
