"""Drives one ADMM solver through a random option set and event history, and
hands the recorded history to the trace checker (rt.admm_mon)."""
import contextlib
import copy
import io

import numpy as np

from sporco.admm import admm
from rt import admm_mon as am
from rt import gen


def admm_opts(rng, maxit=9, rho=True):
    o = {'MaxMainIter': int(rng.integers(60, 240)) if rng.random() < .012
         else int(rng.integers(1, maxit)),
         'RelaxParam': float(rng.choice([1.0, 1.8, 1.4, 0.8])),
         'RelStopTol': float(rng.choice([0.0, 1e-3, 5e-2])),
         'AbsStopTol': float(rng.choice([0.0, 0.0, 1e-3]))}
    if rho:
        o['rho'] = [None, 1.0, float(10**rng.uniform(-1.5, 1.5))][
            rng.integers(3)]
        if o['rho'] is None:
            del o['rho']
    ar = {'Enabled': bool(rng.random() < 0.5),
          'Period': int(rng.choice([1, 2, 3])),
          'StdResiduals': bool(rng.random() < 0.3),
          'AutoScaling': bool(rng.random() < 0.6),
          'Scaling': float(rng.choice([2.0, 10.0, 1000.0])),
          'RsdlRatio': float(rng.choice([1.2, 2.0, 10.0]))}
    if rng.random() < .5:
        ar['RsdlTarget'] = float(10**rng.uniform(-.7, .7))
    if rng.random() < .25:
        pass
    else:
        o['AutoRho'] = ar
    return o


def operators(mon, obj, m, tag, tol):
    """The constraint operators applied to arrays which are not the state of
    the solver"""
    rg = np.random.default_rng(obj.X.size)

    def draw(a):
        z = rg.standard_normal(a.shape)
        if a.dtype.kind == 'c':
            z = z + 1j * rg.standard_normal(a.shape)
        return z.astype(a.dtype)
    X, Y = draw(obj.X), draw(obj.Y)
    A, c = m.mulA(m.xflat(obj, X)), X.copy()
    mon.close('cnst_A', m.yflat(obj, obj.cnst_A(X)), A, rtol=tol, tag=tag)
    mon.ok('cnst_A', np.array_equal(X, c), tag=tag)
    A, c = m.mulAH(m.yflat(obj, Y)), Y.copy()
    mon.close('cnst_AT', m.xflat(obj, obj.cnst_AT(Y)), A, rtol=tol, tag=tag)
    mon.ok('cnst_AT', np.array_equal(Y, c), tag=tag)


def same_hist(mon, name, a, b, tag, tol=1e-9):
    ok, wst = gen.hist_same(a, b, 'XYU', tol=tol)
    return mon.ok(name, ok, na=len(a), nb=len(b), worst=wst, tag=tag)


def drive(mon, rng, tag, fac, m, o, yshape=None, ushape=None, want=None,
          arrays=(), setdict=None, kkt=None, extra=None, kkt_iter=1500,
          rho_kkt=1.0, kkt_tol=1e-5, dtype=np.float64, fast=True, y0=None,
          solves=None, lsc=True, lsctol=None):
    """fac(optdict) -> solver.   setdict() -> (callable(obj), new model).

    extra(mon, obj, o) : solver specific checks of the returned values"""
    tol = am.eps_tol(dtype)
    recs = []
    m0 = m
    cp = [np.array(a) for a in arrays]
    o = dict(o)
    if y0 is not None:
        o.update(y0)
    init = {k: o[k].copy() for k in ('Y0', 'U0') if o.get(k) is not None}
    o['Callback'] = cb = am.recorder(m, recs)
    obj = fac(o)
    prev = am.snapshot(obj, m)
    if 'Y0' in init:
        mon.close('init-honoured', m.yflat(obj, obj.Y),
                  m.yflat(obj, init['Y0'].astype(obj.dtype)), rtol=0, atol=0)
    if 'U0' in init:
        mon.close('init-honoured', m.yflat(obj, obj.U),
                  m.yflat(obj, init['U0'].astype(obj.dtype)), rtol=0, atol=0)
    mon.ok('rho-positive', prev['rho'] > 0 and np.isfinite(prev['rho']))
    if o.get('rho') is not None:
        mon.close('rho-honoured', prev['rho'], o['rho'], rtol=1e-6)
    if solves is None:
        solves = int(rng.integers(1, 3))
    switched = False
    for h in range(solves):
        if setdict is not None and h == 1:
            fn, m2 = setdict
            fn(obj)
            m = m2
            obj.opt['Callback'] = am.recorder(m, recs)
            switched = True
            prev = am.snapshot(obj, m)
        n0, i0, k0 = len(recs), len(obj.itstat), obj.k
        ret = obj.solve()
        new = recs[n0:]
        mon.ok('iter-count', len(new) >= 1 and [r['k'] for r in new] ==
               list(range(k0, k0 + len(new))) and
               len(obj.itstat) == i0 + len(new), ks=[r['k'] for r in new])
        good = am.check_history(mon, tag + ('/setdict' if switched else ''), obj, m,
                         prev, new, obj.opt, itstat=obj.itstat[i0:],
                         maxiter=o['MaxMainIter'])
        for v in ('X', 'Y', 'U'):
            a = getattr(obj, v, None)
            if isinstance(a, np.ndarray):
                mon.ok('dtype-kept', a.dtype == obj.dtype, tag=tag, var=v,
                       got=a.dtype, want=obj.dtype, switched=switched)
        if good is None:
            return obj
        hist = [prev] + new[:-1]
        prev = new[-1]
        if want is not None:
            w = want(obj)
            mon.close('getmin', ret, w, rtol=0, atol=0, tag=tag)
        if lsc and hasattr(obj.itstat[-1], 'XSlvRelRes'):
            for st, hp in zip(obj.itstat[i0:], hist):
                if obj.opt['LinSolveCheck']:
                    ill = 0.0
                    # cancellation in the right hand side
                    t1 = hp['rho'] * m.mulAH(m.sB * hp['Y'] - m.c + hp['U'])
                    t0 = m.q if m.q is not None else 0 * t1
                    cr = (am.nrm(t0) + am.nrm(t1)) / max(am.nrm(t0 - t1),
                                                        1e-300)
                    ill += (1e-13 if tol < 1e-6 else 1e-5) * cr
                    if m.H is not None:
                        ill += 100 * np.finfo(obj.dtype).eps * (
                            1 + m.normH(prev['X'].size, prev['X'].dtype) /
                            st.Rho)
                    # the quantity is relative to the right hand side
                    mon.le('xslv-relres', st.XSlvRelRes,
                           (lsctol or (1e-7 if tol < 1e-6 else 2e-3)) + ill,
                           tag=tag, rho=st.Rho)
                else:
                    mon.ok('xslv-none', st.XSlvRelRes is None)
    if isinstance(obj, admm.ADMM) and not isinstance(
            obj, admm.ADMMConsensus) and obj.X is not None:
        operators(mon, obj, m, tag, tol)
    if extra is not None:
        extra(mon, obj, m)
    for a, c in zip(arrays, cp):
        mon.ok('inputs-unchanged', np.array_equal(a, c), tag=tag)
    for k, v in init.items():
        mon.ok('init-unchanged', np.array_equal(v, o[k]), tag=tag, key=k)
    if fast and rng.random() < .3:
        N = int(rng.integers(2, 6))
        hs = []
        for kw in ({}, {'FastSolve': True}, {'Verbose': True}):
            rr = []
            oo = dict(o, RelStopTol=0.0, AbsStopTol=0.0, MaxMainIter=N,
                      Callback=am.recorder(m0, rr), **kw)
            with contextlib.redirect_stdout(io.StringIO()):
                fac(oo).solve()
            hs.append(rr)
        same_hist(mon, 'fastsolve-same', hs[0], hs[1], tag)
        same_hist(mon, 'verbose-same', hs[0], hs[2], tag)
    if kkt and tol < 1e-6:
        rr = []
        mk = m0
        last = [None]

        def cb2(ob):
            if ob.k % 25 == 0 or ob.k == kkt_iter - 1:
                last[0] = am.snapshot(ob, mk)
                e = am.kkt_residual(mk, last[0])
                rr.append(e)
                return max(e) < kkt_tol * 0.1
            return False
        oo = dict(o, MaxMainIter=kkt_iter, RelStopTol=0.0, AbsStopTol=0.0,
                  rho=rho_kkt, RelaxParam=1.0 if rng.random() < .5 else 1.7,
                  Callback=cb2)
        for k in ('Y0', 'U0'):
            oo.pop(k, None)
        oo['AutoRho'] = {'Enabled': False}
        ob = fac(oo)
        ob.solve()
        e = rr[-1]
        mon.le('optimality', max(e), kkt_tol, sig=tag, e=e, tag=tag,
               k=ob.k) if max(e) < kkt_tol or kkt == 'strict' else \
            mon.event('optimality-not-reached')
    return obj


def eval_vars(rng, o, p=.2):
    """Now and then select the variables at which the two terms of the
    objective are evaluated separately (AuxVarObj sets both)"""
    if rng.random() < p:
        o['fEvalX'] = bool(rng.random() < .5)
        o['gEvalY'] = bool(rng.random() < .5)
