"""Online monitor for ADMM solvers.

The monitor only uses the public callback mechanism of the solvers to record
X, Y, U and rho after every iteration, and the recorded iteration statistics.
The recorded history is then checked against a dense reference model

    min f(x) + g(y)   s.t.   A x + sB y = c ,       sB in {-1, +1}

f is quadratic, f(x) = 1/2 x^H H x - Re(q^H x) + const (or has a prox).
All vectors of the model are flat (C order of the solver's X array, and of
the concatenated blocks of the Y array).
"""
import numpy as np


class Model:
    def __init__(self, A=None, c=0.0, sB=-1, H=None, q=None, fprox=None,
                 gprox=None, xflat=None, yflat=None, rsdl='std', stats=None,
                 xres=None, objnames=None, Nx=None, Nc=None, xtol=None,
                 gcond=None):
        self.A = A
        self.c = c
        self.sB = sB
        self.gcond = gcond        # conditioning of the proximal operator
        self.H = H
        self.q = q
        self.fprox = fprox
        self.gprox = gprox
        self.rsdl = rsdl
        self.stats = stats
        self.xres = xres          # relative residual reported by inexact x
        self.Nx = Nx              # overrides for number of primal/dual vars
        self.Nc = Nc
        self.xtol = xtol          # None: exact x step
        self._xf = xflat
        self._yf = yflat
        self._AHA = None

    def xflat(self, obj, x):
        x = np.asarray(x)
        return (self._xf(obj, x) if self._xf else x.ravel()).astype(
            np.complex128 if x.dtype.kind == 'c' else np.float64)

    def yflat(self, obj, y):
        y = np.asarray(y)
        return (self._yf(obj, y) if self._yf else y.ravel()).astype(
            np.complex128 if y.dtype.kind == 'c' else np.float64)

    def normH(self, n, dtype):
        if not hasattr(self, '_nH'):
            x = np.random.default_rng(0).standard_normal(n).astype(dtype)
            v = 0.0
            for _ in range(6):
                y = self.H(x)
                v = float(np.linalg.norm(y))
                if v == 0:
                    break
                x = y / v
            self._nH = v
        return self._nH

    def mulA(self, x):
        if self.A is None:
            return x
        return self.A[0](x) if isinstance(self.A, tuple) else self.A.dot(x)

    def mulAH(self, y):
        if self.A is None:
            return y
        if isinstance(self.A, tuple):
            return self.A[1](y)
        return self.A.conj().T.dot(y)

    def mulAHA(self, x):
        return self.mulAH(self.mulA(x))


def two_block(obj, y):
    return np.concatenate((np.asarray(obj.block_sep0(y)).ravel(),
                           np.asarray(obj.block_sep1(y)).ravel()))


def nrm(x):
    return float(np.linalg.norm(np.asarray(x).ravel()))


def snapshot(obj, m):
    return {'k': obj.k, 'Y': m.yflat(obj, obj.Y), 'U': m.yflat(obj, obj.U),
            'X': None if obj.X is None else m.xflat(obj, obj.X),
            'rho': float(np.real(obj.rho))}


def recorder(m, recs, stop_at=None):
    def cb(obj):
        recs.append(snapshot(obj, m))
        if stop_at is not None and obj.k >= stop_at:
            return True
        return None if len(recs) % 2 else False
    return cb


def eps_tol(dtype):
    return 3e-9 if np.dtype(dtype).name in ('float64', 'complex128') else 2e-4


def check_history(mon, tag, obj, m, prev, recs, opt, stop_at=None,
                  itstat=None, maxiter=None, kkt=True):
    """Check one solve() worth of iterations.

    prev : snapshot before the first iteration
    recs : snapshots after each iteration
    itstat : list of iteration statistics of these iterations (or None when
             FastSolve is enabled)
    """
    tol = eps_tol(obj.dtype)
    rlx = float(opt['RelaxParam'])
    sB = m.sB
    c = m.c
    ar = opt['AutoRho']
    tau, mu = float(ar['Scaling']), float(ar['RsdlRatio'])
    xi = float(np.real(obj.rho_xi))
    n = len(recs)
    stopped = False
    for j, rec in enumerate(recs):
        rho = prev['rho']
        Yp, Up = prev['Y'], prev['U']
        X, Y = rec['X'], rec['Y']
        rsf = rec['rho'] / rho
        U = rec['U'] * rsf
        dbl = tol < 1e-6
        psc = max(np.max(np.abs(Yp)), np.max(np.abs(Up)))
        if psc > (1e10 if dbl else 1e7) or not (
                (1e-8 if dbl else 1e-4) < rho < (1e10 if dbl else 1e6)):
            # numerically meaningless from here on
            mon.event('history-extreme')
            return None
        mon.finite('iterates-finite', X, Y, U, tag=tag, k=rec['k'])
        if not (np.all(np.isfinite(X)) and np.all(np.isfinite(Y)) and
                np.all(np.isfinite(U))):
            return
        AX = m.mulA(X)
        scl = max(np.max(np.abs(AX), initial=0), np.max(np.abs(Yp)),
                  np.max(np.abs(Up)), np.max(np.abs(c), initial=0), 1e-12,
                  1e-5 * np.max(np.abs(X), initial=0))
        # x step
        if m.fprox is not None:
            ref = m.fprox(-(sB * Yp - c + Up), 1.0 / rho)
            mon.close('xstep', X, ref, rtol=0, atol=tol * 30 * scl,
                      sig='%s' % (tag,), k=rec['k'])
        elif m.xtol is None:
            rhs = -rho * m.mulAH(sB * Yp - c + Up)
            lhs = rho * m.mulAH(AX)
            if m.H is not None:
                rhs = rhs + m.q
                lhs = lhs + m.H(X)
            den = max(np.max(np.abs(lhs)), np.max(np.abs(rhs)),
                      rho * max(scl, np.max(np.abs(X))),
                      np.max(np.abs(m.q)) if m.q is not None else 0)
            # allow for the conditioning of the system
            ill = 0.0
            if m.H is not None:
                ill = 100 * np.finfo(obj.dtype).eps * (
                    1.0 + m.normH(X.size, X.dtype) / rho)
            if ill < 0.3:
                mon.close('xstep', lhs, rhs, rtol=0,
                          atol=(30 * tol + ill) * den,
                          sig='%s' % (tag,), k=rec['k'], rho=rho)
            else:
                mon.event('xstep-illconditioned')
        else:
            m.xtol(mon, tag, obj, rec, prev, AX, itstat[j] if itstat else None)
        # relaxation, y step
        AXr = rlx * AX - (1.0 - rlx) * (sB * Yp - c)
        v = -sB * (AXr - c + Up)
        if m.gprox is not None:
            ref = m.gprox(v, 1.0 / rho)
            gc = 1.0 if m.gcond is None else min(max(1.0, m.gcond(v)), 1e20)
            mon.close('ystep', Y, ref, rtol=0,
                      atol=20 * tol * gc * max(np.max(np.abs(v)), scl,
                                               np.max(np.abs(ref))),
                      sig='%s' % (tag,), k=rec['k'], rho=rho)
        # dual update
        mon.close('ustep', U, Up + AXr + sB * Y - c, rtol=0,
                  atol=20 * tol * (scl + np.max(np.abs(v)) +
                                   np.max(np.abs(Y))), k=rec['k'],
                  tag=tag)
        # residuals
        R = AX + sB * Y - c
        if m.rsdl == 'std':
            sv = rho * nrm(m.mulAH(Y - Yp))
            sn = rho * nrm(m.mulAH(U))
        elif m.rsdl == 'AtU':
            sv = rho * nrm(m.mulAH(U))
            sn = rho * nrm(U)
        cn = nrm(c) if np.ndim(c) else 0.0
        rn = max(nrm(AX), nrm(Y), cn)
        rv = nrm(R)
        Nx = m.Nx if m.Nx is not None else X.size
        Nc = m.Nc if m.Nc is not None else Y.size
        ast, rst = float(opt['AbsStopTol']), float(opt['RelStopTol'])
        if ar['StdResiduals']:
            r, s = rv, sv
            ep = np.sqrt(Nc) * ast + rn * rst
            ed = np.sqrt(Nx) * ast + sn * rst
            rsc, ssc = max(rn, 1e-300), max(rho * scl * np.sqrt(Nx), sn)
        else:
            rnz = rn if rn != 0 else 1.0
            snz = sn if sn != 0 else 1.0
            r, s = rv / rnz, sv / snz
            ep = np.sqrt(Nc) * ast / rnz + rst
            ed = np.sqrt(Nx) * ast / snz + rst
            rsc, ssc = 1.0, max(1.0, rho * scl * np.sqrt(Nx) / snz)
        done = None
        if itstat is not None:
            st = itstat[j]
            mon.ok('itstat-iter', st.Iter == rec['k'], got=st.Iter,
                   want=rec['k'])
            mon.close('itstat-rho', float(np.real(st.Rho)), rho, rtol=1e-6)
            rtol = 1e3 * tol
            if sn > 1e-7 * rho * scl and rn > max(
                    1e-15, 1e-5 * np.max(np.abs(X))) and sn > 1e-15:
                mon.close('rsdl-primal', st.PrimalRsdl, r, rtol=rtol,
                          atol=rtol * rsc, sig=tag, tag=tag, k=rec['k'])
                mon.close('rsdl-dual', st.DualRsdl, s, rtol=rtol,
                          atol=rtol * ssc, tag=tag, k=rec['k'])
                mon.close('eps-primal', st.EpsPrimal, ep, rtol=rtol, tag=tag)
                mon.close('eps-dual', st.EpsDual, ed,
                          rtol=rtol * max(1.0, rho * scl * np.sqrt(Nx) /
                                          max(sn, 1e-300) * 1e-3), tag=tag)
            if m.stats is not None:
                ref = m.stats(obj, X, Y, opt)
                for f, (val, mag) in ref.items():
                    mon.close('itstat-objfn', getattr(st, f), val, rtol=0,
                              atol=100 * tol * max(abs(mag), abs(val)) +
                              1e-13, sig='%s/%s' % (tag, f), field=f,
                              tag=tag, k=rec['k'])
            done = st.PrimalRsdl < st.EpsPrimal and st.DualRsdl < st.EpsDual
            r, s = float(st.PrimalRsdl), float(st.DualRsdl)
        # penalty parameter update
        k = rec['k']
        want = 1.0
        if ar['Enabled'] and k != 0 and (k + 1) % int(ar['Period']) == 0:
            if ar['AutoScaling']:
                if s == 0.0 or r == 0.0:
                    ml = tau
                else:
                    ml = np.sqrt(r / (s * xi) if r > s * xi else s * xi / r)
                    ml = min(ml, tau)
            else:
                ml = tau
            up = r > xi * mu * s
            dn = s > mu / xi * r
            # ignore decisions within rounding of the threshold
            near = (abs(r - xi * mu * s) < 1e-3 * tol * (r + s) or
                    abs(s - mu / xi * r) < 1e-3 * tol * (r + s))
            if up:
                want = ml
            elif dn:
                want = 1.0 / ml
            if not near and (itstat is not None or sn > 1e-6 * rho * scl):
                mon.close('rho-update', rsf, want,
                          rtol=1e-5 if itstat is not None else 1e-2,
                          sig='%s' % ('up' if want > 1 else 'down' if
                                      want < 1 else 'same'), k=k, r=r, s=s,
                          xi=xi, mu=mu, tau=tau)
            else:
                mon.event('rho-update-borderline')
        else:
            mon.ok('rho-unchanged', rsf == 1.0, rsf=rsf, k=k)
        last = j == n - 1
        if done is not None:
            if not last:
                mon.ok('no-late-stop', not done, k=k, tag=tag)
            elif (maxiter is None or n < maxiter) and not (
                    stop_at is not None and k >= stop_at):
                mon.ok('no-early-stop', done, k=k, tag=tag)
                stopped = True
        prev = rec
    if maxiter is not None:
        mon.le('iteration-limit', n, maxiter)
    if stop_at is not None and recs:
        mon.ok('callback-stop', all(r['k'] < stop_at for r in recs[:-1]) or
               len(recs) == 1, ks=[r['k'] for r in recs])
    return prev


def kkt_residual(m, rec):
    """Relative violation of the optimality conditions at a recorded
    iterate (independent of which iteration protocol produced it)"""
    X, Y, U, rho = rec['X'], rec['Y'], rec['U'], rec['rho']
    AX = m.mulA(X)
    sc = max(np.max(np.abs(AX), initial=0), np.max(np.abs(Y)),
             np.max(np.abs(m.c), initial=0), 1e-9)
    e1 = np.max(np.abs(AX + m.sB * Y - m.c)) / sc
    AHU = rho * m.mulAH(U)
    if m.fprox is not None:
        e2 = np.max(np.abs(X - m.fprox(X - U, 1.0 / rho))) / sc
    elif m.H is not None:
        g = m.H(X) - m.q + AHU
        e2 = np.max(np.abs(g)) / max(
            np.max(np.abs(m.q)), np.max(np.abs(m.H(X)), initial=0),
            rho * np.max(np.abs(U), initial=0), 1e-9)
    else:
        e2 = np.max(np.abs(AHU)) / max(rho * np.max(np.abs(U)), 1e-9)
    v = Y - m.sB * U
    e3 = np.max(np.abs(Y - m.gprox(v, 1.0 / rho))) / sc
    return e1, e2, e3
