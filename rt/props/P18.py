"""Parallel solvers (sporco.admm.parcbpdn, sporco.dictlrn.prlcnscdl) and the
parallel grid search of sporco.util."""
import contextlib
import io
import itertools
import multiprocessing
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time

import numpy as np

import sporco.fft as sfft
from sporco import util
from sporco.admm import parcbpdn
from sporco.dictlrn import prlcnscdl, cbpdndl, cbpdndlmd
from rt import csc, gen, mpi_drv
from rt.props.P13 import rand_mask
from rt.props.P14 import Prob

sfft.pyfftw_threads = 1

RULE = ('A case draws a problem, options and a worker count, and runs the '
        'parallel solver with a process pool whose tasks are submitted in '
        'random order and delayed by random times, recording the schedule '
        '(task, process, start, end). Results of every iteration are '
        'compared with the in-process run, with the serial class for the '
        'same problem or with an independent serial model. Non-trivial = '
        'distinct (class, geometry, worker count) and distinct completion '
        'orders.')
ASSUMPTIONS = ['workers are not killed',
               'solver objects may be interleaved but are not used from '
               'concurrent threads, nor inside each other\'s callbacks',
               'options of the sparse coding step other than penalty and '
               'relaxation parameters are not used with the parallel '
               'dictionary learning classes']
EXPECT = {'workers-ended', 'serial-same', 'pool-same', 'objective', 'stats-iter', 'feasible',
          'support', 'iter-count', 'callback-stop', 'solve-return',
          'inputs-unchanged', 'reconstruct', 'task', 'completion-order',
          'y-step', 'x-step', 'rsdl-primal', 'eps-primal', 'stop-rule',
          'fastsolve-same', 'split-same', 'gap', 'grid-search',
          'sequential', 'no-hang', 'two-instances', 'verbose-same'}

HANG = 300
CLS = ('ParConvBPDN', 'ConvBPDNDictLearn_Consensus',
       'ConvBPDNMaskDcplDictLearn_Consensus')


def cases(tier):
    k = 64 if tier == 'quick' else 240
    out = []
    for kd, m in (('cns', 2), ('mcns', 2), ('par', 3), ('parpool', 1),
                  ('grid', 1), ('mpi', .25), ('seq', .5)):
        out += [{'kind': kd, 'n': i} for i in range(int(k * m))]
    out += [{'kind': 'two', 'n': k * j + i, 'cls': c} for j, c in
            enumerate(CLS) for i in range(k)]
    return out


# --------------------------------------------------------------------------
# Schedule perturbation and recording
def _task(a):
    f, item, call, idx, d0, d1, fd = a
    t0 = time.monotonic()
    if d0:
        time.sleep(d0)
    r = f(item)
    t1 = time.monotonic()
    os.write(fd, b'%d %d %d %.6f %.6f\n' % (call, idx, os.getpid(), t0, t1))
    if d1:
        time.sleep(d1)
    return r


class Sched:
    """Replaces multiprocessing.Pool by pools which submit the tasks of each
    map() call one by one in random order with random delays"""

    def __init__(self, rng, delay):
        self.rng, self.delay, self.call = rng, delay, 0
        self.file = tempfile.TemporaryFile()
        self.fd = self.file.fileno()
        self.pools = 0
        self.log = []

    def __enter__(self):
        self.real = multiprocessing.Pool
        self.kids = {c.pid for c in multiprocessing.active_children()}
        multiprocessing.Pool = self.make
        return self

    def make(self, *args, **kw):
        self.pools += 1
        return _Pool(self, self.real(*args, **kw))

    def __exit__(self, *exc):
        multiprocessing.Pool = self.real
        # worker processes which outlive the call
        end = time.monotonic() + 10
        while exc[0] is None:
            self.left = {c.pid for c in multiprocessing.active_children()
                         } - self.kids
            if not self.left or time.monotonic() > end:
                break
            time.sleep(.02)
        self.file.seek(0)
        for ln in self.file.read().split(b'\n'):
            if ln:
                q = ln.split()
                self.log.append((int(q[0]), int(q[1]), int(q[2]),
                                 float(q[3]), float(q[4])))
        self.file.close()

    def report(self, mon, tag):
        """Distinct interleavings observed"""
        if self.pools:
            mon.ok('workers-ended', not self.left, tag=tag,
                   left=len(self.left))
        calls = {}
        for c, i, p, t0, t1 in self.log:
            calls.setdefault(c, []).append((t1, i, p))
            mon.event('task')
        for c, v in calls.items():
            v.sort()
            pids = {}
            mon.event('completion-order', (tag, tuple(
                (i, pids.setdefault(p, len(pids))) for _, i, p in v)))


class _Pool:
    def __init__(self, sched, pool):
        self._s, self._p = sched, pool

    def map(self, f, items, chunksize=None):
        s = self._s
        items = list(items)
        s.call += 1
        order = s.rng.permutation(len(items))
        d = s.delay
        args = [(f, items[i], s.call, int(i),
                 float(s.rng.random() * d) if s.rng.random() < .5 else 0,
                 float(s.rng.random() * d) if s.rng.random() < .5 else 0,
                 s.fd) for i in order]
        res = self._p.map(_task, args, 1)
        out = [None] * len(items)
        for i, r in zip(order, res):
            out[i] = r
        return out

    def __getattr__(self, name):
        return getattr(self._p, name)

    def __enter__(self):
        self._p.__enter__()
        return self

    def __exit__(self, *exc):
        return self._p.__exit__(*exc)


class Hang(Exception):
    pass


def _alarm(sig, frame):
    raise Hang()


@contextlib.contextmanager
def guard(mon, tag):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(HANG)
    try:
        yield
        mon.ok('no-hang', True)
    except Hang:
        mon.fail('no-hang', tag=tag, limit=HANG)
        for c in multiprocessing.active_children():
            c.kill()
        raise
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def run(case, mon, rng):
    k = case['kind']
    try:
        with guard(mon, k):
            if k in ('cns', 'mcns'):
                run_cns(mon, rng, k)
            elif k in ('par', 'parpool'):
                run_par(mon, rng, k)
            elif k == 'grid':
                run_grid(mon, rng)
            elif k == 'mpi':
                run_mpi(mon, rng)
            elif k == 'seq':
                run_seq(mon, rng)
            else:
                run_two(mon, rng, case['cls'])
    except Hang:
        pass


# --------------------------------------------------------------------------
def geo(rng, dt, cplx=False, multi=None):
    while True:
        g = csc.Geo(rng, dt, cplx=cplx, dimK_arg=True, hi=7, K=int(
            rng.integers(15, 40)) if rng.random() < .02 else None)
        if g.Cd == g.C:
            return g


def run_cns(mon, rng, kind):
    mask = kind == 'mcns'
    dt = np.float64 if rng.random() < .85 else np.float32
    cplx = not mask and dt == np.float64 and rng.random() < .12
    if cplx:
        dt = np.complex128
    f64 = dt != np.float32
    g = geo(rng, dt, cplx)
    dn, axC, axM = g.dimN, g.dimN, g.dimN + 2
    sp = tuple(range(dn))
    wide = complex if cplx else float
    D0 = gen.layout(rng, (g.D * 2).astype(dt))
    S = gen.layout(rng, g.S)
    Sd = g.Si.astype(wide)
    lm = float(np.float32(rng.choice([.05, .2])))
    nox, nod = {'Enabled': False}, {'Enabled': False}
    bo = {'rho': float(rng.choice([1.0, 4.0])), 'AutoRho': nox}
    co = {'rho': float(rng.choice([1.0, 4.0])), 'AutoRho': nod}
    zm = not cplx and bool(rng.random() < .3)
    if zm:
        co['ZeroMean'] = True
    if rng.random() < .6:
        bo['RelaxParam'] = float(rng.choice([1.0, 1.4]))
    if rng.random() < .6:
        co['RelaxParam'] = float(rng.choice([1.0, 1.4]))
    if rng.random() < .15:
        del bo['rho']
    N = int(rng.integers(1, 6))
    solves = int(rng.integers(1, 3))
    acc = bool(rng.random() < .5)
    base = {'MaxMainIter': N, 'CBPDN': bo, 'CCMOD': co}
    supp = np.zeros(g.dsz + (1, 1, g.M))
    dszs = [g.dsz] * g.M
    if g.M > 1 and rng.random() < .25:
        m1 = int(rng.integers(1, g.M))
        small = tuple(int(rng.integers(1, n + 1)) for n in g.dsz)
        ch = (g.Cd,) if g.Cd > 1 else ()
        base['DictSize'] = (small + ch + (m1,), g.dsz + ch + (g.M - m1,))
        dszs = [small] * m1 + [g.dsz] * (g.M - m1)
    for i, s in enumerate(dszs):
        supp[tuple(slice(0, q) for q in s) + (0, 0, i)] = 1
    W, w2 = None, 1.0
    if mask:
        Wi = rand_mask(rng, g, dt)
        w2 = Wi.astype(float)**2
        W = Wi
        if rng.random() < .6:
            W = Wi.reshape(g.Nv + ((Wi.shape[dn],) if g.dC else ()) +
                           ((Wi.shape[dn + 1],) if g.dK else ()))
    tag = '%s/%s/%s' % (kind, g.desc(), np.dtype(dt).name)
    if mask:
        sc, pc = (cbpdndlmd.ConvBPDNMaskDictLearn,
                  prlcnscdl.ConvBPDNMaskDcplDictLearn_Consensus)
        pre = (D0, S, lm, W)
    else:
        sc, pc = (cbpdndl.ConvBPDNDictLearn,
                  prlcnscdl.ConvBPDNDictLearn_Consensus)
        pre = (D0, S, lm if rng.random() < .85 or cplx else None)
    arrays = [D0, S] + ([] if W is None else [W])
    cp = [np.array(a) for a in arrays]
    # ---- serial reference --------------------------------------------------
    ref = []
    ob = sc(*pre, sc.Options(dict(base, MaxMainIter=N * solves, Callback=(
        lambda o: ref.append(dict(D=np.array(o.getdict()), X=np.array(
            o.getcoef()), k=o.j)) and None)), xmethod='admm', dmethod='cns'),
        xmethod='admm', dmethod='cns', **g.kw)
    ob.solve()
    # ---- parallel runs -------------------------------------------------------
    runs = [0, int(rng.integers(1, 5))]
    if rng.random() < .1:
        runs[1] = None
    stop = int(rng.integers(0, N)) if rng.random() < .15 else None
    auto = rng.random() < .3          # documented to be ignored
    hist = []
    for n in runs:
        rec, seen = [], []

        def cb(o):
            rec.append(dict(D=np.array(o.getdict()), X=np.array(
                o.getcoef()), k=o.j))
            return stop is not None and o.j >= stop
        o = dict(base, Callback=cb, AccurateDFid=acc,
                 Verbose=bool(rng.random() < .3))
        if auto:
            o = dict(o, CBPDN=dict(bo, AutoRho={'Enabled': True}),
                     CCMOD=dict(co, AutoRho={'Enabled': True}))
        with Sched(rng, float(rng.choice([0, .003]))) as sch:
            b = pc(*pre, pc.Options(o), nproc=n, **g.kw)
            buf = io.StringIO()
            for h in range(solves):
                n0 = len(rec)
                with contextlib.redirect_stdout(buf):
                    ret = b.solve()
                want = N if stop is None else max(1, min(N, stop + 1 - n0))
                mon.ok('iter-count', len(rec) == n0 + want == len(b.itstat)
                       and [r['k'] for r in rec[n0:]] == list(
                           range(n0, n0 + want)), tag=tag, nproc=n,
                       got=len(rec) - n0, want=want)
                if stop is not None:
                    mon.event('callback-stop')
                mon.ok('solve-return', np.array_equal(ret, rec[-1]['D']),
                       tag=tag)
                mon.ok('verbose-same', bool(buf.getvalue()) ==
                       bool(o['Verbose']))
        sch.report(mon, 'cns%s' % n)
        mon.event('workers', (tag, n))
        hist.append((b, rec))
        rr = ref[:len(rec)]
        ok, w = gen.hist_same(rr, rec, 'DX', tol=1e-7)
        mon.ok('serial-same' if n == 0 else 'pool-same', ok, sig=(tag, n),
               worst=w, tag=tag, nproc=n, shapes=(
                   rr[0]['D'].shape, rec[0]['D'].shape, rr[0]['X'].shape,
                   rec[0]['X'].shape))
        # ---- statistics and constraints ------------------------------------
        lmv = float(b.xstep.lmbda)
        for j, (r, s) in enumerate(zip(rec, b.itstat)):
            D, X = r['D'].astype(wide), r['X'].astype(wide)
            D = D.reshape(g.Di.shape)
            F = np.fft.fftn(D, g.Nv, axes=g.axN)
            rc = np.fft.ifftn(np.sum(F * np.fft.fftn(X.reshape(
                g.xshape), axes=g.axN), axis=axM, keepdims=True),
                axes=g.axN)
            rc = rc if cplx else rc.real
            dfd = .5 * np.sum(w2 * np.abs(rc - Sd)**2)
            l1 = np.sum(np.abs(X))
            m = dfd + np.sum(np.abs(Sd)**2)
            t = 1e-8 if f64 else 3e-3
            mon.ok('stats-iter', s.Iter == j)
            mon.close('objective', float(s.DFid), dfd, rtol=0, atol=t * m,
                      tag=tag, f='DFid', j=j, acc=acc)
            mon.close('objective', float(s.RegL1), l1, rtol=t, atol=t,
                      tag=tag, f='RegL1')
            mon.close('objective', float(s.ObjFun), dfd + lmv * l1, rtol=0,
                      atol=t * (m + lmv * l1), tag=tag, f='ObjFun')
            n2 = np.sqrt(np.sum(np.abs(D)**2, axis=sp + (axC,)))
            mon.ok('feasible', np.all((np.abs(n2 - 1) < (
                1e-7 if f64 else 1e-3)) | (n2 == 0)), tag=tag, n=n2)
            mon.ok('support', not np.any(D[np.broadcast_to(
                supp == 0, D.shape)]), tag=tag)
            if zm and f64:
                mx = np.sum(D, axis=sp)
                mon.close('feasible', mx, 0 * mx, rtol=0, atol=1e-6,
                          tag=tag + '/zm')
        if not cplx:
            r = np.asarray(b.reconstruct())
            mon.close('reconstruct', r.reshape(rc.shape), rc, rtol=0,
                      atol=(1e-8 if f64 else 2e-3) * (1 + np.max(np.abs(
                          rc))), tag=tag)
    for a, c in zip(arrays, cp):
        mon.ok('inputs-unchanged', np.array_equal(a, c), tag=tag)


# --------------------------------------------------------------------------
class ParModel:
    """Serial model of the ADMM algorithm documented for ParConvBPDN"""

    def __init__(self, g, lm, w2, wl, rho, al, rlx, ngrp, nn, nb, D=None):
        self.__dict__.update(g=g, lm=lm, w2=w2, wl=wl * np.ones(g.xshape),
                             rho=rho, al=al, rlx=rlx, L=ngrp, nn=nn, nb=nb)
        self.op = csc.ConvOp(g)
        self.grp = [np.asarray(q) for q in np.array_split(
            np.arange(g.M), ngrp)]
        self.Y0 = np.zeros(g.Nv + (g.C, g.K, ngrp))
        self.U0 = np.zeros_like(self.Y0)
        self.Y1 = np.zeros(g.xshape)
        self.U1 = np.zeros(g.xshape)
        self.S = g.Si.astype(float)

    def conv(self, X, m):
        """sum over the filters in group m"""
        g = self.g
        f = self.op.Df[..., m] * np.fft.fftn(X[..., m], axes=g.axN)
        return np.fft.ifftn(np.sum(f, axis=-1), axes=g.axN).real

    def step(self):
        g, a = self.g, self.al
        X = np.zeros(g.xshape)
        DX = np.zeros_like(self.Y0)
        for l, m in enumerate(self.grp):
            F = self.op.Df[..., 0, :][..., m]           # Nv, Cd, Ml
            H = np.einsum('...cm,...cn->...mn', np.conj(F), F) + \
                a**2 * np.eye(len(m))
            v = np.fft.fftn(self.Y0[..., l] - self.U0[..., l], axes=g.axN)
            w = np.fft.fftn(self.Y1 - self.U1 / a, axes=g.axN)[..., m]
            if g.Cd > 1:
                q = np.einsum('...cm,...ck->...km', np.conj(F), v)
                q = q[(slice(None),) * g.dimN + (None,)]
            else:
                q = np.conj(F[..., 0, :])[(slice(None),) * g.dimN + (
                    None, None)] * v[..., None]
            b = q + a**2 * w
            Xf = np.linalg.solve(H[(slice(None),) * g.dimN + (None, None)],
                                 b[..., None])[..., 0]
            X[..., m] = np.fft.ifftn(Xf, axes=g.axN).real
            DX[..., l] = self.conv(X, m)
        Xr = self.rlx * X + (1 - self.rlx) * self.Y1
        DXr = self.rlx * DX + (1 - self.rlx) * self.Y0
        V = DXr + self.U0
        Y0o, Y1o = self.Y0, self.Y1
        sv = np.sum(V, axis=-1, keepdims=True)
        tot = (self.rho * sv + self.L * self.w2 * self.S) / (
            self.rho + self.L * self.w2)
        self.Y0 = V + self.w2 / self.rho * (self.S - tot)
        Z = Xr + self.U1 / a
        Y1 = np.sign(Z) * np.maximum(np.abs(Z) - self.lm * self.wl / (
            a**2 * self.rho), 0)
        if self.nn:
            Y1 = np.maximum(Y1, 0)
        if self.nb:
            Y1 = csc.bndry(Y1, g)
        self.Y1 = Y1
        self.U0 = self.U0 + DXr - self.Y0
        self.U1 = self.U1 + a * (Xr - Y1)
        nrm = lambda p, q: np.sqrt(np.sum(p**2) + a**2 * np.sum(q**2))
        self.X = X
        return dict(X=X, Y=Y1, r=nrm(DX - self.Y0, X - Y1),
                    ax=nrm(DX, X), by=nrm(self.Y0, Y1),
                    s=nrm(self.Y0 - Y0o, Y1 - Y1o),
                    u=np.sqrt(np.sum(self.U0**2) + np.sum(self.U1**2)))

    def obj(self, X):
        d = .5 * np.sum(self.w2 * (self.op.fwd(X) - self.S)**2)
        return d, np.sum(np.abs(self.wl * X))


def par_case(rng, dt):
    g = csc.Geo(rng, dt, dimK_arg=rng.random() < .5, hi=7)
    lm = float(np.float32(rng.choice([.05, .2, .6])))
    rho = float(np.float32(rng.choice([.3, 1.0, 5.0])))
    al = float(np.float32(rng.choice([.5, 1.0, 1.0, 2.0])))
    rlx = float(np.float32(rng.choice([1.0, 1.3, 1.8])))
    ngrp = int(rng.integers(1, g.M + 1))
    o = {'rho': rho, 'RelaxParam': rlx, 'RelStopTol': 0.0,
         'AbsStopTol': 0.0}
    if al != 1.0 or rng.random() < .3:
        o['alpha'] = al
    W, w2 = None, np.ones((1,) * (g.dimN + 3))
    if rng.random() < .6:
        Wi = rand_mask(rng, g, dt)
        w2 = Wi.astype(float)**2
        W = Wi if rng.random() < .4 else Wi.reshape(
            g.Nv + ((Wi.shape[g.dimN],) if g.dC else ()) +
            ((Wi.shape[g.dimN + 1],) if g.dK else ()))
    wl = 1.0
    if rng.random() < .4:
        sh = tuple(n if rng.random() < .6 else 1 for n in g.xshape)
        wl = rng.uniform(.2, 2, sh).astype(dt)
        o['L1Weight'] = wl
        wl = wl.astype(float)
    nn, nb = bool(rng.random() < .25), bool(rng.random() < .25)
    if nn:
        o['NonNegCoef'] = True
    if nb:
        o['NoBndryCross'] = True
    if rng.random() < .3:
        o['HighMemSolve'] = bool(rng.random() < .5)
    m = ParModel(g, lm, w2, wl, rho, al, rlx, ngrp, nn, nb)
    for nm in ('Y0', 'U0', 'Y1', 'U1'):
        if rng.random() < .1:
            v = rng.standard_normal(getattr(m, nm).shape).astype(dt)
            o[nm] = v
            setattr(m, nm, v.astype(float))
    return g, lm, W, o, m, ngrp


def run_par(mon, rng, kind):
    dt = np.float64 if rng.random() < .85 else np.float32
    f64 = dt == np.float64
    g, lm, W, o, m, ngrp = par_case(rng, dt)
    C = parcbpdn.ParConvBPDN
    D, S = gen.layout(rng, g.D), gen.layout(rng, g.S)
    arrays = [D, S] + ([] if W is None else [W]) + [
        o[k] for k in ('Y0', 'U0', 'Y1', 'U1') if k in o]
    cp = [np.array(a) for a in arrays]
    tag = '%s/%s/g%d/%s' % (kind, g.desc(), ngrp, np.dtype(dt).name)
    sc = 1 + np.max(np.abs(m.S))
    tol = 1e-8 if f64 else 5e-3
    N = int(rng.integers(2, 7))

    def make(nproc, **kw):
        return C(D, S, lm, W, C.Options(dict(o, **kw)), nproc=nproc,
                 ngrp=ngrp, **g.kw)
    shape = lambda a: np.asarray(a, float).reshape(g.xshape)
    # ---- one iteration per solve() call, against the model -----------------
    aux = rng.choice([None, False, True])
    kw = {} if aux is None else {'AuxVarObj': bool(aux)}
    aux = (not aux, bool(aux))
    if rng.random() < .3:
        aux = (bool(rng.random() < .5), bool(rng.random() < .5))
        kw.update(fEvalX=aux[0], gEvalY=aux[1])
    rel = float(rng.choice([0, 1e-3]))
    if kind == 'par':
        st = make(1, MaxMainIter=1, RelStopTol=rel, **kw)
        ms = []
        for k in range(N):
            ret = st.solve()
            e = m.step()
            ms.append(e)
            big = max(1.0, np.max(np.abs(e['X'])), np.max(np.abs(m.U1)))
            mon.close('y-step', shape(st.Y), e['Y'], rtol=0,
                      atol=tol * (sc + big), sig=tag, tag=tag, k=k)
            mon.close('x-step', shape(st.X), e['X'], rtol=0,
                      atol=tol * (sc + big), tag=tag, k=k)
            mon.close('solve-return', ret, st.Y, rtol=0, atol=0)
            check_stats(mon, st.itstat[k], e, m, aux, tol, rel, tag, k)
            mon.ok('iter-count', len(st.itstat) == k + 1 == st.k, tag=tag)
    else:
        ms = [m.step() for _ in range(N)]
    # ---- the same iterations in one call --------------------------------
    runs = [1] if kind == 'par' else [1, int(rng.integers(2, 5)), None]
    ys = []
    for n in runs:
        fast = bool(rng.random() < .2)
        with Sched(rng, float(rng.choice([0, .003]))) as sch:
            buf = io.StringIO()
            vb = bool(rng.random() < .2)
            with contextlib.redirect_stdout(buf):
                b = make(n, MaxMainIter=N, FastSolve=fast, Verbose=vb, **kw)
                b.solve()
        sch.report(mon, 'par%s' % n)
        mon.ok('verbose-same', bool(buf.getvalue()) == vb)
        e = ms[-1]
        big = max(1.0, np.max(np.abs(e['X'])), np.max(np.abs(m.U1)))
        nm = 'fastsolve-same' if fast else (
            'split-same' if n == 1 else 'pool-same')
        mon.close(nm, shape(b.Y), e['Y'], rtol=0, atol=tol * (sc + big),
                  sig=(tag, n), tag=tag, nproc=n)
        mon.close('x-step', shape(b.X), e['X'], rtol=0,
                  atol=tol * (sc + big), tag=tag + '/joined', nproc=n)
        mon.ok('iter-count', b.k == N and len(b.itstat) == (
            0 if fast else N), tag=tag, n=len(b.itstat))
        for k, s in enumerate(b.itstat):
            check_stats(mon, s, ms[k], m, aux, tol, 0.0, tag, k)
        cf = b.getcoef()
        mon.ok('solve-return', np.array_equal(cf, b.Y))
        r = np.asarray(b.reconstruct(), float)
        ref = m.op.fwd(e['Y'])
        mon.close('reconstruct', r.reshape(ref.shape), ref, rtol=0,
                  atol=tol * (sc + big) * (1 + np.max(np.abs(ref))), tag=tag)
    # ---- stopping rule and optimality ------------------------------------
    if kind == 'par' and f64 and rng.random() < .5:
        rt = float(rng.choice([1e-1, 1e-2, 1e-3]))
        b = make(1, MaxMainIter=60, RelStopTol=rt)
        b.solve()
        conv = [i.PrimalRsdl < i.EpsPrimal and i.DualRsdl < i.EpsDual
                for i in b.itstat]
        mon.ok('stop-rule', not any(conv[:-1]) and (
            conv[-1] or len(conv) == 60), tag=tag, n=len(conv))
    if kind == 'par' and f64 and rng.random() < .3 and not m.nb:
        b = make(1, MaxMainIter=1500, RelaxParam=1.3, rho=2.0 + 5 * lm,
                 RelStopTol=1e-6, AbsStopTol=0.0, alpha=1.0, FastSolve=False)
        b.solve()
        p = Prob()
        p.nn, p.lm, p.keep = m.nn, lm, 1.0
        p.fwd, p.adj, p.s = m.op.fwd, m.op.adj, m.S
        p.w2, p.wl = m.w2 * np.ones(g.sshape), m.wl
        y0 = np.array(b.Y)
        done = len(b.itstat) < 1500
        if not done:
            # at a fixed point every form of the residuals vanishes
            b.opt['MaxMainIter'] = 1
            b.solve()
            dy, i = np.max(np.abs(b.Y - y0)), b.itstat[-1]
            big = 1 + np.max(np.abs(y0))
            done = dy <= 1e-12 * big and i.PrimalRsdl <= 1e-10 * big
            mon.ok('stop-rule', not done or i.DualRsdl <= 1e-6 * big,
                   tag=tag, why='fixed point', r=i.PrimalRsdl, s=i.DualRsdl,
                   er=i.EpsPrimal, es=i.EpsDual, n=len(b.itstat))
        if done:
            gp, F = p.gap(shape(b.Y))
            mon.le('gap', gp, 1e-3 * (F + .5 * np.sum(p.w2 * p.s**2)),
                   tag=tag, F=F, n=len(b.itstat))
        else:
            mon.event('gap-unconverged')
    for a, c in zip(arrays, cp):
        mon.ok('inputs-unchanged', np.array_equal(a, c), tag=tag)


def check_stats(mon, s, e, m, aux, tol, rel, tag, k):
    sc = 1 + e['ax'] + e['by']
    mon.close('rsdl-primal', float(s.PrimalRsdl), e['r'], rtol=0,
              atol=10 * tol * sc, tag=tag, k=k)
    mon.close('eps-primal', float(s.EpsPrimal), rel * max(
        e['ax'], e['by']), rtol=0, atol=10 * tol * sc, tag=tag, k=k)
    v, w = e['X'] if aux[0] else e['Y'], e['Y'] if aux[1] else e['X']
    d, l1 = m.obj(v)[0], m.obj(w)[1]
    mg = d + l1 + np.sum(m.S**2) + m.wl.max() * sc * np.sqrt(v.size)
    mon.close('objective', float(s.DFid), d, rtol=0, atol=20 * tol * mg,
              tag=tag, k=k, f='DFid')
    mon.close('objective', float(s.RegL1), l1, rtol=0, atol=20 * tol * mg,
              tag=tag, k=k, f='RegL1')
    mon.close('objective', float(s.ObjFun), d + m.lm * l1, rtol=0,
              atol=40 * tol * mg, tag=tag, k=k, f='ObjFun')
    mon.ok('stats-iter', s.Iter == k and float(s.Rho) == m.rho, tag=tag)


# --------------------------------------------------------------------------
def _gf(x):
    return (x[0] - 1)**2 + 3 * abs(x[1])


def _gf1(x):
    return float(np.round(np.sin(3 * x[0]) * 4))


def _gft(x):
    v = _gf(x[:2])
    return (v, -v + x[0], x[1])


def _gnan(x):
    v = _gf(x)
    return np.nan if v < 1.0 else v


def _g3(x):
    return np.cos(x[0]) + x[1] * x[2]


def run_grid(mon, rng):
    for fn, nd, tup in ((_gf, 2, 0), (_gf1, 1, 0), (_gft, 2, 3),
                        (_gnan, 2, 0), (_g3, 3, 0)):
        grd = tuple(rng.uniform(-3, 3, int(rng.integers(1, 5)))
                    for _ in range(nd))
        if rng.random() < .3:
            grd = tuple(np.round(v) for v in grd)
        fmin = bool(rng.random() < .6)
        nproc = [None, 1, 2, 3, 5][int(rng.integers(0, 5))]
        pts = list(itertools.product(*grd))
        val = np.array([fn(p) for p in pts], float)
        if np.all(np.isnan(val)):
            continue
        if nproc is None:
            nproc = 4 if rng.random() < .8 else None
        with Sched(rng, float(rng.choice([0, .003]))) as sch:
            # array_like axes: arrays, lists or tuples
            ga = tuple([v, v.tolist(), tuple(v)][int(rng.integers(0, 3))]
                       for v in grd)
            sprm, sfvl, fvmx, sidx = util.grid_search(fn, ga, fmin, nproc)
        sch.report(mon, 'grid%s' % nproc)
        shp = tuple(v.size for v in grd)
        best = np.nanmin if fmin else np.nanmax
        tag = (fn.__name__, nproc, fmin)
        if tup:
            w = val.reshape(shp + (tup,))
            mon.ok('grid-search', np.array_equal(fvmx, w), tag=tag)
            sprm = np.asarray(sprm)
            for t in range(tup):
                mon.ok('grid-search', sfvl[t] == best(w[..., t]) and
                       fn(tuple(sprm[:, t]))[t] == sfvl[t] and
                       w[tuple(int(sidx[q][t]) for q in range(nd)) +
                         (t,)] == sfvl[t], tag=tag, t=t)
        else:
            w = val.reshape(shp)
            mon.ok('grid-search', np.array_equal(fvmx, w, equal_nan=True),
                   tag=tag, sig=tag)
            mon.ok('grid-search', sfvl == best(w) and fn(tuple(sprm)) == sfvl
                   and w[tuple(sidx)] == sfvl and all(
                       grd[q][sidx[q]] == sprm[q] for q in range(nd)),
                   tag=tag, sprm=sprm, sfvl=sfvl)


def mpirun(nr, args, timeout):
    """Run a script under mpirun. Returns (return code or None when it did
    not end in time, output)"""
    exe = shutil.which('mpirun')
    if exe is None:
        return -1, 'no mpirun'
    env = {k: v for k, v in os.environ.items()
           if not k.startswith(('OMPI_MCA_', 'PMIX_'))}
    env = dict(env, OMPI_ALLOW_RUN_AS_ROOT='1',
               OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMP_NUM_THREADS='1')
    p = subprocess.Popen(
        [exe, '--oversubscribe', '--mca', 'mpi_yield_when_idle', '1', '-n',
         str(nr), sys.executable] + args, env=env, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
        start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGTERM)
        try:
            p.communicate(timeout=10)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
        return None, 'timeout'


PROBE = ('from mpi4py import MPI; c = MPI.COMM_WORLD; '
         'assert c.allreduce(1) == c.Get_size(); import sporco')


def run_mpi(mon, rng):
    """Grid search with MPI processes compared with the definition."""
    nr = int(rng.integers(1, 7))
    # The launcher itself may be unusable in the environment
    rc, out = mpirun(nr, ['-c', PROBE], 60)
    if rc != 0:
        mon.event('mpi-unavailable', sig=(rc, out[-300:]))
        return
    n = 30
    seed = int(rng.integers(0, 2**31))
    drv = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'mpi_drv.py')
    with tempfile.TemporaryDirectory() as tmp:
        fn = os.path.join(tmp, 'out.pkl')
        for att in range(2):
            rc, out = mpirun(nr, [drv, str(seed), str(n), fn], 90)
            if rc == 0 and os.path.exists(fn):
                break
        mon.ok('mpi-run', rc == 0 and os.path.exists(fn), ranks=nr,
               rc=rc, out=out[-600:])
        if rc != 0 or not os.path.exists(fn):
            return
        with open(fn, 'rb') as f:
            allr = pickle.load(f)
    for j, (nm, grd, fmin, sub, dl) in enumerate(mpi_drv.jobs(seed, n)):
        f, nd, tup = mpi_drv.FNS[nm]
        pts = list(itertools.product(*grd))
        val = np.array([f(p) for p in pts], float)
        tag = (nm, nr, len(pts) < nr, fmin, sub)
        logs = [r[j][1] for r in allr]
        mon.ok('mpi-tasks', sorted(sum(logs, [])) == sorted(
            tuple(float(v) for v in p) for p in pts), tag=tag,
            n=[len(v) for v in logs], sig=tag)
        shp = tuple(v.size for v in grd)
        w = val.reshape(shp + ((tup,) if tup else ()))
        best = np.nanmin if fmin else np.nanmax
        for r in allr:
            sprm, sfvl, fvmx, sidx = r[j][0]
            mon.ok('mpi-grid', np.array_equal(fvmx, w, equal_nan=True),
                   tag=tag, sig=tag)
            sprm = np.asarray(sprm)
            for t in range(max(tup, 1)):
                at = (lambda v: v[t]) if tup else (lambda v: v)
                ix = tuple(int(at(sidx[q])) for q in range(nd))
                pv = at(sprm.T)
                mon.ok('mpi-grid', at(sfvl) == best(at(w.T)) and
                       w[ix + ((t,) if tup else ())] == at(sfvl) and
                       all(grd[q][ix[q]] == pv[q] for q in range(nd)),
                       tag=tag, t=t, sprm=sprm, sfvl=sfvl)


# --------------------------------------------------------------------------
def simple(rng, cls):
    """-> function making a solver, for a small problem"""
    g = geo(rng, np.float64)
    W = (rng.random(g.S.shape) < .7) * 1.0
    D, S = g.D, g.S
    if cls == 'ParConvBPDN':
        C = parcbpdn.ParConvBPDN
        ng = int(rng.integers(1, g.M + 1))
        o = {'MaxMainIter': 4, 'rho': 2.0, 'RelStopTol': 0.0}
        return lambda n: C(D, S, .1, W, C.Options(o), nproc=max(n, 1),
                           ngrp=ng, **g.kw)
    C = getattr(prlcnscdl, cls)
    o = {'MaxMainIter': 3, 'CBPDN': {'rho': 2.0}, 'CCMOD': {'rho': 2.0}}
    if 'Mask' in cls:
        return lambda n: C(D, S, .1, W, C.Options(o), nproc=n, **g.kw)
    return lambda n: C(D, S, .1, C.Options(o), nproc=n, **g.kw)


def run_seq(mon, rng):
    """Solvers used one after the other do not affect each other"""
    seq = [str(rng.choice(CLS)) for _ in range(3)]
    mk = [simple(rng, c) for c in seq]
    first = [np.array(m(0).solve()) for m in mk]
    held, ids = [], []
    for i in rng.permutation(3):
        n = int(rng.integers(0, 3))
        with Sched(rng, 0) as sch:
            r = mk[i](n).solve()
        held.append(r)
        ids.append(i)
        mon.close('sequential', r, first[i], rtol=0, atol=1e-8 * (
            1 + np.max(np.abs(first[i]))), sig=seq[i], cls=seq[i], n=n)
    for r, i in zip(held, ids):
        mon.close('sequential', r, first[i], rtol=0, atol=1e-8 * (
            1 + np.max(np.abs(first[i]))), cls=seq[i], later=True)


def run_two(mon, rng, cls):
    """Interleaved construction and use of two solvers gives the same
    results as using each of them alone"""
    np_ = [0, int(rng.integers(2, 4))] if rng.random() < .3 else [0, 0]
    mk = [simple(rng, cls), simple(rng, cls)]
    if cls == 'ParConvBPDN':
        np_ = [max(n, 1) for n in np_]

    def obs(a, what):
        if cls == 'ParConvBPDN':
            return [lambda: np.array(a.reconstruct()),
                    lambda: np.array(a.getmin()),
                    lambda: np.array(a.obfn_fvar()),
                    lambda: np.array(a.obfn_gvar()),
                    lambda: np.array(a.eval_objfn(), dtype=float)][what]()
        return np.array(a.getdict() if what else a.getcoef())

    def same(x, y):
        return x.shape == y.shape and np.allclose(x, y, 1e-8, 1e-8)
    nw = 5 if cls == 'ParConvBPDN' else 2
    want = []
    for m, n in zip(mk, np_):
        a = m(n)
        w = [np.array(a.solve()), np.array(a.solve())]
        want.append((w, [obs(a, q) for q in range(nw)], list(a.itstat)))
    plan = list(rng.permutation([0, 0, 1, 1]))
    obj, cnt, tr = [mk[0](np_[0]), mk[1](np_[1])], [0, 0], ''
    try:
        ok = True
        for i in plan:
            got = np.array(obj[i].solve())
            ok = ok and same(got, want[i][0][cnt[i]])
            cnt[i] += 1
            tr += 'ab'[i]
        for w in rng.permutation(nw):
            for i in (0, 1):
                ok = ok and same(obs(obj[i], w), want[i][1][w])
        for i in (0, 1):
            ok = ok and same(np.array([x.ObjFun for x in obj[i].itstat]),
                             np.array([x.ObjFun for x in want[i][2]]))
        got = None
    except Exception as e:
        got, ok = e, False
    mon.event('interleave ' + tr, cls)
    mon.ok('two-instances', ok, cls=cls, plan=tr, got=got)
