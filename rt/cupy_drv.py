"""Run in a fresh process: python -m rt.cupy_drv IN.pkl OUT.pkl

Imports sporco.cupy (on the device stand-in, or on its numpy fallback) before
or after the standard modules, runs the standard and the cupy variant of
random solvers and functions on the same problems and compares them."""
import collections
import importlib
import pickle
import sys
import types
import warnings

import numpy as np


def load_cupy():
    import sporco.cupy
    import sporco.cupy.admm
    import sporco.cupy.pgm
    import sporco.cupy.dictlrn
    return sporco.cupy


def load_std():
    import sporco.admm.cbpdn
    import sporco.pgm.cbpdn
    import sporco.dictlrn.onlinecdl
    import sporco.fft
    from rt import registry, funcs
    sporco.fft.pyfftw_threads = 1
    return registry, funcs


def load_mixed(rng, mon):
    """Import the modules one at a time in random order"""
    from rt import optdef
    names = optdef.MODULES + ['sporco.cupy', 'sporco.cupy.admm',
                              'sporco.cupy.pgm', 'sporco.cupy.dictlrn']
    snap = {}
    seen = []
    for i in rng.permutation(len(names)):
        n = names[i]
        seen.append(n)
        try:
            importlib.import_module(n)
        except Exception as e:
            mon.ok('imports', False, error=e, history=seen)
            raise
        mon.event('imports', (n, 'sporco.cupy' in sys.modules))
        for k, m in list(sys.modules.items()):
            if not k.startswith('sporco.') or '.cupy' in k:
                continue
            d = (id(m), m.__name__, m.__spec__.name, m.__spec__.origin,
                 list(getattr(m, '__path__', [])))
            if k not in snap:
                snap[k] = d
                mon.ok('std-modules', m.__name__ == k == m.__spec__.name and
                       all('/cupy' not in p for p in d[4]), sig=k, mod=k,
                       history=seen, got=d)
            mon.ok('std-modules', snap[k] == d, sig=k, mod=k, was=snap[k],
                   now=d, history=seen)
    return sys.modules['sporco.cupy']


class Gpu:
    def __init__(self, i, load, mem):
        self.id, self.load, self.memoryUtil = i, load, mem
        self.name, self.driver = 'gpu%d' % i, 'd'
        self.memoryTotal, self.memoryFree = 100.0, 100.0 * (1 - mem)


def gputil(rng):
    g = types.ModuleType('GPUtil')
    g.gpus = [Gpu(i, float(rng.random()), float(rng.random()))
              for i in range(int(rng.integers(1, 5)))]
    g.getGPUs = lambda: list(g.gpus)
    g.getAvailable = lambda *a, **k: [g.gpus[-1].id]
    return g


def cu_mod(m):
    return sys.modules.get('sporco.cupy.' + m[len('sporco.'):])


STD = ['sporco.common', 'sporco.admm', 'sporco.admm.admm', 'sporco.pgm',
       'sporco.pgm.pgm', 'sporco.dictlrn', 'sporco.admm.cbpdn',
       'sporco.pgm.cbpdn', 'sporco.fft', 'sporco.linalg', 'sporco.array']


def main(fin, fout):
    from rt.core import Monitor
    with open(fin, 'rb') as f:
        job = pickle.load(f)
    rng = np.random.default_rng(job['seed'])
    mon = Monitor({})
    warnings.simplefilter('ignore')
    dev = None
    gp = None
    if job['device']:
        from rt import device
        dev = device
        gp = gputil(rng) if rng.random() < .6 else None
        device.install(gp)
    order = job['order']
    if order == 'cupy-first':
        sc = load_cupy()
        reg, fn = load_std()
    elif order == 'mixed':
        sc = load_mixed(rng, mon)
        reg, fn = load_std()
    else:
        reg, fn = load_std()
        before = {n: sys.modules[n] for n in STD if n in sys.modules}
        sc = load_cupy()
        for n, m in before.items():
            mon.ok('std-modules', sys.modules.get(n) is m, sig=n, mod=n)
    mon.ok('cupy-enabled', sc.cupy_enabled() == bool(job['device']))
    T = Tools(dev, sc, mon, order)
    for i in range(job['n']):
        r2 = np.random.default_rng([job['seed'], i])
        if r2.random() < .6:
            T.solver(r2, reg, reg.NAMES)
        else:
            T.function(r2, fn)
    T.util(rng, gp)
    for _ in range(6):
        T.ffts(rng)
        T.factored(rng)
    for n in STD:
        mon.ok('std-modules', n in sys.modules and
               sys.modules[n].__name__ == n, sig=n, mod=n)
    # traces of the standard classes are the same as without sporco.cupy
    for nm, seed, X in job['ref']:
        s = reg.spec(np.random.default_rng(seed), nm)
        a = s.make()
        s.step(a)
        v = s.vector(a)
        mon.ok('std-unchanged', v.shape == X.shape and np.allclose(
            v, X, 1e-7, 1e-7 * (1 + np.max(np.abs(X))), equal_nan=True),
            sig=nm, tag=nm)
    if dev:
        mon.event('device-ops', '%d' % np.log2(dev.COUNT['calls']))
    with open(fout, 'wb') as f:
        pickle.dump({'counts': mon.counts, 'sigs': mon.sigs,
                     'viol': mon.viol, 'worst': mon.worst}, f)


class Tools:
    def __init__(self, dev, sc, mon, order):
        self.dev, self.sc, self.mon, self.order = dev, sc, mon, order
        self.mode = 'device' if dev else 'fallback'

    # -- conversions --------------------------------------------------------
    def up(self, v):
        """To the device; also converts solver components to their cupy
        variants"""
        if isinstance(v, np.ndarray):
            return self.sc.np2cp(v)
        if isinstance(v, (tuple, list)) and type(v) in (tuple, list):
            return type(v)(self.up(w) for w in v)
        m = type(v).__module__
        if m.split('.')[-1] in ('backtrack', 'momentum', 'stepsize') and \
                m.startswith('sporco.') and cu_mod(m):
            w = getattr(cu_mod(m), type(v).__name__)()
            w.__dict__.update(v.__dict__)
            return w
        return v

    def opts(self, o):
        return {k: self.opts(v) if isinstance(v, dict) else self.up(v)
                for k, v in dict(o).items()}

    def down(self, v):
        if self.dev and isinstance(v, self.dev.ndarray):
            return self.sc.cp2np(v)
        if isinstance(v, (tuple, list)):
            return [self.down(w) for w in v]
        return v

    def state(self, obj):
        out = {}
        for f in ('X', 'Y', 'U', 'D'):
            v = self.down(getattr(obj, f, None))
            if isinstance(v, np.ndarray):
                out[f] = v
        for f in ('getmin', 'getdict', 'getcoef', 'reconstruct'):
            if hasattr(obj, f):
                try:
                    v = self.down(getattr(obj, f)())
                except (NotImplementedError, AttributeError):
                    continue
                if isinstance(v, np.ndarray):
                    out[f] = v
        return out

    def close(self, name, a, b, tol, prec=True, **kw):
        ok = set(a) == set(b)
        self.mon.ok(name + '-fields', ok, a=sorted(a), b=sorted(b), **kw)
        for k in a if ok else ():
            x, y = np.asarray(a[k]), np.asarray(b[k])
            self.mon.ok(name + '-type', x.shape == y.shape and
                        (x.dtype == y.dtype if prec else
                         x.dtype.kind == y.dtype.kind), k=k, x=(x.shape, x.dtype),
                        y=(y.shape, y.dtype), **kw)
            if x.shape != y.shape:
                continue
            if x.dtype.kind == 'b':
                self.mon.ok(name, np.array_equal(x, y), k=k, **kw)
                continue
            with np.errstate(all='ignore'):
                sc = np.max(np.abs(x[np.isfinite(x)]), initial=0)
                self.mon.ok(name, np.allclose(
                    x, y, tol, tol * (1e-9 + sc), equal_nan=True),
                    sig='%s/%s' % (self.mode, kw.get('tag')), k=k,
                    err=np.max(np.abs(x - y), initial=0), sc=sc, **kw)

    # -- solvers ------------------------------------------------------------
    def solver(self, rng, reg, names):
        while True:
            nm = names[int(rng.integers(len(names)))]
            s = reg.spec(rng, nm)
            m = cu_mod(s.cls.__module__)
            if m is not None:
                break
        f32 = rng.random() < .15
        tol = 1e-7
        n = int(rng.integers(1, 4))
        dbl = None
        if f32:
            tol = 2e-3
            # the double precision trace tells how much rounding matters
            dbl = self.run(s, n)[0]

            def lo(v):
                if isinstance(v, np.ndarray) and v.dtype == np.float64:
                    return v.astype(np.float32)
                return v
            s.args = tuple(lo(v) for v in s.args)
            s.opt = type(s.opt)({k: lo(v) for k, v in dict(
                s.opt).items()}) if 'dl.' not in nm else s.opt
            if hasattr(s, 'stream'):
                s.stream = [tuple(lo(v) for v in t) for t in s.stream]
        ref, rst = self.run(s, n)
        s2 = reg.Spec(s.name, getattr(m, s.cls.__name__),
                      tuple(self.up(v) for v in s.args), s.kw, None, s.mode)
        s2.opt = s2.cls.Options(self.opts(s.opt))
        if hasattr(s, 'stream'):
            s2.stream = [tuple(self.up(v) for v in t) for t in s.stream]
        try:
            got, gst = self.run(s2, n)
        except Exception as e:
            import traceback
            self.mon.ok('cupy-runs', False, sig=nm, tag=nm, error=e,
                        mode=self.mode, trace=''.join(
                            traceback.format_list(traceback.extract_tb(
                                e.__traceback__)[-3:])))
            return
        self.mon.ok('cupy-runs', True)
        if dict(s.opt).get('StepSizePolicy') is not None and any(
                not np.all(np.isfinite(a.get('X', 1))) or
                not np.any(a.get('X', 1)) for a in ref):
            # step size 0/0 at a zero gradient: decided by rounding
            self.mon.event('degenerate-step')
            return
        for j, (a, b) in enumerate(zip(ref, got)):
            # (histories of inexact decisions may part after rounding)
            t = tol * 10**min(3, j)
            if dbl is not None:
                t += 30 * max([np.max(np.abs(a[k] - v), initial=0) / (
                    1e-30 + np.max(np.abs(v), initial=0))
                    for k, v in dbl[j].items()
                    if k in a and a[k].shape == v.shape], default=0)
            self.close('solver-same', a, b, t,
                       tag=nm + ('/f32' if f32 else ''))
        if not f32:
            # residuals normalised by a norm which is zero up to rounding
            rst, gst = (np.where(np.abs(v) > 1e8, np.inf, v)
                        for v in (rst, gst))
            if rst.shape == gst.shape:
                amb = np.isinf(rst) != np.isinf(gst)
                rst, gst = np.where(amb, 0, rst), np.where(amb, 0, gst)
            self.mon.ok('stats-same', rst.shape == gst.shape and
                        np.allclose(rst, gst, 1e-5, 1e-7 * (
                            1 + np.nanmax(np.where(
                                np.isinf(rst), 0, np.abs(rst)), initial=0)),
                            equal_nan=True), sig=nm, tag=nm,
                        mode=self.mode, bad=[
                            (i, rst[tuple(i)], gst[tuple(i)])
                            for i in np.argwhere(~np.isclose(
                                rst, gst, 1e-5, 1e-7, equal_nan=True))[:5]]
                        if rst.shape == gst.shape else None)
        if self.dev:
            # the state stays on the device
            v = [getattr(s2.obj, f) for f in 'XYU' if hasattr(s2.obj, f)]
            self.mon.ok('on-device', not any(
                isinstance(w, np.ndarray) for w in v), tag=nm)

    def run(self, s, n):
        obj = s.make()
        s.obj = obj
        out = []
        with np.errstate(all='ignore'):
            for _ in range(n):
                s.step(obj)
                out.append({k: np.array(v)
                            for k, v in self.state(obj).items()})
        it = getattr(obj, 'itstat', None)
        if not it:
            return out, np.zeros(0)
        f = [i for i, q in enumerate(it[0]._fields) if 'Time' not in q]
        return out, np.array([[np.nan if t[i] is None else float(
            np.real(self.down(t[i]))) for i in f] for t in it])

    # -- functions ----------------------------------------------------------
    # representations which differ (unused triangle of the factor)
    # (solutions are compared in `factored`)
    SKIP = {'cho_factor', 'cho_solve_ATAI', 'cho_solve_AATI'}
    HOST = {'pamse', 'prox_dl1l2', 'dctii', 'idctii', 'lcn', 'gmsd', 'pca', 'nkp', 'tikhonov',
            'solvemdbi_cg', 'lu_factor', 'lu_solve_ATAI', 'lu_solve_AATI', 'block_circulant', 'subsample',
            'combine_blocks', 'average_blocks', 'extract_blocks', 'gaussian',
            'rolling_window'}

    def function(self, rng, fn):
        dt = np.float64 if rng.random() < .75 else np.float32
        tol = 1e-7 if dt == np.float64 else 1e-3
        for _ in range(50):
            nm, f, a, k = fn.call(rng, dt)
            m = cu_mod('.'.join(f.__module__.split('.')[:2]))
            if m is not None and hasattr(m, f.__name__) and \
                    nm not in self.SKIP and not (
                    self.dev and nm in self.HOST):
                break
        else:
            return
        g = getattr(m, f.__name__)
        with np.errstate(all='ignore'):
            ref = f(*a, **k)
            try:
                got = self.down(g(*[self.up(v) for v in a], **k))
            except Exception as e:
                self.mon.ok('cupy-runs', False, sig=nm, tag=nm, error=e,
                            mode=self.mode)
                return
        x, y = fn.leaves(ref), fn.leaves(got)
        self.close('function-same', dict(enumerate(x)), dict(enumerate(y)),
                   tol, prec=dt == np.float64, tag=nm)

    # -- transform layer ----------------------------------------------------
    def ffts(self, rng):
        """Allocation, type and transform functions, axes in any order"""
        import sporco.fft as F
        G = cu_mod('sporco.fft')
        nd = int(rng.integers(1, 4))
        shp = tuple(int(v) for v in rng.integers(1, 7, nd))
        ax = [int(v) for v in rng.permutation(nd)[
            :int(rng.integers(1, nd + 1))]]
        if rng.random() < .3:
            ax = [a - nd for a in ax]
        ax = tuple(ax)
        dt = [np.float64, np.complex128][int(rng.integers(2))]
        real = dt is np.float64
        s = tuple(shp[a] for a in ax)
        x = rng.standard_normal(shp)
        if not real:
            x = x + 1j * rng.standard_normal(shp)
        xf = np.fft.rfftn(x, s, ax) if real else np.fft.fftn(x, s, ax)
        s2 = tuple(int(v) for v in rng.integers(1, 7, len(ax)))
        jobs = [('fftn', (x, s2, ax)), ('ifftn', (xf, s2, ax)),
                ('fl2norm2', (xf, ax)),
                ('real_dtype', (x.dtype,)), ('is_complex_dtype', (x.dtype,)),
                ('byte_aligned', (x,)),
                ('empty_aligned', (shp, x.dtype))]
        if real:
            y = rng.standard_normal(tuple(int(v) for v in rng.integers(
                1, 5, nd)))
            pa = tuple(a % nd for a in ax)
            y = y[tuple(slice(None) if a in pa else slice(0, 1)
                        for a in range(nd))]
            if rng.random() < .4:
                y = y + 1j * y[::-1]
            jobs += [('complex_dtype', (np.dtype([np.float32, np.float64][
                int(rng.integers(2))]),)), ('rfftn', (x, s2, ax)), ('irfftn', (xf, s, ax)),
                     ('rfl2norm2', (xf, shp, ax)),
                     ('rfftn_empty_aligned', (shp, ax, x.dtype)),
                     ('fftconv', (x, y, ax))]
        for nm, a in jobs:
            self.same('fft.' + nm, getattr(F, nm), getattr(G, nm), a,
                      alloc='empty' in nm)
        for nm in ('fftn_func', 'ifftn_func', 'fl2norm2_func',
                   'empty_aligned_func'):
            a = {'fftn_func': (x, s, ax), 'ifftn_func': (xf, s, ax),
                 'fl2norm2_func': (xf, shp, ax),
                 'empty_aligned_func': (shp, ax, x.dtype)}[nm]
            self.same('fft.' + nm, getattr(F, nm)(real),
                      getattr(G, nm)(real), a, alloc='empty' in nm)

    def factored(self, rng):
        """Solvers which use a precomputed factor"""
        import sporco.linalg as F
        G = cu_mod('sporco.linalg')
        N, M, K = (int(v) for v in rng.integers(1, 7, 3))
        A = rng.standard_normal((N, M))
        rho = float(rng.uniform(.1, 3))
        low = bool(rng.random() < .5)
        chk = bool(rng.random() < .5)
        for nm, b in (('cho_solve_ATAI', rng.standard_normal((M, K))),
                      ('cho_solve_AATI', rng.standard_normal((K, N)))):
            c, l_ = F.cho_factor(A, rho, low)
            ref = getattr(F, nm)(A, rho, b, c, l_, chk)
            try:
                dA = self.up(A)
                c, l_ = G.cho_factor(dA, rho, low, chk)
                got = self.down(getattr(G, nm)(dA, rho, self.up(b), c, l_,
                                               chk))
            except Exception as e:
                self.mon.ok('cupy-runs', False, sig=nm, tag=nm, error=e,
                            mode=self.mode)
                continue
            self.close('function-same', {0: ref}, {0: got}, 1e-7, tag=nm)

    def same(self, nm, f, g, a, alloc=False):
        with np.errstate(all='ignore'):
            ref = f(*a)
            try:
                got = g(*[self.up(v) for v in a])
            except Exception as e:
                self.mon.ok('cupy-runs', False, sig=nm, tag=nm, error=e,
                            mode=self.mode, shapes=[
                                getattr(v, 'shape', v) for v in a])
                return
        if self.dev and isinstance(ref, np.ndarray):
            self.mon.ok('on-device', isinstance(got, self.dev.ndarray),
                        tag=nm)
        got = self.down(got)
        if isinstance(ref, (np.dtype, type, bool)):
            self.mon.ok('function-same', ref == got, sig='%s/%s' % (
                self.mode, nm), tag=nm, got=got, want=ref)
            return
        ref, got = np.asarray(ref), np.asarray(got)
        if alloc:
            ref, got = np.zeros_like(ref), np.zeros_like(got)
        self.close('function-same', {0: ref}, {0: got}, 1e-7, tag=nm)

    # -- utilities ----------------------------------------------------------
    def util(self, rng, gp):
        sc, mon, dev = self.sc, self.mon, self.dev
        x = rng.standard_normal(tuple(int(v) for v in rng.integers(1, 5, 2)))
        d = sc.np2cp(x)
        h = sc.cp2np(d)
        mon.ok('transfer', np.array_equal(h, x) and isinstance(
            h, np.ndarray) and (isinstance(d, dev.ndarray) if dev else
                                d is x), sig=self.mode)
        mon.ok('array-module', sc.array_module(d) is (
            sys.modules['cupy'] if dev else np) and
            sc.array_module(x) is np, sig=self.mode)
        P = collections.namedtuple('P', 'u v w')
        forms = {'one': lambda u, v: u * 2 + v,
                 'tuple': lambda u, v: (u + 1, 'a', v),
                 'list': lambda u, v: [u + 1, v, 3],
                 'ntpl': lambda u, v: P(u - 1, v, None),
                 'none': lambda u, v: None}
        seen = []
        for nm, f in forms.items():
            def tst(u, v=None):
                seen.append((u, v))
                return f(u, v)
            r = sc.cupy_wrapper(tst)(x, v=2 * x)
            w = f(x, 2 * x)
            ok = type(r) is type(w)
            for p, q in zip(*((r, w) if isinstance(w, (tuple, list))
                              else ([r], [w]))):
                ok = ok and type(p) is type(q) and (np.allclose(
                    p, q) if isinstance(q, np.ndarray) else p == q)
            mon.ok('wrapper', ok, sig='%s/%s' % (nm, self.mode), form=nm)
            if dev:
                mon.ok('wrapper-device', all(isinstance(
                    z, dev.ndarray) for z in seen[-1]), form=nm)
        if not dev or gp is None:
            mon.ok('gpu-util', sc.gpu_info() == [] and sc.gpu_load() == []
                   and sc.device_by_load() == [] and
                   sc.select_device_by_load() == 0 and
                   sc.available_gpu() == [0], sig=self.mode)
            return
        wp, wm = float(rng.uniform(.1, 2)), float(rng.uniform(.1, 2))
        ld = [(g.load, g.memoryUtil, (wp * g.load + wm * g.memoryUtil) /
               (wp + wm)) for g in gp.gpus]
        order = [i for _, i in sorted((v[2], i) for i, v in enumerate(ld))]
        info = sc.gpu_info()
        mon.ok('gpu-util', [tuple(v) for v in info] == [
            (g.name, g.driver, g.memoryTotal, g.memoryFree)
            for g in gp.gpus], sig='info')
        mon.close('gpu-util', np.array([tuple(v) for v in sc.gpu_load(
            wp, wm)]), np.array(ld), rtol=1e-12)
        mon.ok('gpu-util', list(sc.device_by_load(wp, wm)) == order,
               sig='order')
        del dev.Device.used[:]
        got = sc.select_device_by_load(wp, wm)
        mon.ok('gpu-util', got == order[0] and dev.Device.used == [got],
               sig='select')
        mon.ok('gpu-util', sc.available_gpu() == [gp.gpus[-1].id],
               sig='avail')


if __name__ == '__main__':
    main(*sys.argv[1:3])
