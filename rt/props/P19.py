"""Isolation, determinism and purity of the solver objects of the whole
package."""
import contextlib
import copy
import io
import sys
import threading

import numpy as np

import sporco.fft as sfft
from rt import funcs, gen, registry, twin

sfft.pyfftw_threads = 1

RULE = ('A case draws random small instances of solver classes from a '
        'registry of all solver classes of the package and runs them under '
        'one of the schedules: interleaved with another solver of the same '
        'or another class (construction and solve() calls in random order, '
        'optionally sharing problem arrays and one options object), in '
        'concurrent threads with a tiny switch interval, with poisoned '
        'uninitialised memory, with read-only inputs, or after a solver '
        '(function call) which differs in the contents or in one random '
        'decision only, compared with a process of its own. The trace of states '
        'and statistics has to be that of the same solver used alone. '
        'Non-trivial = distinct (class, partner class, schedule).')
ASSUMPTIONS = [
    'threads do not share arrays (the FFT planner may write to its input '
    'while planning)',
    'classes keeping their working set in module global shared memory are '
    'excluded from concurrent threads',
    'options stored by dictionary learning constructors under CCMOD/CMOD '
    'for the initial dictionary are not part of the options claim',
    'traces are compared up to the rounding differences which run-time '
    'selected FFT plans and SIMD paths cause']
EXPECT = {'accessor', 'interleaved', 'stats', 'inputs-unchanged', 'options-unchanged',
          'poisoned', 'threads', 'rebuilt', 'read-only',
          'finite', 'thread-overlap', 'func-repeat', 'func-held', 'func-fresh', 'func-inputs',
          'func-threads', 'func-read-only', 'func-poisoned', 'interleaving', 'new-buffers',
          'twin', 'func-twin', 'twin-process'}

NM = registry.NAMES
start = twin.start


def cases(tier):
    k = 20 if tier == 'quick' else 60
    out = []
    for j, nm in enumerate(NM):
        for kd, m in (('inter', 1), ('poison', .5), ('pure', .5)):
            out += [{'kind': kd, 'n': 10000 * j + i, 'cls': nm}
                    for i in range(max(1, int(k * m)))]
    out += [{'kind': 'thread', 'n': i} for i in range(4 * k)]
    out += [{'kind': 'func', 'n': i} for i in range(10 * k)]
    out += [{'kind': 'twin', 'n': 10000 * j + i, 'cls': nm}
            for j, nm in enumerate(NM) for i in range(k // 4)]
    out += [{'kind': 'ftwin', 'n': i} for i in range(8 * k)]
    return out


def trace(s, n, obj=None):
    """States after each of n steps"""
    recs = []
    obj = s.make() if obj is None else obj
    for i in range(n):
        s.step(obj)
        recs.append(rec(s, obj, i))
    return obj, recs


def rec(s, obj, i):
    return {'k': i, 'X': s.vector(obj)}


def same(mon, name, a, b, sa, sb, tag):
    ok, w = gen.hist_same(a, b, keys='X', tol=1e-7)
    mon.ok(name, ok, sig=tag, worst=w, tag=tag)
    if ok and w < 1e-7:
        ok = sa.shape == sb.shape and np.allclose(
            sa, sb, 1e-5, 1e-7 * (1 + np.nanmax(np.abs(sa), initial=0)),
            equal_nan=True)
        mon.ok('stats', ok, tag=tag, a=sa, b=sb)


def frozen(s):
    return {k: np.array(v) for k, v in s.arrays().items()}


def opt_arrays(o, p=''):
    out = {}
    for k, v in dict(o).items():
        if isinstance(v, dict):
            out.update(opt_arrays(v, p + '/' + k))
        elif isinstance(v, np.ndarray):
            out[p + '/' + k] = np.array(v)
        elif callable(v) or not isinstance(v, (int, float, str, bool, tuple,
                                               type(None), np.generic)):
            out[p + '/' + k] = id(v)
        else:
            out[p + '/' + k] = v
    return out


def opt_same(a, b, dl):
    bad = []
    for k in set(a) | set(b):
        if dl and k in ('/CCMOD/X0', '/CCMOD/Y0', '/CMOD/X0', '/CMOD/Y0',
                        '/CMOD/U0', '/CCMOD/U0'):
            continue
        if k not in a or k not in b:
            bad.append(k)
        elif isinstance(a[k], np.ndarray) or isinstance(b[k], np.ndarray):
            if not np.array_equal(a[k], b[k]):
                bad.append(k)
        elif a[k] != b[k] and not (a[k] is b[k]):
            bad.append(k)
    return bad


def purity(mon, s, before, ob, tag):
    for k, v in s.arrays().items():
        mon.ok('inputs-unchanged', np.array_equal(v, before[k]), tag=tag,
               array=k)
    bad = opt_same(ob, opt_arrays(s.opt), s.name.startswith('dl.'))
    mon.ok('options-unchanged', not bad, tag=tag, keys=bad)


def run(case, mon, rng):
    with contextlib.redirect_stdout(io.StringIO()) if case['kind'] not in \
            ('thread', 'func') else contextlib.nullcontext():
        {'inter': inter, 'poison': poison, 'pure': pure,
         'thread': threads, 'func': functions, 'twin': twins,
         'ftwin': func_twins}[case['kind']](case, mon, rng)


def inter(case, mon, rng):
    """Two solvers, constructed and stepped in random order"""
    nm = case['cls']
    a = registry.spec(rng, nm)
    mode = str(rng.choice(['same-problem', 'same-class', 'other', 'other']))
    if mode == 'same-problem':
        b = a
    else:
        onm = nm if mode == 'same-class' else NM[int(rng.integers(len(NM)))]
        b = registry.spec(rng, onm)
        if onm == nm and rng.random() < .5 and compatible(a, b):
            b.opt = a.opt             # one options object for both solvers
            mode = 'shared-options'
    tag = '%s|%s|%s' % (nm, b.name, mode)
    n = [int(rng.integers(1, 4)), int(rng.integers(1, 4))]
    fa, fb = frozen(a), frozen(b)
    oa, ob = opt_arrays(a.opt), opt_arrays(b.opt)
    ref = []
    for s, m in zip((a, b), n):
        o, r = trace(s, m)
        ref.append((r, s.stats(o)))
        del o
    plan = [0] * (n[0] + 1) + [1] * (n[1] + 1)
    plan = [plan[i] for i in rng.permutation(len(plan))]
    objs, got, cnt = [None, None], [[], []], [0, 0]
    for w in plan:
        s = (a, b)[w]
        if objs[w] is None:
            objs[w] = s.make()
        else:
            s.step(objs[w])
            got[w].append(rec(s, objs[w], cnt[w]))
            cnt[w] += 1
            if rng.random() < .3:
                for f in registry.poke(rng, objs[w]):
                    mon.event('accessor', (s.name, f))
    mon.event('interleaving', (tag, tuple(plan)))
    for w in (0, 1):
        s = (a, b)[w]
        same(mon, 'interleaved', got[w], ref[w][0], s.stats(objs[w]),
             ref[w][1], tag)
    purity(mon, a, fa, oa, tag)
    purity(mon, b, fb, ob, tag)


def twin_trace(nm, seed, content, alter, n):
    """Trace of a solver given by the seeds of its random generator"""
    g = twin.Rng(seed, content, alter)
    s = registry.spec(g, nm)
    with np.errstate(all='ignore'):
        o, r = trace(s, n)
    return r, np.asarray(s.stats(o), dtype=float), accessors(o), g.n


def twins(case, mon, rng):
    """A solver gives what it gives in a process of its own after another
    solver of almost the same configuration was used"""
    nm, seed = case['cls'], int(rng.integers(1 << 30))
    n = int(rng.integers(1, 3))
    g = twin.Rng(seed, 2)
    registry.spec(g, nm)
    try:
        twin_trace(nm, seed, 1, int(rng.integers(1, g.n + 1)) if
                   rng.random() < .6 else None, n)
    except Exception:
        mon.event('twin-invalid', nm)    # the changed decision may not fit
    got = twin_trace(nm, seed, 2, None, n)
    ok, want = twin.alone(twin_trace, nm, seed, 2, None, n)
    if not mon.ok('twin', ok, tag=nm, error=want):
        return
    mon.event('twin-process', nm)
    same(mon, 'twin', got[0], want[0], got[1], want[1], nm)
    for k in want[2]:
        mon.close('twin', got[2][k], want[2][k], rtol=1e-6, atol=1e-6 * (
            1 + np.max(np.abs(want[2][k]), initial=0)), tag=nm, what=k)


def func_val(seed, content, alter, dt):
    c = funcs.call(twin.Rng(seed, content, alter), np.dtype(dt).type)
    with np.errstate(all='ignore'):
        return c[0], [np.array(v) for v in funcs.leaves(c[1](*c[2], **c[3]))]


def func_twins(case, mon, rng):
    """A function gives what it gives in a process of its own after calls
    with almost the same arguments"""
    dt = 'd' if rng.random() < .7 else 'f'
    tol = 1e-7 if dt == 'd' else 1e-3
    for _ in range(3):
        seed = int(rng.integers(1 << 30))
        g = twin.Rng(seed, 1)
        funcs.call(g)
        for c in range(2, 5):
            try:
                func_val(seed, c, int(rng.integers(1, g.n)) if
                         rng.random() < .7 else None, dt)
            except Exception:
                mon.event('twin-invalid')
        nm, got = func_val(seed, 1, None, dt)
        ok, want = twin.alone(func_val, seed, 1, None, dt)
        if not mon.ok('func-twin', ok, fn=nm, error=want):
            continue
        want = want[1]
        ok = len(got) == len(want)
        for a, b in zip(got, want):
            if not ok:
                break
            sc = np.max(np.abs(b[np.isfinite(b)]), initial=0) \
                if b.dtype.kind in 'fc' else 0
            ok = a.shape == b.shape and a.dtype == b.dtype and np.allclose(
                a, b, tol, tol * (1 + sc), equal_nan=True)
        mon.ok('func-twin', ok, sig=nm, fn=nm)


def compatible(a, b):
    """Can b be solved with the options of a?"""
    if any(isinstance(v, np.ndarray) for v in opt_arrays(a.opt).values()):
        return False
    return a.cls.__name__.find('DictLearn') < 0


# --------------------------------------------------------------------------
class Poison:
    """Fills memory which is handed out uninitialised by the allocation
    functions of numpy and pyfftw with recognisable garbage"""

    def __init__(self, val):
        self.val, self.n = val, 0

    def fill(self, x):
        if x.dtype.kind in 'fc':
            x[...] = self.val
        elif x.dtype.kind in 'iu':
            x[...] = 77
        self.n += 1
        return x

    def __enter__(self):
        self.saved = []
        import pyfftw
        mods = [(np, ('empty', 'empty_like')),
                (pyfftw, ('empty_aligned',))]
        for m, fs in mods:
            for f in fs:
                real = getattr(m, f)
                self.saved.append((m, f, real))
                setattr(m, f, self.wrap(real))
        return self

    def wrap(self, real):
        def alloc(*a, **k):
            x = real(*a, **k)
            return self.fill(x) if isinstance(x, np.ndarray) and \
                x.flags.writeable and x.dtype.kind in 'fciu' else x
        return alloc

    def __exit__(self, *e):
        for m, f, real in self.saved:
            setattr(m, f, real)


def poison(case, mon, rng):
    """Results do not depend on the content of uninitialised memory, and
    remain finite"""
    s = registry.spec(rng, case['cls'])
    n = int(rng.integers(1, 4))
    o, ref = trace(s, n)
    st = s.stats(o)
    acc = accessors(o)
    mon.finite('finite', *[r['X'] for r in ref], tag=s.name)
    v = [np.nan, 1e30, -3.7][rng.integers(3)]
    with Poison(v) as p:
        o2, got = trace(s, n)
        acc2 = accessors(o2)
    mon.event('new-buffers', s.name, n=p.n)
    same(mon, 'poisoned', got, ref, s.stats(o2), st, s.name)
    for k in acc:
        mon.close('poisoned', acc2[k], acc[k], rtol=1e-6, atol=1e-7 * (
            1 + np.max(np.abs(acc[k]), initial=0)), tag=s.name, what=k)


def accessors(o):
    out = {}
    for f in ('reconstruct', 'getdict', 'getcoef', 'getmin'):
        if hasattr(o, f):
            try:
                v = getattr(o, f)()
            except (NotImplementedError, AttributeError):
                continue
            if isinstance(v, np.ndarray):
                out[f] = np.array(v)
    return out


def pure(case, mon, rng):
    """Read-only, unusually laid out inputs; a second
    object made from the same inputs behaves identically"""
    s = registry.spec(rng, case['cls'])
    n = int(rng.integers(1, 4))
    fa, oa = frozen(s), opt_arrays(s.opt)
    o, ref = trace(s, n)
    st = s.stats(o)
    o2, r2 = trace(s, n)
    same(mon, 'rebuilt', r2, ref, s.stats(o2), st, s.name)
    purity(mon, s, fa, oa, s.name)
    # read-only and strided copies of all the arguments
    lay = str(rng.choice(['ro', 'F', 'strided', 'rev']))

    def conv(v):
        if isinstance(v, np.ndarray) and v.ndim:
            v = gen.layout(rng, v, lay)
            v.flags.writeable = False
            return v
        if isinstance(v, tuple):
            return tuple(conv(w) for w in v)
        return v
    s.args = tuple(conv(v) for v in s.args)
    if hasattr(s, 'stream'):
        s.stream = [conv(v) for v in s.stream]
    o4, r4 = trace(s, n)
    same(mon, 'read-only', r4, ref, s.stats(o4), st, s.name + '|' + lay)


def threads(case, mon, rng):
    """Independent solvers in concurrent threads"""
    T = int(rng.integers(2, 6))
    nms = [n for n in NM if n not in registry.GLOBAL]
    if rng.random() < .4:
        nms = [nms[int(rng.integers(len(nms)))]]
    sp = [registry.spec(rng, nms[int(rng.integers(len(nms)))])
          for _ in range(T)]
    n = int(rng.integers(2, 5))
    for s in sp:
        s.copy = True
    ref = []
    for s in sp:
        o, r = trace(s, n)
        ref.append((r, s.stats(o)))
    res = [None] * T
    bar = threading.Barrier(T)
    log = []

    def work(i):
        try:
            bar.wait()
            s = sp[i]
            o = s.make()
            recs = []
            for k in range(n):
                log.append(i)
                s.step(o)
                recs.append(rec(s, o, k))
            res[i] = (recs, s.stats(o))
        except BaseException as e:
            res[i] = e
    iv = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(i,)) for i in range(T)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(iv)
    sw = sum(1 for x, y in zip(log, log[1:]) if x != y)
    if sw >= T:
        mon.event('thread-overlap', tuple(log))
    for i in range(T):
        tag = 'T%d|%s' % (T, sp[i].name)
        if isinstance(res[i], BaseException):
            mon.ok('threads', False, error=res[i], tag=tag)
        else:
            same(mon, 'threads', res[i][0], ref[i][0], res[i][1], ref[i][1],
                 tag)


def functions(case, mon, rng):
    """A batch of library calls, made repeatedly in different orders, in
    threads and with poisoned allocations, always gives the same results;
    results already returned are not overwritten by later calls"""
    n = int(rng.integers(6, 14))
    dt = np.float64 if rng.random() < .7 else np.float32
    cs = [funcs.call(rng, dt) for _ in range(n)]
    for i in range(n // 2):            # same function, other arguments
        nm = cs[i][0]
        for _ in range(200):
            c = funcs.call(rng, dt)
            if c[0] == nm:
                cs.append(c)
                break
    n = len(cs)

    def conv(v, ro):
        if isinstance(v, np.ndarray) and v.ndim:
            v = gen.layout(rng, v, str(rng.choice(
                ['ro', 'F', 'strided', 'rev'] if ro else
                ['C', 'F', 'F', 'strided', 'rev'])))
            v.flags.writeable = not ro
        return v
    for i in range(n):                 # layout of the arguments
        if rng.random() < .5 and cs[i][0] not in ('block_circulant',):
            cs[i] = cs[i][:2] + (tuple(conv(v, False) for v in cs[i][2]),
                                 cs[i][3])
    inp = [[np.array(v) for v in funcs.leaves(c[2])] for c in cs]
    tol = 1e-9 if dt == np.float64 else 1e-4

    def same_val(name, got, want, c):
        g = funcs.leaves(got)
        ok = len(g) == len(want)
        for a, b in zip(g, want):
            if not ok:
                break
            sc = np.max(np.abs(b[np.isfinite(b)]), initial=0) \
                if b.dtype.kind in 'fc' else 0
            ok = a.shape == b.shape and a.dtype == b.dtype and np.allclose(
                a, b, tol, tol * (1 + sc), equal_nan=True)
        mon.ok(name, ok, sig=c[0], fn=c[0])

    def val(c):
        return c[1](*c[2], **c[3])
    with np.errstate(all='ignore'):
        ref = [[np.array(v) for v in funcs.leaves(val(c))] for c in cs]
        held = {}
        for i in rng.permutation(n):
            held[i] = val(cs[i])
            same_val('func-repeat', held[i], ref[i], cs[i])
        for i in range(n):
            same_val('func-held', held[i], ref[i], cs[i])
        # a returned array belongs to the caller, who may overwrite it
        args = [v for c in cs for v in funcs.leaves(c[2])]
        for i in rng.permutation(n):
            for v in funcs.leaves(held[i]):
                if v.flags.writeable and not any(
                        np.may_share_memory(v, a) for a in args):
                    v[...] = 77
            same_val('func-fresh', val(cs[i]), ref[i], cs[i])
        held = None
        for i in range(n):
            mon.ok('func-inputs', all(
                np.array_equal(a, b, equal_nan=a.dtype.kind in 'fc')
                for a, b in zip(funcs.leaves(cs[i][2]), inp[i])),
                fn=cs[i][0])
        with Poison([np.nan, 1e30][rng.integers(2)]):
            pz = [val(c) for c in cs]
        for i in range(n):
            same_val('func-poisoned', pz[i], ref[i], cs[i])
        # read-only arguments in an unusual layout
        for i in range(n):
            if rng.random() < .5 and cs[i][0] not in ('block_circulant',):
                same_val('func-read-only', cs[i][1](*[
                    conv(v, True) for v in cs[i][2]], **cs[i][3]), ref[i],
                    cs[i])
    if rng.random() < .5:
        return
    T = int(rng.integers(2, 5))
    out = [[] for _ in range(T)]
    bar = threading.Barrier(T)
    orders = [list(rng.permutation(n)) for _ in range(T)]

    def work(t):
        mine = [(c[0], c[1], tuple(
            np.array(v) if isinstance(v, np.ndarray) else v
            for v in c[2]), c[3]) for c in cs]
        bar.wait()
        for i in orders[t]:
            try:
                out[t].append((i, val(mine[i])))
            except Exception as e:
                out[t].append((i, e))
    iv = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(t,)) for t in range(T)]
        for t in th:
            t.start()
        for t in th:
            t.join()
    finally:
        sys.setswitchinterval(iv)
    for t in range(T):
        for i, v in out[t]:
            if isinstance(v, Exception):
                mon.ok('func-threads', False, fn=cs[i][0], error=v)
            else:
                same_val('func-threads', v, ref[i], cs[i])
