"""Suspending, resuming, copying and pickling of solver objects"""
import contextlib
import copy
import io
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

import sporco.fft as sfft
from rt import registry

sfft.pyfftw_threads = 1

RULE = ('A case draws a random problem and option set for a solver class and '
        'records the states and statistics of an uninterrupted run of N '
        'iterations. The same run is then (split) divided over solve() calls '
        'of random lengths, ended by the iteration limit or by a callback, '
        'with calls of accessors in between; (copy) continued from a copy of '
        'the solver made after a random number of iterations, copy and '
        'original proceeding in random order, one of them being discarded in '
        'some cases; (pickle) run with a solver that was pickled before its '
        'first iteration, in the same or in a fresh process. All runs must '
        'give the same states and statistics. Non-trivial = distinct (class, '
        'schedule).')
ASSUMPTIONS = [
    'the stopping tolerance is not reached within the N iterations',
    'traces are compared up to the rounding differences which run-time '
    'selected FFT plans and SIMD paths cause',
    'pickling of solvers with user supplied functions and of dictionary '
    'learning objects is not claimed, nor is that of solvers which already '
    'have iteration statistics',
    'a copy of an online, parallel or dictionary learning solver is a deep '
    'copy']
EXPECT = {'split', 'copy', 'original', 'pickle', 'pickle-process', 'stats',
          'iter-count', 'nostep-copy', 'split-plan', 'independent',
          'callback-stop',
          'accessor', 'accessor-pure'}
NM = registry.NAMES
OFF = [nm for nm in NM if not nm.startswith('dl.Online')]
PCK = [nm for nm in NM if not nm.startswith('dl.') and 'PPP' not in nm]


def cases(tier):
    k = 15 if tier == 'quick' else 80
    out = []
    for kd, names in (('split', OFF), ('copy', NM), ('pickle', PCK)):
        out += [{'kind': kd, 'n': 10000 * j + i, 'cls': nm}
                for j, nm in enumerate(names) for i in range(k)]
    out += [{'kind': 'process', 'n': i} for i in range(k // 2)]
    return out


def run(case, mon, rng):
    with contextlib.redirect_stdout(io.StringIO()):
        {'split': split, 'copy': copies, 'pickle': pickled,
         'process': process}[case['kind']](case, mon, rng)


def agree(mon, name, s, a, b, tag, ref=None):
    """Are the solvers in the same state?  (a: reference)"""
    va, sa = ref if ref is not None else (s.vector(a), s.stats(a))
    vb, sb = s.vector(b), s.stats(b)
    if va.shape != vb.shape:
        mon.ok(name, False, tag=tag, shapes=(va.shape, vb.shape))
        return
    fin = np.isfinite(va)
    mx = np.max(np.abs(va[fin]), initial=0.0)
    e = np.max(np.abs(va - vb)[fin], initial=0.0) / (1e-9 + mx)
    single = any(v.dtype in (np.float32, np.complex64) for v in s.state(a if
                 a is not None else b))
    mon.ok(name, e < (1e-3 if single else 1e-7) and np.array_equal(
        fin, np.isfinite(vb)), sig=tag, tag=tag, err=e)
    ok = sa.shape == sb.shape and np.allclose(
        sa, sb, 1e-2 if single else 1e-5, 1e-7 * (1 + np.nanmax(np.abs(
            sa), initial=0)), equal_nan=True)
    mon.ok('stats', ok, tag=tag, a=sa, b=sb)


def poke(mon, rng, s, obj):
    v = s.vector(obj) if itn(obj) else None
    done = registry.poke(rng, obj)
    for f in done:
        mon.event('accessor', (s.name, f))
    if v is not None and done:
        mon.ok('accessor-pure', np.array_equal(v, s.vector(obj),
                                               equal_nan=True),
               tag=s.name, calls=done)


def itn(obj):
    return len(obj.itstat) if getattr(obj, 'itstat', None) else 0


def split(case, mon, rng):
    s = registry.spec(rng, case['cls'])
    if 'RelStopTol' in s.opt:
        s.opt['RelStopTol'] = 0.0
    N = int(rng.integers(2, 8))
    a = s.make()
    a.opt['MaxMainIter'] = N
    a.solve()
    b = s.make()
    left, plan = N, []
    while left > 0:
        n = int(rng.integers(1, left + 1))
        how = str(rng.choice(['limit', 'callback']))
        if how == 'callback' and 'Callback' in b.opt:
            cnt = [0]

            def cb(o, n=n, cnt=cnt):
                cnt[0] += 1
                return cnt[0] >= n
            b.opt['Callback'] = cb
            b.opt['MaxMainIter'] = int(n + rng.integers(0, 4))
            b.solve()
            b.opt['Callback'] = None
            mon.ok('callback-stop', cnt[0] == n, tag=case['cls'])
        else:
            b.opt['MaxMainIter'] = n
            b.solve()
        left -= n
        plan.append((n, how))
        if rng.random() < .5:
            poke(mon, rng, s, b)
        if itn(a):
            mon.ok('iter-count', itn(b) == N - left, tag=case['cls'])
    mon.event('split-plan', (case['cls'], tuple(plan)))
    agree(mon, 'split', s, a, b, '%s|%d' % (case['cls'], len(plan)))


def copies(case, mon, rng):
    s = registry.spec(rng, case['cls'])
    N = int(rng.integers(1, 5))
    m = int(rng.integers(0, N))
    a = s.make()
    ref = []
    for _ in range(N):
        s.step(a)
        ref.append((s.vector(a), s.stats(a)))
    b = s.make()
    for _ in range(m):
        s.step(b)
        poke(mon, rng, s, b)
    how = 'deepcopy'
    c = copy.deepcopy(b)
    tag = '%s|%s|%d' % (case['cls'], how, m)
    if m:
        agree(mon, 'nostep-copy', s, b, c, tag)
    done = [m, m]
    plan = [0] * (N - m) + [1] * (N - m)
    plan = [plan[i] for i in rng.permutation(len(plan))]
    if rng.random() < .3:
        # advance the original to the end (or discard it) before the copy
        plan = [0] * (N - m) + [1] * (N - m)
        if rng.random() < .5:
            plan = plan[N - m:]
            del b
            b = None
    objs = [b, c]
    for w in plan:
        held = s.vector(objs[1 - w]) if objs[1 - w] is not None and done[
            1 - w] else None
        s.step(objs[w])
        done[w] += 1
        agree(mon, ('original', 'copy')[w], s, None, objs[w], tag,
              ref[done[w] - 1])
        if held is not None:
            mon.ok('independent', np.array_equal(held, s.vector(objs[1 - w]),
                                                 equal_nan=True), tag=tag)


def finish(s, obj, N):
    for _ in range(N):
        s.step(obj)


def pickled(case, mon, rng):
    s = registry.spec(rng, case['cls'])
    N = int(rng.integers(1, 4))
    a = s.make()
    finish(s, a, N)
    b = s.make()
    prot = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    c = pickle.loads(pickle.dumps(b, prot))
    finish(s, c, N)
    agree(mon, 'pickle', s, a, c, '%s|%d' % (case['cls'], prot))
    mon.ok('pickle', type(c) is type(b) and c.opt is not b.opt,
           tag=case['cls'])
    finish(s, b, N)
    agree(mon, 'original', s, a, b, case['cls'])


PROG = '''
import pickle, sys, warnings
warnings.simplefilter('ignore')
sys.path[:0] = [%r, %r]
import contextlib, io
with open(sys.argv[1], 'rb') as f:
    objs = pickle.load(f)
out = []
with contextlib.redirect_stdout(io.StringIO()):
    for name, obj, n in objs:
        from rt import registry
        s = registry.Spec(name, type(obj), (), {}, {})
        for _ in range(n):
            s.step(obj)
        out.append((s.vector(obj), s.stats(obj)))
with open(sys.argv[1], 'wb') as f:
    pickle.dump(out, f)
'''


def process(case, mon, rng):
    """Pickled solvers are run in a fresh process"""
    root = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    import sporco
    repo = os.path.dirname(os.path.dirname(os.path.abspath(
        sporco.__file__)))
    todo, ref, specs = [], [], []
    for nm in [PCK[i] for i in rng.permutation(len(PCK))[:8]]:
        s = registry.spec(rng, nm)
        n = int(rng.integers(1, 3))
        a = s.make()
        finish(s, a, n)
        todo.append((nm, s.make(), n))
        ref.append(a)
        specs.append(s)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'solvers')
        with open(fn, 'wb') as f:
            pickle.dump(todo, f)
        p = subprocess.run([sys.executable, '-c', PROG % (repo, root), fn],
                           capture_output=True, text=True, timeout=300)
        mon.ok('pickle-process', p.returncode == 0, err=p.stderr[-1500:])
        if p.returncode:
            return
        with open(fn, 'rb') as f:
            out = pickle.load(f)
    for s, a, (v, st) in zip(specs, ref, out):
        # the roles are exchanged: the fresh process is the reference
        agree(mon, 'pickle-process', s, None, a, s.name, (v, st))
