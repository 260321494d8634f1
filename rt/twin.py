"""Near-identical pairs of random instances, and evaluation in a process in
which the library has not been used before."""
import os
import pickle
import struct

import numpy as np


def _struct(name):
    def f(self, *a, **k):
        g = self._st()
        if g is not self.s:
            getattr(self.s, name)(*_copied(a), **k)   # keep the stream aligned
        return getattr(g, name)(*a, **k)
    return f


class Rng:
    """Random generator with separate streams for structural decisions
    (integers, choices, scalar probabilities) and contents (arrays, scalar
    parameters).  Two generators with one structure seed and different
    content seeds give instances of the same shapes and options with
    different values; with `alter` one structural decision is different."""

    def __init__(self, seed, content, alter=None):
        self.s = np.random.default_rng([seed, 1])
        self.c = np.random.default_rng([seed, 2, content])
        self.a = np.random.default_rng([seed, 3, content])
        self.n, self.alter = 0, alter

    def _st(self):
        self.n += 1
        return self.a if self.alter == self.n else self.s

    integers = _struct('integers')
    choice = _struct('choice')
    permutation = _struct('permutation')
    permuted = _struct('permuted')
    shuffle = _struct('shuffle')
    _rnd = _struct('random')

    def random(self, size=None, **k):
        if size is None:
            return self._rnd(**k)
        return self.c.random(size, **k)

    def __getattr__(self, name):
        return getattr(self.c, name)


def _copied(a):
    return [np.array(v) if isinstance(v, np.ndarray) else
            list(v) if isinstance(v, list) else v for v in a]


class Zygote:
    """Forks a process for each request.  Started before the first use of
    the library in the process that owns it."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                self.serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r = os.fdopen(w1, 'wb'), os.fdopen(r2, 'rb')
        self.owner = os.getpid()

    @staticmethod
    def serve(r, w):
        rf, wf = os.fdopen(r, 'rb'), os.fdopen(w, 'wb')
        while True:
            h = rf.read(8)
            if len(h) < 8:
                return
            fn, a = pickle.loads(rf.read(struct.unpack('<q', h)[0]))
            pr, pw = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(pr)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    try:
                        out = (True, fn(*a))
                    except BaseException as e:
                        out = (False, '%s: %s' % (type(e).__name__, e))
                    with os.fdopen(pw, 'wb') as f:
                        f.write(pickle.dumps(out))
                finally:
                    os._exit(0)
            os.close(pw)
            with os.fdopen(pr, 'rb') as f:
                b = f.read()
            os.waitpid(pid, 0)
            wf.write(struct.pack('<q', len(b)) + b)
            wf.flush()

    def call(self, fn, *a):
        """fn(*a) in a new process; fn has to be a module level function"""
        b = pickle.dumps((fn, a))
        self.w.write(struct.pack('<q', len(b)) + b)
        self.w.flush()
        n, = struct.unpack('<q', self.r.read(8))
        b = self.r.read(n)
        if not b:
            return False, 'process ended without a result'
        return pickle.loads(b)


_zyg = None


def start():
    global _zyg
    if _zyg is None or _zyg.owner != os.getpid():
        _zyg = Zygote()
    return _zyg


def alone(fn, *a):
    return start().call(fn, *a)
