"""CuPy variants of the solvers (sporco.cupy)."""
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from rt import registry

RULE = ('A case starts a fresh process which imports sporco.cupy before or '
        'after the standard modules, either with a stand-in for the cupy '
        'package (arrays on a pretended device which refuse every mixture '
        'with host arrays) or without cupy (numpy fallback), and compares '
        'random solvers, functions and utilities of sporco.cupy with their '
        'standard counterparts on the same problems. Non-trivial = distinct '
        '(class or function, back end).')
ASSUMPTIONS = [
    'no GPU here: the device is a stand-in following the rules of CuPy on '
    'host/device mixing and conversion, values are computed by numpy',
    'functions of the array, signal and linalg modules which rely on scipy '
    'or stride tricks are compared on the fallback only']
EXPECT = {'solver-same', 'stats-same', 'function-same', 'cupy-runs',
          'std-modules', 'std-unchanged', 'transfer', 'wrapper', 'gpu-util',
          'on-device', 'device-ops', 'array-module', 'cupy-enabled',
          'process', 'imports'}


def cases(tier):
    k = 26 if tier == 'quick' else 150
    return [{'kind': kd, 'n': i} for kd in ('device', 'fallback')
            for i in range(k)]


def run(case, mon, rng):
    job = {'seed': int(rng.integers(2**31)), 'n': 25,
           'device': case['kind'] == 'device',
           'order': ['cupy-first', 'std-first', 'mixed'][
               int(rng.integers(3))],
           'ref': []}
    for _ in range(3):
        nm = registry.NAMES[int(rng.integers(len(registry.NAMES)))]
        if nm in registry.GLOBAL:
            continue
        sd = int(rng.integers(2**31))
        s = registry.spec(np.random.default_rng(sd), nm)
        a = s.make()
        s.step(a)
        job['ref'].append((nm, sd, s.vector(a)))
    with tempfile.TemporaryDirectory() as tmp:
        fi, fo = os.path.join(tmp, 'i'), os.path.join(tmp, 'o')
        with open(fi, 'wb') as f:
            pickle.dump(job, f)
        p = subprocess.run([sys.executable, '-m', 'rt.cupy_drv', fi, fo],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=600)
        mon.ok('process', p.returncode == 0, sig=job['order'],
               rc=p.returncode, out=p.stdout[-1500:])
        if p.returncode:
            return
        with open(fo, 'rb') as f:
            r = pickle.load(f)
    for k, v in r['counts'].items():
        mon.counts[k] = mon.counts.get(k, 0) + v
    mon.sigs.update(r['sigs'])
    mon.viol.extend(r['viol'])
    for k, v in r['worst'].items():
        mon.worst[k] = max(mon.worst.get(k, 0), v)
